"""P10: random multi-parameter sets over several providers, table rows and processes (all good, or with unknown, read-only or rejected parameters at random positions, duplicates, single parameters), sequential and concurrent on disjoint parameters; after every call the providers' stores, handler events and the named parameter are compared with a reference store."""
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (number of parameters, providers involved, failure kind, position of the failure, duplicates) combinations"


def plan(tier):
    n = 6 if tier == "quick" else 24
    return [{"fn": "seq", "args": {"k": i, "steps": 700 if tier == "quick" else 900}} for i in range(n)] + \
           [{"fn": "conc", "args": {"k": i, "rounds": 150 if tier == "quick" else 200}} for i in range(max(2, n // 3))]


def setup(ctx, nprov, ncons, nprops):
    rng = ctx.rng
    ctx.start_broker()
    provs = [ctx.comp("prov" + "123456"[:i]) for i in range(nprov)]
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(ncons)]
    els = {}
    for i, p in enumerate(provs):
        cmd, rows = [], rng.randint(0, 3)
        for j in range(nprops):
            f = rng.choice(["gs"] * 7 + ["g", "s"])
            name = "Multi%d.%s.P%d" % (i, gen.rname(rng), j)
            els[name] = {"p": p, "i": i, "f": f, "v": None, "rc": 0}
            cmd.append("%s p %s" % (name, f))
        t = "Multi%d.Tab." % i
        cmd += ["%s{i}. t ar" % t, "%s{i}.Col p gs" % t, "%s{i}.Ro p g" % t]
        p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))
        for r in range(rows):
            inst = p.ok("addrow 0 %s !" % t).payload[0]
            els["%s%s.Col" % (t, inst)] = {"p": p, "i": i, "f": "gs", "v": None, "rc": 0}
            els["%s%s.Ro" % (t, inst)] = {"p": p, "i": i, "f": "g", "v": None, "rc": 0}
    return provs, cons, els


def stored(els, names):
    fs = [(n, els[n]["p"].send("load " + n, 60)) for n in names]
    return {n: f.wait().payload[0] for n, f in fs}


def one(ctx, rng, a, els, names, worker, provs, events):
    """One multi set by agent a over the parameters in names; judged against the reference store."""
    good = [n for n in names if "s" in els[n]["f"] and not els[n]["rc"]]
    bad = [n for n in names if n not in good]
    k = rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12])
    if rng.random() < 0.05:
        k = 40
    ps = [rng.choice(good) for _ in range(k)] if rng.random() < 0.3 else rng.sample(good, min(k, len(good)))
    kind = rng.choice(["ok", "ok", "bad", "bad", "unknown"])
    if kind == "bad" and not bad:
        kind = "ok"
    pos = rng.choice([0, len(ps), rng.randint(0, len(ps))])
    if kind == "bad":
        for b in rng.sample(bad, min(len(bad), rng.choice([1, 1, 1, 2]))):
            ps.insert(min(pos, len(ps)), b)
    elif kind == "unknown":
        ps.insert(pos, rng.choice([rng.choice(names) + "x", "No.Such.Param", "Multi0.Tab.77.Col", "Multi0"]))
    vals = [gen.value(rng, big=gen.size(rng, [10, 60, 300], 0.01)) for _ in ps]
    failing = [p for p in ps if p not in els or p in bad]
    opts = rng.random() < 0.6
    commit, sid = (rng.randint(0, 1), rng.choice([0, 7, 2**31 - 1])) if opts else (1, 0)
    ext = rng.random() < 0.7
    marks = {p: p.mark() for p in provs} if events else None
    # sometimes one of the parameters accepts the new value but refuses to take it back: the others must be undone all the same
    # (within the provider that fails: when a provider refuses to take back what it had accepted as a whole, the undo ends there)
    where = {els[n]["i"] if n in els else None for n in failing}
    stuck = [n for n in ps if n not in failing and ps.count(n) == 1 and {els[n]["i"]} == where] if events and failing and rng.random() < 0.4 else []
    stuck = [rng.choice(stuck)] if stuck else []
    for n in stuck:
        els[n]["p"].ok("cfg %s set_skip 1" % n)
        els[n]["p"].ok("cfg %s set_rc 1" % n)
    r = a.call("setmulti 0 %d %d %d %s%s" % (ext, rng.choice([0, 20000]), len(ps), " ".join("%s %s" % (n, v) for n, v in zip(ps, vals)), " %d %d" % (commit, sid) if opts else ""), worker)
    desc = lambda: "setMulti%s of %s" % ("Ext" if ext else "", [(n, v[:40], "FAILS" if n in failing else "") for n, v in zip(ps, vals)])
    ctx.distinct((min(len(ps), 13), len({els[n]["i"] for n in ps if n in els}), kind, pos == 0, pos >= len(ps) - 1, len(set(ps)) < len(ps), ext, bool(failing) and failing[0] in els and els[failing[0]]["f"]))
    if failing:
        ctx.check(r.rc != 0, "failure-not-reported", lambda: desc() + " returned success")
        if ext:
            named = unpct(r.payload[0])
            ctx.check(named in failing, "failed-name", lambda: desc() + " named %s as failed" % named)
        if len(failing) == 1 and failing[0] in els and els[failing[0]]["rc"] and "s" in els[failing[0]]["f"]:
            ctx.check(r.rc == els[failing[0]]["rc"], "error-code", lambda: desc() + " returned %d, the provider rejected with %d" % (r.rc, els[failing[0]]["rc"]))
    else:
        ctx.check(r.rc == 0, "set-failed", lambda: desc() + " returned %d" % r.rc)
        if ext:
            ctx.check(unpct(r.payload[0]) is None, "failed-name", lambda: desc() + " succeeded but named %s" % r.payload)
    for n in stuck:
        els[n]["p"].ok("cfg %s set_rc 0" % n)
        els[n]["p"].ok("cfg %s set_skip 0" % n)
    touched = [n for n in dict.fromkeys(ps) if n in els]
    now = stored(els, touched)
    if r.rc == 0:
        for n, v in zip(ps, vals):
            if n in els:
                els[n]["v"] = v
    for n in touched:
        if r.rc != 0 and "g" not in els[n]["f"]:
            els[n]["v"] = now[n] if now[n] not in ("null",) else None  # a write-only parameter has no value to return to
            continue
        # parameters never set before go back to the default the provider reports, its own name
        want = els[n]["v"]
        have = now[n]
        if n in stuck:
            ctx.count("undo refused")
            want = els[n]["v"] = vals[ps.index(n)] if have == vals[ps.index(n)] else want
        same = have == want or (want is None and have in ("null", "none", "str:" + pct(n)))
        if want is None and have == "str:" + pct(n):
            els[n]["v"] = have
        ctx.check(same, "not-applied" if r.rc == 0 else "not-undone", lambda: desc() + " returned %d; %s now holds %s, must hold %s" % (r.rc, n, have[:100], str(want)[:100]))
    if events and r.rc == 0 and not failing:
        for p in provs:
            p.sync()
        for i, p in enumerate(provs):
            h = [list(e[1:6]) for e in p.evs("set", marks[p])]
            want = [[n, v] for n, v in zip(ps, vals) if els[n]["i"] == i]
            ctx.check(sorted(x[:2] for x in h) == sorted(want), "applied-once", lambda: desc() + ": %s ran handlers %s, expected %s" % (p.name, h, want))
            ctx.check(all(x[3] == str(sid) and x[4] == a.name for x in h), "set-options", lambda: desc() + ": handlers got %s, session %d of %s sent" % (h, sid, a.name))
            if h:
                ctx.check([x[2] for x in h] == ["0"] * (len(h) - 1) + [str(commit)], "commit-flag", lambda: desc() + ": commit flags %s, commit=%d" % ([x[2] for x in h], commit))
    return r


def seq(ctx, k, steps):
    rng = ctx.rng
    provs, cons, els = setup(ctx, rng.choice([1, 2, 3, 4]), 2, 7)
    names = list(els)
    for step in range(steps):
        if rng.random() < 0.25:
            n = rng.choice(names)
            els[n]["rc"] = rng.choice([0, 0, 1, 3, 4, 11, 14, 22])
            els[n]["p"].ok("cfg %s set_rc %d" % (n, els[n]["rc"]))
            if sum(1 for x in names if els[x]["rc"] == 0 and els[x]["f"] == "gs") < 5:
                els[n]["rc"] = 0
                els[n]["p"].ok("cfg %s set_rc 0" % n)
        r = one(ctx, rng, rng.choice(cons + provs), els, names, 0, provs, True)
        if step < 2:
            ctx.sample("%s -> rc %d %s" % (r.cmd[:300], r.rc, r.payload))
        if ctx.failed:
            return
    for a in provs + cons:
        a.ok("close 0")


def conc(ctx, k, rounds):
    """Several threads and processes work on disjoint parameters of the same providers at once."""
    import threading, random
    rng = ctx.rng
    provs, cons, els = setup(ctx, 3, 2, 24)
    names = list(els)
    rng.shuffle(names)
    for n in names:
        if rng.random() < 0.15:
            els[n]["rc"] = rng.choice([1, 4, 14])
            els[n]["p"].ok("cfg %s set_rc %d" % (n, els[n]["rc"]))
    parts = [names[i::6] for i in range(6)]

    def work(i):
        r2 = random.Random("%s/%d/%d" % (ctx.seed, k, i))
        a = (cons + provs[:1])[i % 3]
        try:
            for _ in range(rounds):
                one(ctx, r2, a, els, parts[i], 1 + i, provs, False)
                if ctx.failed:
                    return
        except Exception as e:
            ctx.violation("worker", repr(e))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for a in provs + cons:
        a.ok("close 0")
