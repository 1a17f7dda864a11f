"""P09: get returns the latest accepted set; properties are atomic registers; rejections and unknown names are errors."""
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = ("random typed set/get programs over providers and consumers (own process, other process, provider itself) against a reference store; concurrent unique-value "
        "writers/readers judged by a register-linearizability oracle. A case is one bus call; distinct = (operation, value type, access rights, outcome) seen, or distinct overlap patterns of concurrent operations")


def plan(tier):
    n = 8 if tier == "quick" else 24
    return [{"fn": "seq", "args": {"k": i, "steps": 1200 if tier == "quick" else 2500}} for i in range(n)] + \
           [{"fn": "conc", "args": {"k": i, "ops": 300 if tier == "quick" else 500}} for i in range(n)]


def seq(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    provs = [ctx.comp("prov" + "123456"[:i]) for i in range(2)]
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
    els = {}
    for i, p in enumerate(provs):
        cmd = []
        for j in range(10):
            flags = rng.choice(["gs", "gs", "gs", "g", "s", "-"])
            name = "Dev%d.%s.Prop%d" % (i, ".".join(gen.rname(rng) for _ in range(rng.randint(1, 3))), j)
            els[name] = {"p": p, "f": flags, "v": "str:" + name, "set_rc": 0, "get_rc": 0}
            cmd.append("%s p %s" % (name, flags if flags != "-" else "-"))
        p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))
    names = list(els)
    everyone = provs + cons
    sess = 0
    for step in range(steps):
        a = rng.choice(everyone)
        name = rng.choice(names)
        e = els[name]
        op = rng.choice(["set", "set", "set", "get", "get", "get", "getT", "setT", "unknown", "cfg", "commit", "null"])
        for p in provs:
            p.sync()
        marks = {p: p.mark() for p in provs}

        def handler_events():
            for p in provs:
                p.sync()
            return [ev for p in provs for ev in p.evs(since=marks[p]) if ev.kind in ("set", "get")]
        if op in ("set", "commit"):
            v = gen.value(rng, big=gen.size(rng, [20, 200, 3000]))
            sess += 1
            withopt = op == "commit" or rng.random() < 0.5
            commit, sid = (rng.randint(0, 1), rng.choice([0, sess, 2**31 - 1])) if withopt else (1, 0)
            r = a.call("set 0 %s %s%s" % (name, v, " %d %d" % (commit, sid) if withopt else ""))
            evs = handler_events()
            ctx.distinct(("set", v.split(":")[0], e["f"], r.rc != 0, e["set_rc"] != 0))
            if "s" not in e["f"]:
                ctx.check(r.rc != 0, "set-without-handler-accepted", lambda: "set of %s (no set handler) returned success" % name)
                ctx.check(not evs, "handler-called", lambda: "handlers ran for a set that must be refused: %s" % evs)
                continue
            ctx.check(len(evs) == 1 and evs[0].kind == "set", "set-handler-count", lambda: "set %s: handler events %s" % (name, [(x.kind, list(x)) for x in evs]))
            if len(evs) == 1:
                h = evs[0]
                want = [name, v, str(commit), str(sid), a.name]
                ctx.check(h[1:6] == want, "set-handler-args", lambda: "set delivered %s, sent %s" % (h[1:6], want))
                ctx.check(h.agent == e["p"].name, "set-wrong-provider", lambda: "set of %s ran in %s" % (name, h.agent))
            if e["set_rc"]:
                ctx.check(r.rc == e["set_rc"], "set-error-code", lambda: "provider rejected with %d, caller got %d" % (e["set_rc"], r.rc))
            else:
                if ctx.check(r.rc == 0, "set-failed", lambda: "set %s %s returned %d" % (name, v[:100], r.rc)):
                    e["v"] = v
        elif op == "get":
            r = a.call("get 0 " + name)
            evs = handler_events()
            ctx.distinct(("get", e["v"].split(":")[0], e["f"], r.rc != 0, e["get_rc"] != 0))
            if "g" not in e["f"]:
                ctx.check(r.rc != 0 and not evs, "get-without-handler", lambda: "get of %s (no get handler): rc %d, handlers %s" % (name, r.rc, evs))
            elif e["get_rc"]:
                ctx.check(r.rc == e["get_rc"], "get-error-code", lambda: "provider failed the get with %d, caller got %d" % (e["get_rc"], r.rc))
            else:
                ctx.check(r.rc == 0 and r.payload[:1] == [e["v"]], "get-value", lambda: "get %s: rc %d %s, expected %s" % (name, r.rc, r.payload, e["v"]))
                ctx.check(len(evs) == 1 and evs[0][1] == name and evs[0].agent == e["p"].name, "get-handler-count", lambda: "get %s ran handlers %s" % (name, evs))
        elif op == "getT":
            t = rng.choice("bius")
            tt = {"b": "bool", "i": "i32", "u": "u32", "s": "str"}[t]
            r = a.call("getT 0 %s %s" % (t, name))
            if "g" not in e["f"] or e["get_rc"]:
                ctx.check(r.rc != 0, "typed-get-error", "typed get of %s must fail" % name)
            elif e["v"].split(":")[0] == tt:
                ctx.check(r.rc == 0 and r.payload[:1] == [e["v"]], "typed-get", lambda: "typed get %s: rc %d %s, expected %s" % (name, r.rc, r.payload, e["v"]))
            else:
                ctx.check(r.rc != 0, "typed-get-type", lambda: "typed get %s of a %s returned success" % (t, e["v"][:40]))
            ctx.distinct(("getT", t, e["v"].split(":")[0], r.rc != 0))
        elif op == "setT":
            t = rng.choice("bius")
            val = {"b": lambda: str(rng.randint(0, 1)), "i": lambda: str(gen.rint(rng, "i32")), "u": lambda: str(gen.rint(rng, "u32")), "s": lambda: pct(gen.rstr(rng))}[t]()
            r = a.call("setT 0 %s %s %s" % (t, name, val))
            v = {"b": "bool", "i": "i32", "u": "u32", "s": "str"}[t] + ":" + val
            okay = "s" in e["f"] and not e["set_rc"]
            ctx.check((r.rc == 0) == okay, "typed-set", lambda: "typed set of %s returned %d" % (name, r.rc))
            if okay and r.rc == 0:
                e["v"] = v
                h = [x for x in handler_events() if x.kind == "set"]
                ctx.check(len(h) == 1 and h[0][1:3] == [name, v], "typed-set-delivery", lambda: "typed set delivered %s, sent %s" % (h, v))
        elif op == "unknown":
            bad = rng.choice([name + "x", name[:-1], "No.Such.Name", name + ".Sub", "Dev0", rname(rng)])
            if bad in els:
                continue
            if rng.random() < 0.5:
                r = a.call("get 0 " + pct(bad))
            else:
                r = a.call("set 0 %s i32:5" % pct(bad))
            ctx.check(r.rc != 0, "unknown-name", lambda: "call on unknown name %s returned success" % bad)
            ctx.check(not handler_events(), "unknown-name-handler", lambda: "unknown name %s ran handlers" % bad)
            ctx.distinct(("unknown", r.rc))
        elif op == "cfg":
            key = rng.choice(["set_rc", "get_rc"])
            val = rng.choice([0, 0, 1, 3, 4, 5, 11, 12, 14, 22])
            e["p"].ok("cfg %s %s %d" % (name, key, val))
            e[key] = val
        elif op == "null":
            r = a.call("set 0 %s null" % name)
            ctx.check(r.rc != 0 and not handler_events(), "null-value", lambda: "set of a NULL value on %s: rc %d" % (name, r.rc))
        if step < 3:
            ctx.sample("%s by %s -> rc %s" % (op, a.name, name))
        if ctx.failed:
            return
    for p in everyone:
        p.ok("close 0")


def rname(rng):
    return gen.rname(rng) + "." + gen.rname(rng)


def conc(ctx, k, ops):
    """Concurrent unique-value writers and readers on few properties; some providers are slow; register linearizability."""
    rng = ctx.rng
    ctx.start_broker()
    prov = [ctx.comp("prov" + "123456"[:i]) for i in range(2)]
    cons = [ctx.comp("c%d" % i) for i in range(3)]
    names = ["Reg%d.A.V%d" % (i % 2, i) for i in range(3)]
    for i, n in enumerate(names):
        prov[i % 2].ok("reg 0 1 %s p gs" % n)
    for i, n in enumerate(names):
        prov[i % 2].ok("cfg %s %s_ms %d" % (n, rng.choice(["set", "get"]), rng.choice([0, 0, 1, 2])))
        prov[i % 2].ok("cfg %s quiet 1" % n)
    futs, uid = [], 0
    for a in cons + prov:
        for w in range(1, 4):
            for j in range(ops // 3):
                n = rng.choice(names)
                if rng.random() < 0.5:
                    uid += 1
                    t = rng.choice(["i32:%d", "u64:%d", "str:v%d", "obj:o(x=i32:%d)"]) % uid
                    futs.append((n, "w", t, a.send("set 0 %s %s" % (n, t), w)))
                else:
                    futs.append((n, "r", None, a.send("get 0 " + n, w)))
    hist = {n: [] for n in names}
    for n, kind, v, f in futs:
        r = f.wait(200)
        if not ctx.check(r.rc == 0, "concurrent-call-failed", lambda: "%s %s returned %d" % (kind, n, r.rc)):
            return
        hist[n].append((kind, v if kind == "w" else r.payload[0], r.t0, r.t1, True))
    for i, n in enumerate(names):
        bad = gen.register_violation(hist[n], "str:" + n)
        ctx.check(bad is None, "register", lambda: "%s: %s" % (n, bad))
        h = sorted(hist[n], key=lambda o: o[2])
        open_ = []
        for o in h:
            open_ = [x for x in open_ if x[3] > o[2]]
            ctx.distinct((o[0], len(open_), sum(x[0] == "w" for x in open_), k))
            open_.append(o)
        prov[i % 2].sync()
        # exactly-once: every successful set ran its handler once
        sets = [e[2] for e in prov[i % 2].evs("set") if e[1] == n]
        ws = [v for kk, v, *_ in hist[n] if kk == "w"]
        ctx.check(sorted(sets) == sorted(ws), "set-exactly-once", lambda: "%s: handler saw %d sets, %d were made" % (n, len(sets), len(ws)))
    ctx.sample("%s: %d operations, first %s" % (names[0], len(hist[names[0]]), sorted(hist[names[0]], key=lambda o: o[2])[:4]))
    for a in cons + prov:
        a.ok("close 0")
