"""P08: many threads of several processes keep gets, sets, multi-name gets, method calls (immediate, slow, deferred), row calls and nested calls outstanding at the same time; every request carries something unique that its answer must repeat, the providers' logs show how often each ran, and calls to slow, stopped and dying providers must end with a timeout close to the configured limit, their late answers never reaching a later request. Names nobody owns must be refused promptly."""
import os
import signal
import time
from lib.vlib import pct, unpct, BUILD
VARIANTS, AGENT = ["asan"], True
PARALLEL = 12
RULE = "a case is one request; distinct = (call, delay class, concurrency, outcome) combinations"
TIMEOUT, NOTFOUND = 20, 5
MS = 10**6


def plan(tier):
    n = 4 if tier == "quick" else 16
    return [{"fn": "mix", "args": {"k": i, "rounds": 30 if tier == "quick" else 400}} for i in range(n)] + \
           [{"fn": "slow", "args": {"k": i, "rounds": 4 if tier == "quick" else 60}} for i in range(n)] + \
           [{"fn": "nested", "args": {"k": i, "rounds": 40 if tier == "quick" else 400}} for i in range(n // 2)] + \
           [{"fn": "config", "args": {"k": i, "which": w, "files": b}} for i in range(1 if tier == "quick" else 4) for w in "gsGS" for b in (0, 1)] + \
           [{"fn": "lost", "args": {"k": i, "rounds": 2 if tier == "quick" else 12}} for i in range(3 if tier == "quick" else 8)] + \
           [{"fn": "pending", "args": {"k": i, "rounds": 4 if tier == "quick" else 25}} for i in range(1 if tier == "quick" else 4)]


def answer(ctx, a, f, r, expect, what, t):
    """A call that had to succeed: the payload must be the one of this very request."""
    ctx.count("requests")
    if not ctx.check(r.rc == 0, "call-failed", lambda: "%s: %s returned %d after %d ms" % (a.name, r.cmd, r.rc, (r.t1 - r.t0) // MS)):
        return False
    return ctx.check(r.payload == expect, "wrong-answer", lambda: "%s: %s (%s) answered %s, must be %s" % (a.name, r.cmd[:200], what, str(r.payload)[:300], str(expect)[:300]))


def mix(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    provs = []
    for i in range(2):
        p = ctx.comp("prov" + "12"[:i])
        pre = "Rq%d" % i
        els = ["%s.V%d p gs" % (pre, j) for j in range(60)] + ["%s.G%d p g" % (pre, j) for j in range(20)] + ["%s.M%d() m m" % (pre, j) for j in range(4)] + ["%s.T.{i}. t ar" % pre, "%s.T.{i}.X p g" % pre]
        p.ok("reg 0 %d %s" % (len(els), " ".join(els)))
        p.ok("handlelog 0")
        provs.append(p)
    cs = [ctx.comp("cons" + "123"[:i]) for i in range(3)]
    callers = [(c, 0, w) for c in cs for w in range(5)] + [(p, 0, w) for p in provs for w in range(2)]
    own, val, n = {}, {}, 0
    for i, x in enumerate(callers):
        own[x] = "Rq%d.V%d" % (i % 2, i)
    tags, sets = {}, {}
    for rnd in range(rounds):
        futs = []
        burst = rng.choice([1, 2, 4, 8])
        act = rng.sample(callers, rng.choice([4, 12, len(callers)]))
        for j in range(burst):
            for x in act:
                a, h, w = x
                n += 1
                op = rng.choice(["get", "get", "set", "own", "ext", "inv", "inv", "none"])
                if op == "get":
                    nm = "Rq%d.G%d" % (rng.randint(0, 1), rng.randint(0, 19))
                    futs.append((a, a.send("get 0 " + nm, w), ["str:" + nm], op))
                elif op == "set":
                    v = "str:%s-%d-%d" % (a.name, w, n)
                    val[x] = v
                    sets[v] = 0
                    futs.append((a, a.send("set 0 %s %s" % (own[x], v), w), [], op))
                elif op == "own":
                    futs.append((a, a.send("get 0 " + own[x], w), [val.get(x, "str:" + own[x])], op))
                elif op == "ext":
                    nms = ["Rq%d.G%d" % (rng.randint(0, 1), q) for q in rng.sample(range(20), 3)]
                    futs.append((a, a.send("getext 0 3 " + " ".join(nms), w), ("set", nms), op))
                elif op == "inv":
                    m = "Rq%d.M%d()" % (rng.randint(0, 1), rng.randint(0, 3))
                    mode = rng.choice([0, 0, 2])
                    ms = rng.choice([0, 0, 0, 3, 20]) if mode == 2 else rng.choice([0, 0, 0, 0, 2])
                    o = "~(mode=i32:%d,ms=i32:%d,tag=str:q%d)" % (mode, ms, n)
                    tags["q%d" % n] = 0
                    futs.append((a, a.send("inv 0 %s %s" % (m, o), w), ("meth", m, "q%d" % n), op + str(mode)))
                else:
                    nm = "Nobody%d.X" % n
                    futs.append((a, a.send("get 0 " + nm, w), ("none",), op))
        for a, f, exp, op in futs:
            r = f.wait()
            if isinstance(exp, list):
                answer(ctx, a, f, r, exp, op, 0)
            elif exp[0] == "set":
                ctx.count("requests")
                ok = r.rc == 0 and r.payload[0] == "3" and {(r.payload[1 + 2 * q], r.payload[2 + 2 * q]) for q in range(3)} == {(x, "str:" + x) for x in exp[1]}
                ctx.check(ok, "wrong-answer", lambda: "%s: %s answered rc %d %s" % (a.name, r.cmd, r.rc, r.payload))
            elif exp[0] == "meth":
                ctx.count("requests")
                ok = r.rc == 0 and r.payload and ("tag=str:%s," % exp[2] in r.payload[0] or "tag=str:%s)" % exp[2] in r.payload[0]) and "__m=str:" + pct(exp[1]) in r.payload[0].replace("(", "(")
                ctx.check(ok, "wrong-answer", lambda: "%s: %s answered rc %d %s" % (a.name, r.cmd, r.rc, r.payload))
            else:
                ctx.count("requests")
                ctx.check(r.rc == NOTFOUND and (r.t1 - r.t0) < 6000 * MS, "not-found", lambda: "%s: %s returned %d after %d ms" % (a.name, r.cmd, r.rc, (r.t1 - r.t0) // MS))
            ctx.distinct((op, burst, len(act), r.rc, (r.t1 - r.t0) // MS > 5))
        if ctx.failed:
            return
    for p in provs:
        p.sync()
        for e in p.evs("meth"):
            t = e[2].split("tag=str:")[1].rstrip(")").split(",")[0]
            tags[t] = tags.get(t, 99) + 1
        for e in p.evs("set"):
            sets[e[2]] = sets.get(e[2], 99) + 1
    bad = {t: c for t, c in list(tags.items()) + list(sets.items()) if c != 1}
    ctx.check(not bad, "executed-not-once", lambda: "times the provider ran a request: %s" % dict(list(bad.items())[:6]))
    ctx.count("executions", len(tags) + len(sets))
    for a in cs + provs:
        a.ok("close 0")


def slow(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    fast = ctx.comp("fast")
    fast.ok("reg 0 3 Fa.G p gs Fa.M() m m Fa.T.{i}. t ar")
    gen = 0
    for rnd in range(rounds):
        gen += 1
        pn = "slow%d" % gen
        p = ctx.comp(pn)
        pre = "Sl%d" % gen
        els = ["%s.A%d p gs" % (pre, j) for j in range(8)] + ["%s.M() m m" % pre, "%s.T.{i}. t ar" % pre, "%s.T.{i}.X p g" % pre]
        p.ok("reg 0 %d %s" % (len(els), " ".join(els)))
        cs = [ctx.comp("c%d" % gen + "12"[:i]) for i in range(2)]
        T = {}
        for c in cs:
            T[c] = {q: rng.choice([150, 300, 500]) for q in ("set", "get", "smulti", "gmulti")}
            c.ok("timeouts 0 %d %d %d %d 5000" % (T[c]["set"], T[c]["get"], T[c]["smulti"], T[c]["gmulti"]))
        how = rng.choice(["sleep", "sleep", "stop", "kill", "deferred"])
        D = rng.choice([700, 1100])
        calls = {"get": ("get", "get 0 %s.A0" % pre), "set": ("set", "set 0 %s.A1 i32:%d" % (pre, 100 + gen)), "getext": ("get", "getext 0 2 %s.A2 %s.A3" % (pre, pre)),
                 "setmulti": ("smulti", "setmulti 0 0 0 2 %s.A4 i32:%d %s.A5 i32:%d" % (pre, 200 + gen, pre, 300 + gen)), "inv": ("set", "inv 0 %s.M() ~(mode=i32:0,ms=i32:%d,tag=str:g%d)" % (pre, D, gen))}
        which = rng.sample(list(calls), rng.randint(1, 3))
        if how == "deferred":
            which = ["inv"]
            calls["inv"] = ("set", "inv 0 %s.M() ~(mode=i32:2,ms=i32:%d,tag=str:g%d)" % (pre, D, gen))
        if how == "sleep":
            for j in range(8):
                for q in ("get_ms", "set_ms"):
                    p.ok("cfg %s.A%d %s %d" % (pre, j, q, D))
        elif how == "stop":
            p.p.send_signal(signal.SIGSTOP)
        futs = []
        for c in cs:
            for w, q in enumerate(which):
                futs.append((c, q, c.send(calls[q][1], w)))
            futs.append((c, "fast", c.send("get 0 Fa.G", 7)))
            futs.append((c, "none", c.send("set 0 Nobody.X i32:1", 8)))
        if how == "kill":
            time.sleep(0.02)
            p.kill()
        for c, q, f in futs:
            r = f.wait()
            ms = (r.t1 - r.t0) / MS
            ctx.count("requests")
            if q == "fast":
                ctx.check(r.rc == 0 and r.payload == ["str:Fa.G"], "disturbed", lambda: "%s: %s returned %d %s" % (c.name, r.cmd, r.rc, r.payload))
            elif q == "none":
                ctx.check(r.rc == NOTFOUND and ms < 4000, "not-found", lambda: "%s: %s returned %d after %d ms" % (c.name, r.cmd, r.rc, ms))
            elif how == "kill":
                ctx.check(ms < T[c][calls[q][0]] + 2500, "late-timeout", lambda: "%s: %s to a dead provider took %d ms, limit %d" % (c.name, r.cmd, ms, T[c][calls[q][0]]))
            else:
                lim = T[c][calls[q][0]]
                ctx.check(r.rc == TIMEOUT, "timeout-code", lambda: "%s: %s returned %d %s after %d ms, provider answers after %d at the earliest, limit %d" % (c.name, r.cmd, r.rc, r.payload, ms, D, lim))
                ctx.check(lim - 15 <= ms < lim + 1500, "timeout-time", lambda: "%s: %s ended after %d ms, limit %d" % (c.name, r.cmd, ms, lim))
            ctx.distinct(("slow", how, q, r.rc))
        if how == "stop":
            p.p.send_signal(signal.SIGCONT)
        if how == "kill":
            for c in cs:
                r = c.call("get 0 %s.A7" % pre)
                ctx.check(r.rc == NOTFOUND, "not-found", lambda: "%s: %s to a dead provider returned %d" % (c.name, r.cmd, r.rc))
        else:
            # the late answers arrive while other requests are under way; none of those may get them
            if how == "sleep":
                for j in range(8):
                    for q in ("get_ms", "set_ms"):
                        p.ok("cfg %s.A%d %s 0" % (pre, j, q))
            for c in cs:
                c.ok("timeouts 0 20000 20000 20000 20000 5000")
            for rep in range(6):
                futs = []
                for c in cs:
                    futs.append((c, c.send("get 0 %s.A6" % pre, 1), ["str:%s.A6" % pre]))
                    futs.append((c, c.send("get 0 Fa.G", 2), ["str:Fa.G"]))
                    futs.append((c, c.send("inv 0 %s.M() ~(tag=str:r%d)" % (pre, rep), 3), ["~(tag=str:r%d,__m=str:%s)" % (rep, pct(pre + ".M()"))]))
                    futs.append((c, c.send("inv 0 Fa.M() ~(tag=str:f%d)" % rep, 4), ["~(tag=str:f%d,__m=str:%s)" % (rep, pct("Fa.M()"))]))
                for c, f, exp in futs:
                    answer(ctx, c, f, f.wait(), exp, "after a timeout", 0)
                time.sleep(0.1)
            time.sleep(max(0, D / 1000.0 - 0.6))
            p.sync()
            for q in which:
                # ran at most once per request although its caller had given up
                if q == "set":
                    ctx.check(len([e for e in p.evs("set") if e[1] == pre + ".A1"]) <= len(cs), "executed-not-once", "%d executions of %d sets" % (len([e for e in p.evs("set") if e[1] == pre + ".A1"]), len(cs)))
                if q == "inv":
                    l = [e for e in p.evs("meth") if "str:g%d" % gen in e[2]]
                    ctx.check(len(l) <= len(cs), "executed-not-once", "%d executions of %d invocations" % (len(l), len(cs)))
            p.ok("close 0")
        for c in cs:
            c.ok("close 0")
            c.finish()
        p.finish()
        if ctx.failed:
            return
    fast.ok("close 0")


def pending(ctx, k, rounds):
    """A few calls stay unanswered while the same process makes many hundreds of others; every call gets its own answer."""
    rng = ctx.rng
    ctx.start_broker()
    for i in range(3):
        ctx.comp("quick%d" % i).ok("reg 0 1 Pn%d.M() m m" % i)
    sl = ctx.comp("lazy")
    sl.ok("reg 0 2 Pl.M() m m Pl.G p gs")
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)]
    for rnd in range(rounds):
        ms = rng.choice([800, 1500])
        wait = [(c, w, c.send("inv 0 Pl.M() ~(mode=i32:2,ms=i32:%d,tag=str:%s.%d.%d)" % (ms + 40 * w, c.name, rnd, w), 40 + w)) for c in cs for w in range(9)]
        n, end = 0, time.time() + ms / 1000 + 1
        while time.time() < end or n < 400:
            now = []
            for c in cs:
                for w in range(24):
                    tag = "%s.%d.%d.%d" % (c.name, rnd, n, w)
                    now.append((tag, c.send("inv 0 Pn%d.M() ~(mode=i32:0,tag=str:%s)" % (w % 3, tag), w)))
            n += 48
            for tag, f in now:
                r = f.wait()
                if not ctx.check(r.rc == 0 and ("tag=str:%s" % tag) in " ".join(r.payload), "answer", lambda: "%s returned %d %s" % (r.cmd, r.rc, r.payload)):
                    return
            if time.time() > end + 40:
                break
        ctx.count("requests", n)
        for c, w, f in wait:
            r = f.wait()
            tag = "%s.%d.%d" % (c.name, rnd, w)
            ctx.check(r.rc == 0 and ("tag=str:%s" % tag) in " ".join(r.payload), "pending-answer", lambda: "%s, pending while %d others were answered, returned %d %s" % (r.cmd, n, r.rc, r.payload))
        ctx.distinct(("pending", n // 300, ms))
        if ctx.failed:
            return


def nested(ctx, k, rounds):
    """Handlers that make calls themselves: get handlers asking the next provider in a chain, event handlers reading a value."""
    rng = ctx.rng
    ctx.start_broker()
    depth = rng.choice([2, 3, 4])
    ch = []
    for i in range(depth):
        p = ctx.comp("link" + "12345"[:i])
        els = ["Ne%d.V%d p g" % (i, j) for j in range(6)] + ["Ne%d.E e e" % i]
        p.ok("reg 0 %d %s" % (len(els), " ".join(els)))
        if i:
            for j in range(6):
                ch[-1].ok("nest Ne%d.V%d Ne%d.V%d" % (i - 1, j, i, j))
        ch.append(p)
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)]
    for i, c in enumerate(cs):
        c.ok("evget Ne%d.V%d" % (0, i))
        c.ok("sub 0 Ne%d.E %d 5" % (depth - 1, i))
    n = 0
    for rnd in range(rounds):
        futs = []
        for c in cs:
            for w in range(rng.choice([1, 3, 6])):
                i, j = rng.randint(0, depth - 1), rng.randint(0, 5)
                futs.append((c, c.send("get 0 Ne%d.V%d" % (i, j), w), ["str:Ne%d.V%d" % (depth - 1, j)], depth - i))
        for j in range(rng.randint(0, 2)):
            r = ch[-1].ok("pub 0 Ne%d.E 3 ~(n=i32:%d)" % (depth - 1, n))
            n += 1
        for c, f, exp, d in futs:
            r = f.wait()
            answer(ctx, c, f, r, exp, "nested %d" % d, 0)
            ctx.distinct(("nested", d, len(futs), r.rc))
        for i, c in enumerate(cs):
            l = c.wait_ev(lambda e: e.kind == "evget", n, 30)
            ctx.check(len(l) == n and all(e[2] == "0" and e[3] == "str:Ne%d.V%d" % (depth - 1, i) for e in l), "call-in-event-handler", lambda: "%s: %d of %d calls in event handlers, last %s" % (c.name, len(l), n, list(l[-1]) if l else None))
        if ctx.failed:
            return
    for a in cs + ch:
        a.ok("close 0")


def config(ctx, k, which, files):
    """The time limits: each setting applies to its own calls; the override files count seconds."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    p.ok("reg 0 4 Cf.A p gs Cf.B p gs Cf.M() m m Cf.T.{i}. t ar")
    c = ctx.comp("cons")
    c.ok("open 1 consb")
    for n in "AB":
        p.ok("cfg Cf.%s get_ms 400" % n)
        p.ok("cfg Cf.%s set_ms 400" % n)
    ops = {"g": "get %d Cf.A", "s": "set %d Cf.A i32:1", "G": "getext %d 1 Cf.", "S": "setmulti %d 0 0 2 Cf.A i32:1 Cf.B i32:2"}

    def expect(h, o, lim, wait=0.45):
        r = c.call(ops[o] % h)
        ms = (r.t1 - r.t0) / MS
        ctx.count("requests")
        if lim:
            ctx.check(r.rc == TIMEOUT and lim - 15 <= ms < lim + 1500, "limit", lambda: "%s with a limit of %d ms returned %d after %d ms" % (r.cmd, lim, r.rc, ms))
        else:
            ctx.check(r.rc == 0 and ms >= 390, "limit", lambda: "%s with enough time returned %d after %d ms" % (r.cmd, r.rc, ms))
        ctx.distinct(("limit", o, h, bool(lim)))
        p.call("sleep 0", 63)
        if lim:
            time.sleep(wait * {"g": 1, "s": 1, "G": 2, "S": 4}[o])
    for o in () if files else which:
        if rng.random() < 0.5:
            c.ok("timeout1 0 %s 150" % o)
        else:
            c.ok("timeouts 0 " + " ".join("150" if x == o else rng.choice(["0", "15000"]) for x in "sgSGu"))
        expect(0, o, 150)
        others = [x for x in ops if x != o]
        c.ok("timeout1 0 %s %d" % (o, rng.choice([15000, 0, 0])))       # 0 brings the default back
        expect(0, o, 0)
        expect(1, o, 0)     # the other handle has its own
        if k % 2:
            expect(0, rng.choice(others), 0)
    prog = os.path.basename(os.path.join(BUILD, "asan-agent"))
    for o, fn in (("g", "get"), ("s", "set"), ("G", "get_wildcard_query"), ("S", "setMulti")):
        if not files or o != which:
            continue
        path = "/tmp/rbus_%s_timeout_%s" % (prog, fn)
        for p2 in ("cfg Cf.A get_ms 1200", "cfg Cf.A set_ms 1200"):
            p.ok(p2)
        with open(path, "w") as f:
            f.write("1")
        expect(0, o, 1000, 0.4)
        with open(path, "w") as f:
            f.write("000000000000000000000000000000000000009999999999")
        r = c.call(ops[o] % 0)      # whatever the number means, the file is only read within bounds
        os.unlink(path)
        expect(0, o, 0)
        for p2 in ("cfg Cf.A get_ms 400", "cfg Cf.A set_ms 400"):
            p.ok(p2)
        for text in ("-5", "0", "", "x9"):      # says nothing, so what was configured applies
            with open(path, "w") as f:
                f.write(text)
            c.ok("timeout1 0 %s 150" % o)
            expect(0, o, 150)
            c.ok("timeout1 0 %s 0" % o)
        os.unlink(path)
    if not files:
        # subscribing without a limit of its own is bounded by the configured one
        lim = rng.choice([300, 700, 1400])
        c.ok("timeout1 0 usub %d" % lim)
        if which == "g":
            r = c.call("sub 0 Cf.None%d 1 -1" % k)
            ms = (r.t1 - r.t0) / MS
            ctx.check(r.rc == TIMEOUT and lim - 15 <= ms < lim + 1500, "limit", lambda: "%s with a limit of %d ms returned %d after %d ms" % (r.cmd, lim, r.rc, ms))
        else:
            m = c.mark()
            r = c.call("suba 0 Cf.None%d 1 %s" % (k, rng.choice(["0", "-1"])))
            t0 = time.monotonic()
            l = c.wait_ev(lambda e: e.kind == "subresp", 1, 20, since=m)
            ms = (time.monotonic() - t0) * 1000
            ctx.check(r.rc == 0 and len(l) == 1 and l[0][3] == str(TIMEOUT) and lim - 100 <= ms < lim + 3500, "limit", lambda: "%s with a limit of %d ms returned %d, answers %s after %d ms" % (r.cmd, lim, r.rc, [list(e) for e in l], ms))
        c.ok("timeout1 0 usub 0")
    p.ok("close 0")
    c.ok("close 1")
    c.ok("close 0")


def lost(ctx, k, rounds):
    """The broker goes away under calls, and comes back: every call still ends."""
    rng = ctx.rng
    SLACK = 20   # connecting again is tried for a few seconds by each call, one after the other on a connection
    for rnd in range(rounds):
        ctx.start_broker()
        p, c, d = ctx.comp("prov"), ctx.comp("cons"), ctx.comp("dual")
        p.ok("reg 0 4 Ls.P p gs Ls.M() m m Ls.E! e e Ls.T.{i}. t ar")
        d.ok("reg 0 2 Ld.P p gs Ld.M() m m")
        c.ok("sub 0 Ls.E! 1 5")
        limit = rng.choice([500, 2000])
        for a in (p, c, d):
            a.ok("timeouts 0 %d %d %d %d %d" % ((limit,) * 5))
        ops = ["get 0 Ls.P", "set 0 Ls.P i32:4", "inv 0 Ls.M() ~(mode=i32:2,ms=i32:100)", "inv 0 Ls.M() ~(mode=i32:0,ms=i32:50)", "getext 0 2 Ls.P Ld.P", "setmulti 0 0 1 Ls.P i32:1",
               "addrow 0 Ls.T. !", "get 0 Ld.P", "inv 0 Ld.M() ~(mode=i32:0)", "sub 0 Ls.E! 7 1", "unsub 0 Ls.E!", "pub 0 Ls.E! 3 ~(x=i32:1)", "disccomp 0 1 Ls.P", "discelem 0 prov 1", "rownames 0 Ls.T.", "reglist 0"]
        how = rng.choice(["kill", "kill", "stop"])
        busy = rng.random() < 0.7
        futs = []
        for phase in ("under way", "afterwards"):
            if phase == "afterwards" or busy:
                for a in (p, c, d):
                    for w in range(rng.choice([1, 3, 6])):
                        futs.append((a, phase, a.send(rng.choice(ops), w)))
            if phase == "under way":
                time.sleep(rng.choice([0, 0.001, 0.02, 0.06]))
                b = ctx.broker
                ctx.broker = None
                if how == "kill":
                    b.kill()
                    b.wait()
                else:
                    os.kill(b.pid, signal.SIGSTOP)
                time.sleep(rng.choice([0, 0.1, 1]))
        for a, phase, f in futs:
            r = f.wait(100)
            ms = (r.t1 - r.t0) // MS
            ctx.count("requests")
            ctx.distinct(("lost", how, phase, f.cmd.split(" ")[0] if hasattr(f, "cmd") else r.cmd.split(" ")[0], r.rc))
            # calls of one connection wait for each other while it is being restored; a subscription retries by itself
            ctx.check(ms <= limit * 3 + SLACK * 1000, "no-end", lambda: "%s: %s (%s the broker's %s) ended after %d ms with %d, limit %d ms" % (a.name, r.cmd, phase, how, ms, r.rc, limit))
        # and it comes back
        if how == "kill":
            ctx.start_broker()
        else:
            os.kill(b.pid, signal.SIGCONT)
            ctx.broker = b
        q = ctx.comp("later")
        q.ok("reg 0 2 Lr.P p gs Lr.M() m m")
        for a in (p, c, d):
            ok = False
            t = time.time()
            a.ok("timeouts 0 3000 3000 3000 3000 3000")
            while not ok and time.time() - t < 60:
                ok = a.call("get 0 Lr.P").rc == 0
                if not ok:
                    time.sleep(0.2)
            ctx.check(ok, "not-restored", lambda: "%s reaches nobody 60 s after the broker came back (%s)" % (a.name, how))
            ctx.count("reconnects")
            if ok:
                r = a.call("inv 0 Lr.M() ~(mode=i32:2,ms=i32:5,u=i32:%d)" % rnd)
                ctx.check(r.rc == 0 and "u=i32:%d" % rnd in str(r.payload), "wrong-answer", lambda: "%s: %s after the broker came back: %d %s" % (a.name, r.cmd, r.rc, r.payload))
        ctx.teardown()
