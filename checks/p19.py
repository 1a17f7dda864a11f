"""P19: many threads of several processes invoke methods at the same time, synchronously and asynchronously, with random arguments that carry a tag of their own: methods that answer at once, slowly, later from another thread, with errors, without results, on table rows (by number and by alias), not registered, not methods, too slow, of a provider that is killed or that unregisters them. Every answer and callback must be the one for its tag, every handler's log must show each tag once with the arguments sent, and every asynchronous invocation must call back exactly once."""
import time
from lib.vlib import pct, unpct
from lib import gen
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one invocation; distinct = (way, behaviour, arguments size class, concurrency, outcome) combinations"
MS = 10**6
TIMEOUT, NOTFOUND, NOELEM, INVALIDOP = 20, 5, 17, 9


def plan(tier):
    n = 5 if tier == "quick" else 24
    return [{"fn": "mix", "args": {"k": i, "rounds": 45 if tier == "quick" else 500}} for i in range(n)] + \
           [{"fn": "fail", "args": {"k": i, "rounds": 5 if tier == "quick" else 50}} for i in range(n)]


def props(tok):
    """Splits the token of an object into its name and top level properties."""
    i = tok.index("(")
    name, body, out, d, cur = tok[:i], tok[i + 1:-1], [], 0, ""
    for ch in body:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += (ch == "(") - (ch == ")")
        cur += ch
    if cur:
        out.append(cur)
    return name, out


class Call:
    pass


def make(ctx, rng, n, meths, absent):
    c = Call()
    c.tag = "g%d" % n
    c.mode = rng.choice([0, 0, 0, 1, 2, 2, 3, 3, 4])
    c.rc = 0 if rng.random() < 0.6 else rng.choice([1, 2, 5, 9, 16, 17, 18, 22])
    c.ms = rng.choice([0, 0, 0, 1, 5, 30]) if c.mode in (2, 4) else rng.choice([0] * 12 + [1, 8])
    c.meth = rng.choice(absent if rng.random() < 0.08 else meths)
    nb = rng.choice([0, 1, 3])
    if rng.random() < 0.04:
        nb = 40
    extra = ["p%d=%s" % (i, gen.value(rng, big=gen.size(rng, [10, 40, 3000], 0.02), depth=2)) for i in range(nb)]
    c.args = ["tag=str:" + c.tag] + extra + ["mode=i32:%d" % c.mode, "ms=i32:%d" % c.ms, "rc=i32:%d" % c.rc]
    c.none = False
    rng.shuffle(c.args)
    c.obj = rng.choice(["~", "in"]) + "(" + ",".join(c.args) + ")"
    c.there = c.meth not in absent
    return c


def expect(ctx, c, rc, obj, who):
    """The result of call c as it must be."""
    if not obj or obj == "none":
        ps = None
    else:
        ps = props(obj)[1]
    txt = lambda: "%s: %s %s answered rc %d %s" % (who, c.meth, c.obj[:400], rc, str(obj)[:500])
    echo = c.args + ["__m=str:" + pct(c.meth)]
    err = lambda q: len([p for p in q if p.startswith("error_code=i32:%d" % rc)]) == 1 and len([p for p in q if p.startswith("error_string=str:") and len(p) > 17]) == 1
    if not c.there:
        ctx.check(rc != 0 and rc not in (TIMEOUT,) and ps is not None and err(ps), "absent-method", txt)
    elif c.mode in (0, 3):
        if c.rc == 0:
            ctx.check(rc == 0 and ps == echo, "wrong-result", txt)
        else:
            ctx.check(rc == c.rc and ps is not None and ps[:len(echo)] == echo and err(ps[len(echo):]), "wrong-error", txt)
    elif c.mode == 1:
        ctx.check(rc == c.rc and (not ps if c.rc == 0 else ps is not None and err(ps) and len(ps) == 2), "wrong-result", txt)
    elif c.mode == 2:
        ctx.check(rc == c.rc and ps == echo, "wrong-result", txt)
    else:
        ctx.check(rc == c.rc and (not ps if c.rc == 0 else ps is not None and err(ps) and len(ps) == 2), "wrong-result", txt)
    ctx.distinct((c.kind, c.mode, c.rc, min(3, len(c.obj) // 300), c.ms > 0, c.there, "T" in c.meth, rc))


def handled(ctx, provs, calls):
    """Each call that had to reach its handler did so once, under its own name and with its arguments."""
    seen = {}
    for p in provs:
        p.sync()
        for e in p.evs("meth"):
            ps = props(e[2])[1]
            t = [x[8:] for x in ps if x.startswith("tag=str:")]
            seen.setdefault(t[0] if t else "?", []).append((unpct(e[1]), ps))
    for c in calls:
        l = seen.pop(c.tag, [])
        if c.there:
            ctx.check(len(l) == 1, "executed-not-once", lambda: "%s with %s: the handler ran %d times" % (c.meth, c.tag, len(l)))
            if l:
                ctx.check(l[0] == (c.meth, c.args), "wrong-arguments", lambda: "%s was called as %s with %s, sent %s" % (c.meth, l[0][0], str(l[0][1])[:300], str(c.args)[:300]))
        else:
            ctx.check(not l, "absent-method", lambda: "%s ran %d times" % (c.meth, len(l)))
    ctx.check(not seen, "executed-not-once", lambda: "handlers ran for %s" % list(seen)[:5])
    ctx.count("executions", len(calls))


def setup(ctx, rng, pre="Mt"):
    provs, meths, absent = [], [], []
    for i in range(2):
        p = ctx.comp("prov" + "12"[:i])
        b = "%s%d" % (pre, i)
        els = ["%s.M%d() m m" % (b, j) for j in range(5)] + ["%s.T.{i}. t are" % b, "%s.T.{i}.F() m m" % b, "%s.T.{i}.U.{i}. t are" % b, "%s.T.{i}.U.{i}.G() m m" % b, "%s.P p gs" % b, "%s.E! e e" % b, "%s.Obj.Deep.er.M() m m" % b, "%s.H() m -" % b]
        p.ok("reg 0 %d %s" % (len(els), " ".join(els)))
        meths += ["%s.M%d()" % (b, j) for j in range(5)] + ["%s.Obj.Deep.er.M()" % b]
        for al in ("!", "first", "second"):
            n = p.ok("addrow 0 %s.T. %s" % (b, al)).payload[0]
            forms = [n] + (["[%s]" % al] if al != "!" else [])
            meths += ["%s.T.%s.F()" % (b, f) for f in forms]
            m = p.ok("addrow 0 %s.T.%s.U. inner" % (b, n)).payload[0]
            meths += ["%s.T.%s.U.%s.G()" % (b, f, g) for f in forms for g in (m, "[inner]")]
        absent += ["%s.T.77.F()" % b, "%s.T.[third].F()" % b, "%s.P" % b, "%s.E!" % b, "%s.H()" % b, "%s.M9()" % b, "No%d.M()" % i, "%s.M0" % b, "%s.T.%s.U.99.G()" % (b, n)]
        provs.append(p)
    return provs, meths, absent


def mix(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    provs, meths, absent = setup(ctx, rng)
    cs = [ctx.comp("cons" + "123"[:i]) for i in range(3)]
    lanes = [(c, w) for c in cs for w in range(5)] + [(p, 0) for p in provs]
    n, calls, asy = 0, [], {}
    for rnd in range(rounds):
        futs = []
        for a, w in rng.sample(lanes, rng.choice([1, 3, 8, len(lanes)])):
            n += 1
            c = make(ctx, rng, n, meths, absent)
            calls.append(c)
            if rng.random() < 0.6:
                c.kind = "sync"
                futs.append((a, c, a.send("inv 0 %s %s" % (c.meth, c.obj), w)))
            else:
                c.kind = "async"
                futs.append((a, c, a.send("inva 0 %s %s 20" % (c.meth, c.obj), w)))
        pend = {}
        for a, c, f in futs:
            r = f.wait()
            ctx.count("invocations")
            if c.kind == "sync":
                expect(ctx, c, r.rc, r.payload[0] if r.payload else None, a.name)
            else:
                ctx.check(r.rc == 0, "async-start", lambda: "%s returned %d" % (r.cmd[:300], r.rc))
                pend.setdefault(a, []).append(c)
        # callbacks carry no tag of the caller: those with results are matched by it, the others by method and outcome
        for a, l in pend.items():
            done = asy.setdefault(a, 0) + len(l)
            ev = a.wait_ev(lambda e: e.kind == "invcb", done, 40)
            if not ctx.check(len(ev) == done, "callback-not-once", lambda: "%s: %d of %d asynchronous invocations called back" % (a.name, len(ev), done)):
                return
            new = ev[asy[a]:]
            asy[a] = done
            left = list(new)
            for c in sorted(l, key=lambda c: 0 if c.there and (c.mode in (0, 2, 3)) else 1):
                if c.there and c.mode in (0, 2, 3):
                    m = [e for e in left if "tag=str:%s," % c.tag in e[3] or "tag=str:%s)" % c.tag in e[3]]
                elif c.there:
                    m = [e for e in left if unpct(e[1]) == c.meth and int(e[2]) == c.rc and "tag=" not in e[3]]
                else:
                    m = [e for e in left if unpct(e[1]) == c.meth and int(e[2]) != 0]
                if ctx.check(len(m) >= 1, "callback-not-once", lambda: "%s: no callback for %s %s among %s" % (a.name, c.meth, c.obj[:300], [list(e) for e in left][:6])):
                    left.remove(m[0])
                    ctx.check(unpct(m[0][1]) == c.meth, "callback-name", lambda: "callback for %s says %s" % (c.meth, m[0][1]))
                    expect(ctx, c, int(m[0][2]), m[0][3], a.name)
        if ctx.failed:
            return
    handled(ctx, provs, calls)
    for a in cs:
        a.sync()
        ctx.check(len(a.evs("invcb")) == asy.get(a, 0), "callback-not-once", lambda: "%s got %d callbacks for %d asynchronous invocations" % (a.name, len(a.evs("invcb")), asy.get(a, 0)))
    for a in cs + provs:
        a.ok("close 0")


def fail(ctx, k, rounds):
    """Too slow, killed, and vanishing providers; late answers."""
    rng = ctx.rng
    ctx.start_broker()
    good = ctx.comp("good")
    good.ok("reg 0 1 Gd.M() m m")
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)]
    for c in cs:
        c.ok("timeouts 0 400 400 400 400 5000")      # the invocations' limit is the set timeout
    n, asy = 0, {c: 0 for c in cs}
    for rnd in range(rounds):
        p = ctx.comp("bad%d" % rnd)
        b = "Bd%d" % rnd
        p.ok("reg 0 3 %s.M() m m %s.D() m m %s.Q() m m" % (b, b, b))
        how = rng.choice(["slow", "late", "kill", "unreg", "close"])
        meth, mode, ms = (b + ".M()", 0, 1000) if how == "slow" else (b + ".D()", 2, 1000) if how == "late" else (b + ".M()", 0, 150)
        futs, tags = [], []
        for c in cs:
            for w in range(2):
                n += 1
                tags.append("g%d" % n)
                lim = 400
                futs.append((c, "sync", lim, c.send("inv 0 %s ~(tag=str:g%d,mode=i32:%d,ms=i32:%d)" % (meth, n, mode, ms), w)))
            n += 1
            tags.append("g%d" % n)
            asy[c] += 1
            t0 = time.time()
            futs.append((c, "async", 1, c.send("inva 0 %s ~(tag=str:g%d,mode=i32:%d,ms=i32:%d) 1" % (meth, n, mode, ms), 4)))
            for w in range(3):
                futs.append((c, "good", 0, c.send("inv 0 Gd.M() ~(tag=str:x%d)" % w, 5 + w)))
        time.sleep(rng.choice([0, 0.002, 0.02]))
        if how == "kill":
            p.kill()
        elif how == "unreg":
            p.ok("unreg 0 1 %s.M() m m" % b, 9)
        elif how == "close":
            p.send("close 0", 9)
        for c, kind, lim, f in futs:
            r = f.wait()
            ms_ = (r.t1 - r.t0) / MS
            ctx.count("invocations")
            if kind == "good":
                ctx.check(r.rc == 0 and r.payload and "tag=str:" in r.payload[0], "disturbed", lambda: "%s returned %d %s" % (r.cmd, r.rc, r.payload))
            elif kind == "async":
                ctx.check(r.rc == 0 and ms_ < 3000, "async-start", lambda: "%s returned %d after %d ms" % (r.cmd, r.rc, ms_))
            else:
                ctx.check(ms_ < lim + 2500, "late-timeout", lambda: "%s took %d ms, limit %d" % (r.cmd, ms_, lim))
                if how in ("slow", "late"):
                    ctx.check(r.rc == TIMEOUT, "timeout-code", lambda: "%s returned %d %s" % (r.cmd, r.rc, r.payload))
                ps = props(r.payload[0])[1] if r.payload and r.payload[0] not in ("none",) else []
                if r.rc:
                    ctx.check(any(x == "error_code=i32:%d" % r.rc for x in ps) and any(x.startswith("error_string=str:") and len(x) > 17 for x in ps), "error-text", lambda: "%s returned %d with %s" % (r.cmd, r.rc, r.payload))
                else:
                    ctx.check(any(x.startswith("tag=str:") and x[8:] in r.cmd for x in ps), "wrong-result", lambda: "%s returned %s" % (r.cmd, r.payload))
            ctx.distinct((kind, how, r.rc, mode))
        for c in cs:
            ev = c.wait_ev(lambda e: e.kind == "invcb", asy[c], 30)
            ctx.check(len(ev) == asy[c], "callback-not-once", lambda: "%s: %d of %d asynchronous invocations called back (%s)" % (c.name, len(ev), asy[c], how))
        # the late answers reach nobody
        for rep in range(8):
            fs = [(c, w, c.send("inv 0 Gd.M() ~(tag=str:l%d)" % w, w)) for c in cs for w in range(3)]
            for c, w, f in fs:
                r = f.wait()
                ctx.check(r.rc == 0 and r.payload and props(r.payload[0])[1] == ["tag=str:l%d" % w, "__m=str:" + pct("Gd.M()")], "wrong-result", lambda: "%s returned %d %s after calls that timed out" % (r.cmd, r.rc, r.payload))
            time.sleep(0.15 if how in ("slow", "late") else 0.01)
        if how != "kill":
            if how in ("slow",):
                time.sleep(3.5)
            p.sync()
            l = [x for e in p.evs("meth") for x in tags if "tag=str:%s," % x in e[2]]
            ctx.check(len(l) == len(set(l)), "executed-not-once", lambda: "handlers ran for %s" % l)
            if how in ("late",):
                ctx.check(set(l) == set(tags), "executed-not-once", lambda: "handlers ran for %s of %s" % (l, tags))
        for c in cs:
            c.sync()
            ctx.check(len(c.evs("invcb")) == asy[c], "callback-not-once", lambda: "%s: %d callbacks for %d asynchronous invocations (%s)" % (c.name, len(c.evs("invcb")), asy[c], how))
        if ctx.failed:
            return
        p.kill()
    for a in cs + [good]:
        a.ok("close 0")
