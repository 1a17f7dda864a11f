"""P24: several threads of several components set, change, clear and keep trace contexts (of 0 to 600 characters) and get, set, multi-set, invoke (synchronously, asynchronously, with deferred answers) through the broker and through direct connections at the same time. The context each provider's handler sees during each call must be the one its caller's thread had, or none, whatever was served before; what a thread set is what it reads back; nested calls of a handler carry the request's context, calls made in event callbacks carry none."""
import time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one call with its context; distinct = (call, context length class, previous context of the lane, path, threads at the same time) combinations"
MAX = 510


def plan(tier):
    n = 5 if tier == "quick" else 24
    r = 60 if tier == "quick" else 900
    return [{"fn": "mix", "args": {"k": i, "rounds": r}} for i in range(n)] + \
           [{"fn": "nested", "args": {"k": i, "rounds": r // 3}} for i in range(2 if tier == "quick" else 8)] + \
           [{"fn": "direct", "args": {"k": i, "rounds": r // 2}} for i in range(1 if tier == "quick" else 6)]


def text(rng):
    n = rng.choice([0, 1, 2, 55, 55, 55, 200, 509, 510, 511, 512, 513, 600, 1023])
    if rng.random() < 0.5:
        return ("00-%032x-%016x-01" % (rng.getrandbits(128), rng.getrandbits(64)) + "v" * 1024)[:n]
    return "".join(rng.choice("abcXYZ019=,;- /\\\"'%\n\t\xe9{}") for _ in range(n))


class Lane:
    """One thread of one component with a property, a method and a context of its own."""
    def __init__(self, a, w, i, prov, base):
        self.a, self.w, self.i, self.prov, self.base = a, w, i, prov, base
        self.ctx, self.want, self.n, self.prev, self.pending = ("", ""), {}, 0, "new", False

    def expect(self, kind, name, n=1):
        self.want.setdefault((kind, name), []).extend([self.ctx] * n)


def kept(s):
    return s if len(s.encode("latin-1")) <= MAX else ""


def enc(s):
    return "!" if s is None else pct(s)


def setctx(ctx, rng, l):
    x = rng.random()
    if x < 0.3:
        l.prev = "keep"
        return
    if x < 0.45:
        l.a.ok("trace 0 clear", l.w)
        l.ctx, l.prev = ("", ""), "clear"
    else:
        p = text(rng) if rng.random() < 0.9 else None
        s = text(rng) if rng.random() < 0.6 else rng.choice([None, ""])
        l.a.ok("trace 0 set %s %s" % (enc(p), enc(s)), l.w)
        l.ctx, l.prev = (kept(p or ""), kept(s or "")), "set"
    if rng.random() < 0.4:
        read(ctx, rng, l)


def read(ctx, rng, l):
    la, lb = rng.choice([(1024, 1024), (512, 512), (511, 600), (1, 1), (10, 1024), (0, 5), (5, 0), (0, 0)])
    r = l.a.call("trace 0 get %d %d" % (la, lb), l.w)
    if r.rc or not r.payload or 0 in (la, lb):
        ctx.check(0 in (la, lb), "read-back", lambda: "%s returned %d" % (r.cmd, r.rc))
        return
    got = (unpct(r.payload[0]), unpct(r.payload[1]))
    ctx.check(got == (l.ctx[0][:la - 1], l.ctx[1][:lb - 1]), "read-back", lambda: "thread %d of %s set %r, %s says %r" % (l.w, l.a.name, l.ctx, r.cmd, got))
    ctx.count("read_backs")


def landed(ctx, l):
    """The lane's asynchronous invocations have called back (its context may have changed since they were made)."""
    if l.pending:
        n = l.a.asked
        ctx.check(len(l.a.wait_ev(lambda e: e.kind == "invcb", n, 30)) >= n, "no-callback", lambda: "%s: asynchronous invocations without callback" % l.a.name)
        l.pending = False


def issue(ctx, rng, l, conc, path="broker"):
    """One call of the lane; what handlers must see is noted."""
    l.n += 1
    landed(ctx, l)
    b = l.base
    kind = rng.choice(["get", "get", "set", "set", "inv", "inv", "inva", "defer", "getext", "setmulti", "fail"])
    if path == "direct":
        kind = rng.choice(["get", "get", "set"])
    if kind == "get":
        l.expect("get", b + ".P")
        f = l.a.send("get 0 %s.P" % b, l.w)
    elif kind == "getext":
        l.expect("get", b + ".P")
        l.expect("get", b + ".Q")
        f = l.a.send("getext 0 2 %s.P %s.Q" % (b, b), l.w)
    elif kind == "set":
        l.expect("set", b + ".P")
        f = l.a.send("set 0 %s.P %s" % (b, "i32:%d" % l.n if rng.random() < 0.9 else "str:" + gen.rstr(rng, gen.size(rng, [40, 4000], 0.4)).encode("latin-1").hex()), l.w)
    elif kind == "setmulti":
        for q in ("P", "Q"):
            l.expect("set", b + "." + q)
        f = l.a.send("setmulti 0 0 0 2 %s.P i32:%d %s.Q i32:%d" % (b, l.n, b, l.n), l.w)
    elif kind == "fail":
        f = l.a.send("get 0 %s.No" % b, l.w)
    else:
        l.expect("meth", b + ".M()")
        mode = 2 if kind == "defer" else rng.choice([0, 1, 3])
        cmd = "inva 0 %s.M() ~(mode=i32:%d,ms=i32:%d,rc=i32:0) 20" if kind == "inva" else "inv 0 %s.M() ~(mode=i32:%d,ms=i32:%d,rc=i32:0)"
        f = l.a.send(cmd % (b, mode, rng.choice([0, 0, 2])), l.w)
    if kind == "inva":
        l.a.asked = getattr(l.a, "asked", 0) + 1
        l.pending = True
    c = l.ctx
    ctx.distinct((kind, min(len(c[0]), 512) // 128, bool(c[1]), l.prev, path, min(conc, 6)))
    return kind, f


def finish(ctx, kind, f):
    r = f.wait()
    ctx.count("traced_calls")
    ctx.check((r.rc == 0) == (kind != "fail"), "call-failed", lambda: "%s returned %d" % (r.cmd, r.rc))


def seen(ctx, lanes, provs):
    """Every handler call's context, in order, per element."""
    got = {}
    for l in lanes:
        landed(ctx, l)
    for p in provs:
        p.sync()
        for e in p.evs():
            if e.kind in ("get", "set", "meth"):
                got.setdefault((e.kind, unpct(e[1])), []).append((unpct(e[-2]), unpct(e[-1])))
    for l in lanes:
        for (kind, name), want in l.want.items():
            g = got.get((kind, name), [])
            if kind == "get" and len(g) != len(want):
                # multi-sets read their parameters first, in the same context: drop repetitions
                g2, i = [], 0
                for w in want:
                    while i < len(g) and g[i] != w:
                        i += 1
                    if i < len(g):
                        g2.append(g[i])
                        i += 1
                allowed = set(want) | l.used
                bad = [x for x in g if x not in allowed]
                ctx.check(not bad and len(g2) == len(want), "wrong-context", lambda: "%s of %s saw %r, the caller's thread had %r" % (kind, name, (bad or g)[:3], want[:3]))
            else:
                k = next((i for i, (x, y) in enumerate(zip(g, want)) if x != y), None)
                ctx.check(g == want, "wrong-context", lambda: "%s of %s: call %s of %d saw %r, the caller's thread had %r" % (kind, name, k, len(want), g[k] if k is not None else len(g), want[k] if k is not None else len(want)))
            ctx.count("contexts_seen", len(g))


def provider(ctx, name, n, first):
    p = ctx.comp(name)
    els = []
    for i in range(first, first + n):
        els += ["Tr%d.P p gs" % i, "Tr%d.Q p gs" % i, "Tr%d.M() m m" % i]
    p.ok("reg 0 %d %s" % (len(els), " ".join(els)))
    p.ok("logtrace 1")
    return p


def mix(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    provs = [provider(ctx, "tp%d" % i, 8, i * 8) for i in range(2)]
    cs = [ctx.comp("tc%d" % i) for i in range(2)]
    owners = [(c, w) for c in cs for w in range(6)] + [(p, 1 + w) for p in provs for w in range(2)]
    rng.shuffle(owners)
    lanes = [Lane(a, w, i, provs[i // 8], "Tr%d" % i) for i, (a, w) in enumerate(owners)]
    for l in lanes:
        l.used = {("", "")}
    for rnd in range(rounds):
        act = rng.sample(lanes, rng.choice([1, 4, len(lanes)]))
        for l in act:
            setctx(ctx, rng, l)
            l.used.add(l.ctx)
        futs = [issue(ctx, rng, l, len(act)) for l in act for _ in range(1)]
        for kind, f in futs:
            finish(ctx, kind, f)
        if rnd % 10 == 9:
            seen(ctx, lanes, provs)
        if ctx.failed:
            return
    for l in lanes:
        read(ctx, rng, l)
    for a in cs + provs:
        a.ok("close 0")


def nested(ctx, k, rounds):
    """Handlers that call further providers, and event callbacks that call while requests with contexts are served around them."""
    rng = ctx.rng
    ctx.start_broker()
    b = provider(ctx, "tb", 2, 0)
    m = ctx.comp("tm")
    m.ok("reg 0 4 Tm.P p gs Tm.M() m m Tm.Q p gs Tm.E! e e")
    m.ok("logtrace 1")
    m.ok("nest Tm.P Tr0.P")
    e = ctx.comp("te")
    e.ok("reg 0 1 Te.E! e e")
    m.ok("sub 0 Te.E! 1 2000")
    m.ok("evget Tr1.P")
    cs = [ctx.comp("tc%d" % i) for i in range(2)]
    n = 0
    for rnd in range(rounds):
        want = []
        mb, mm = b.mark(), m.mark()
        futs = []
        for c in cs:
            x = (kept(text(rng)), kept(text(rng)))
            c.ok("trace 0 set %s %s" % (pct(x[0]), pct(x[1])))
            want.append(x)
            futs.append(c.send("get 0 Tm.P"))
        for f in futs:
            r = f.wait()
            ctx.check(r.rc == 0, "call-failed", lambda: "%s returned %d" % (r.cmd, r.rc))
            ctx.count("traced_calls")
        b.sync()
        m.sync()
        g1 = sorted((unpct(x[-2]), unpct(x[-1])) for x in m.evs("get", mm) if x[1] == "Tm.P")
        g2 = sorted((unpct(x[-2]), unpct(x[-1])) for x in b.evs("get", mb) if x[1] == "Tr0.P")
        ctx.check(g1 == sorted(want), "wrong-context", lambda: "the handler saw %r, callers had %r" % (g1, want))
        ctx.check(g2 == sorted(want), "nested-context", lambda: "the nested call's handler saw %r, the requests carried %r" % (g2, want))
        # requests of all sorts with contexts, then an event whose callback makes a call of its own
        mb = b.mark()
        n += 1
        for c in cs:
            mode = rng.choice([0, 1, 2, 2, 3, 4])
            x = text(rng)[:100] or "x"
            c.ok("trace 0 set %s ~" % pct(x))
            r = c.call(rng.choice(["inv 0 Tm.M() ~(mode=i32:%d,ms=i32:0,rc=i32:%d)" % (mode, rng.choice([0, 9])), "get 0 Tm.Q", "set 0 Tm.Q i32:1", "get 0 Tm.Zz"]))
            ctx.count("traced_calls")
            e.ok("trace 0 set %s %s" % (pct("of-the-publisher"), pct("s")))
            e.ok("pub 0 Te.E! 3 ~(n=i32:%d)" % n)
            l = b.wait_ev(lambda v: v.kind == "get" and v[1] == "Tr1.P", 1, 20, since=mb)
            if not ctx.check(len(l) == 1, "no-nested-call", lambda: "the event callback's get reached its handler %d times" % len(l)):
                return
            ctx.check((unpct(l[0][-2]), unpct(l[0][-1])) == ("", ""), "leaked-context", lambda: "a call made in an event callback carried %r, served before it: %s" % ((unpct(l[0][-2]), unpct(l[0][-1])), r.cmd))
            ctx.distinct(("event", mode, r.cmd.split(" ")[0], r.rc))
            mb = b.mark()
            m.sync()
        if ctx.failed:
            return


def direct(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    p = provider(ctx, "tp", 4, 0)
    cs = [ctx.comp("tc%d" % i) for i in range(2)]
    lanes = []
    for i, c in enumerate(cs):
        c.ok("opendirect 0 %d Tr%d.P" % (i + 1, i))
        lanes += [Lane(c, 0, i, p, "Tr%d" % i), Lane(c, 1, i + 2, p, "Tr%d" % (i + 2))]
    time.sleep(2.5)
    for l in lanes:
        l.used = {("", "")}
    for rnd in range(rounds):
        act = rng.sample(lanes, rng.choice([1, 2, 4]))
        for l in act:
            setctx(ctx, rng, l)
            l.used.add(l.ctx)
        futs = [issue(ctx, rng, l, len(act), "direct" if l.i < 2 else "broker") for l in act]
        for kind, f in futs:
            finish(ctx, kind, f)
        if rnd % 10 == 9:
            seen(ctx, lanes, [p])
        if ctx.failed:
            return
    for i, c in enumerate(cs):
        c.ok("closedirect %d" % (i + 1))
