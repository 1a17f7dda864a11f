"""P14: properties of every value type (plain ones and table rows, rows that come and go, reads that fail for a while) are changed inside the provider and through the bus by several components while subscribers with and without filter, single and wildcard, come and go; every event is checked for a real difference, the chain old value = last reported value, the recorded history, who changed it, and after the changes stop the last event against the final value. A second workload publishes value changes directly and compares every delivery to filtered subscribers with an independent evaluation of the filter."""
import time
import struct
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one subscription observed on one property to its end, or one published change; distinct = (kind of value, filter?, wildcard?, number of events) or (filter shape, types, outcome) combinations"
PARALLEL = 8
S9 = 10**9


def plan(tier):
    n, s = (7, 12) if tier == "quick" else (24, 120)
    return [{"fn": "live", "args": {"k": i, "secs": s}} for i in range(n)] + \
           [{"fn": "filters", "args": {"k": i, "steps": 500 if tier == "quick" else 8000}} for i in range(n // 2)]


NUM = {"bool", "char", "byte", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}


def num(tok):
    """Numeric value of a token or None."""
    t, v = tok.split(":", 1)
    if t in NUM:
        return int(v) - (256 if t == "char" and int(v) > 127 else 0)
    if t == "f32":
        return struct.unpack("<f", struct.pack("<I", int(v, 16)))[0]
    if t == "f64":
        return struct.unpack("<d", struct.pack("<Q", int(v, 16)))[0]
    return None


def norm(tok):
    n = num(tok) if ":" in tok else None
    return ("n", n) if n is not None else ("t", tok)


def fields(o):
    """~(a=tok,b=tok) with nested parentheses -> dict."""
    s, d, depth, cur, key = o[o.index("(") + 1:-1], {}, 0, "", None
    for c in s + ",":
        if c == "," and depth == 0:
            if cur:
                k, v = cur.split("=", 1)
                d[k] = v
            cur = ""
            continue
        depth += c == "("
        depth -= c == ")"
        cur += c
    return d


class Hist:
    def __init__(self):
        self.h = []     # (t0, t1, token, who)

    def current(self, v, t0, t1):
        for i, (b, e, x, w) in enumerate(self.h):
            if x == v:
                until = self.h[i + 1][1] if i + 1 < len(self.h) else None
                if b <= t1 and (until is None or until >= t0):
                    return True
        return False

    def values(self, t0, t1):
        out = set()
        for i, (b, e, x, w) in enumerate(self.h):
            until = self.h[i + 1][1] if i + 1 < len(self.h) else None
            if b <= t1 and (until is None or until >= t0):
                out.add(x)
        return out

    def actors(self, t0, t1):
        return {w for b, e, x, w in self.h if e >= t0 and b <= t1}


class S:
    pass


def cmpv(tok, ref):
    a, b = num(tok), num(ref)
    if a is not None and b is not None:
        return (a > b) - (a < b)
    ta, tb = tok.split(":", 1)[0], ref.split(":", 1)[0]
    assert ta == tb == "str", (tok, ref)
    x, y = unpct(tok[4:]).encode("latin-1"), unpct(ref[4:]).encode("latin-1")
    return (x > y) - (x < y)


def feval(f, tok):
    """f: ('R', op, ref) | ('L', op, a, b)"""
    if f[0] == "R":
        c = cmpv(tok, f[2])
        return [c > 0, c >= 0, c < 0, c <= 0, c == 0, c != 0][f[1]]
    if f[1] == 2:
        return not feval(f[2], tok)
    a, b = feval(f[2], tok), feval(f[3], tok)
    return (a and b) if f[1] == 0 else (a or b)


def ftext(f):
    if f is None:
        return "!"
    if f[0] == "R":
        return "R%d(%s)" % (f[1], f[2])
    return "L%d(%s,%s)" % (f[1], ftext(f[2]), ftext(f[3]) if f[1] != 2 else "!")


def rfilter(rng, pick, d=2):
    if d == 0 or rng.random() < 0.55:
        return ("R", rng.randint(0, 5), pick())
    op = rng.randint(0, 2)
    return ("L", op, rfilter(rng, pick, d - 1), rfilter(rng, pick, d - 1) if op != 2 else None)


def small(rng, t):
    if t == "str":
        return "str:" + pct(rng.choice(["", "a", "ab", "b", "abc", "B", "10", "9"]))
    if t == "f64":
        return "f64:" + gen.f64hex(rng.choice([0.0, 1.5, 2.5, -1.0, 3.0, 1e9]))
    if t == "f32":
        return "f32:" + gen.f32hex(rng.choice([0.0, 1.5, 2.5, -1.0, 3.0]))
    if t == "bool":
        return "bool:%d" % rng.randint(0, 1)
    lo, hi = gen.RANGE[t]
    return "%s:%d" % (t, max(lo, min(hi, rng.choice([0, 1, 2, 3, 5, 5, 7, 100, -1, -5, hi, lo]))))


def live(ctx, k, secs):
    rng = ctx.rng
    ctx.start_broker()
    pre = "Vc%d" % k
    p = ctx.comp("prov")
    types = gen.SCALARS + ["obj", "prop"]
    rng.shuffle(types)
    props = {"%s.P%d" % (pre, i): t for i, t in enumerate(types[:7] + ["i32", "u64", "f64"])}
    T = pre + ".T."
    p.ok("reg 0 %d %s %s.T.{i}. t ar %s.T.{i}.P p gse %s.T.{i}.Q p gs %s.U.{i}. t ar %s.U.{i}.P p g %s.Fx p g" % (len(props) + 6, " ".join("%s p %s" % (n, rng.choice(["gs", "gse"])) for n in props), pre, pre, pre, pre, pre, pre))
    hist, pool, rows = {}, {}, {}

    def rnd(t):
        while True:
            if t in ("obj", "prop"):
                v = "%s:%s(v%d=i32:%d,w=str:x%d)" % (t, "o" if t == "obj" else "", 0, rng.randint(0, 50), rng.randint(0, 3))
            else:
                v = gen.value(rng, [t], 20, 0)
            n = norm(v)
            if t in ("f32", "f64") and (n[1] == 0 or n[1] != n[1]):
                continue
            if t == "dt":
                # plain, comparable points in time
                v = "dt:%d/%d/%d/%d/%d/%d/0/0/0/0/0/0" % (rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 23), rng.randint(1, 28), rng.randint(0, 11), rng.randint(80, 130))
            return v

    def change(n, t, via=None):
        h = hist.setdefault(n, Hist())
        pl = pool.setdefault(n, [])
        v = rng.choice(pl) if pl and rng.random() < 0.35 else rnd(t)
        if v not in pl:
            pl.append(v)
            if len(pl) > 5:
                pl.pop(0)
        if via:
            r = via[0].ok("set %d %s %s%s" % (via[1], n, v, rng.choice(["", "", " 1 0", " 1 7", " 1 2147483647"])))
            h.h.append((r.t0, r.t1, v, via[2]))
        else:
            r = p.ok("store %s %s" % (n, v))
            h.h.append((r.t0, r.t1, v, "prov"))

    def addrow():
        r = p.ok("addrow 0 %s !" % T)
        i = int(r.payload[0])
        rows[i] = True
        for q in "PQ":
            n = "%s%d.%s" % (T, i, q)
            hist[n] = Hist()
            hist[n].h.append((r.t0, r.t1, "str:" + n, "prov"))

    for n, t in props.items():
        change(n, t)
    for i in range(2):
        addrow()
    cs = [ctx.comp("cons" + "123"[:i]) for i in range(3)]
    cs[1].ok("open 1 consb")
    hs = [(cs[0], 0, "cons"), (cs[1], 0, "cons1"), (cs[1], 1, "consb"), (cs[2], 0, "cons12"), (p, 0, "prov")]
    subs, ud = [], 0
    # one unfiltered observer of everything from the start
    obs = {}
    names = list(props) + [T + "*.P", T + "*.Q"]

    def subscribe(hd, ev, f):
        nonlocal ud
        ud += 1
        s = S()
        s.a, s.h, s.who = hd
        s.ev, s.f, s.ud, s.u0, s.u1 = ev, f, ud, None, None
        r = s.a.call("subex %d 0 5 1 %s %s 0 0 0 %d" % (s.h, ev, ftext(f), ud))
        ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc))
        s.t0, s.t1 = r.t0, r.t1
        subs.append(s)
        ctx.count("subscriptions")
        return s
    # a property whose reading always fails from now on holds nobody up
    cs[2].ok("subex 0 0 5 1 %s.Fx ! 0 0 0 8999" % pre)
    p.ok("cfg %s.Fx get_rc 1" % pre)
    for n in names:
        obs[n] = subscribe(hs[0], n, None)
    end = time.monotonic() + secs
    # sparse and busy properties
    pace = {n: rng.choice([0.15, 0.6, 2.5, 5.0]) for n in props}
    due = {n: time.monotonic() + rng.random() * x for n, x in pace.items()}
    failing, failed = {}, set()
    U, urows, usub, uud = pre + ".U.", [], [], 9000
    while time.monotonic() < end:
        now = time.monotonic()
        left = end - now
        for n, x in pace.items():
            if now >= due[n]:
                due[n] = now + x * rng.uniform(0.5, 1.5)
                change(n, props[n], rng.choice(hs[:4]) if rng.random() < 0.4 else None)
        for i in list(rows):
            if rng.random() < 0.05:
                change("%s%d.%s" % (T, i, rng.choice("PQ")), rng.choice(["i32", "str", "u8"]), rng.choice(hs[:4]) if rng.random() < 0.4 else None)
        x = rng.random()
        if x < 0.04 and left > 2:
            # few enough that one poll never overruns the 25 messages a consumer's connection queues
            if len(rows) > 2 or len(rows) > 1 and rng.random() < 0.4:
                i = rng.choice(list(rows))
                p.ok("remrow 0 %s%d" % (T, i))
                del rows[i]
            else:
                addrow()
        elif x < 0.2 and left > 1 and len(subs) < 60:
            hd = rng.choice(hs[1:])
            if sum(4 if '*' in s.ev else 1 for s in subs if s.u0 is None and s.a is hd[0]) > 13:
                continue
            nm = rng.choice(names + ["%s%d.P" % (T, i) for i in rows])
            f = None
            t = props.get(nm)
            if t in gen.RANGE or t in ("f32", "f64", "bool", "str"):
                if rng.random() < 0.6:
                    pl = pool[nm]
                    f = rfilter(rng, lambda: rng.choice(pl) if rng.random() < 0.7 else rnd(t))
            if not any(s.a is hd[0] and s.h == hd[1] and s.ev == nm and s.f == f for s in subs):
                subscribe(hd, nm, f)
        elif x < 0.25:
            c = [s for s in subs if s.u0 is None and s.a is not cs[0]]
            if c:
                s = rng.choice(c)
                if T in s.ev and "*" not in s.ev and int(s.ev.split(".")[-2]) not in rows:
                    s.u0 = s.u1 = now * S9     # ended with its row
                else:
                    r = s.a.call("unsubex %d 0 5 1 %s %s 0 0 0 %d" % (s.h, s.ev, ftext(s.f), s.ud))
                    s.u0, s.u1 = r.t0, r.t1
                    ctx.check(r.rc == 0, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
        elif x < 0.32 and left > 1:
            # a table nobody observes for good: the last subscription goes, then the rows
            if usub and rng.random() < 0.5:
                cs[2].ok("unsubex 0 0 5 1 %s ! 0 0 0 %d" % usub.pop())
            elif not usub and urows and rng.random() < 0.6:
                uud += 1
                usub.append((rng.choice([U + "*.P", U + "*.P", U + "%d.P" % urows[-1]]), uud))
                cs[2].ok("subex 0 0 5 1 %s ! 0 0 0 %d" % usub[-1])
            elif len(urows) < 3 and rng.random() < 0.6:
                urows.append(int(p.ok("addrow 0 %s %s" % (U, rng.choice(["!", "ua%d" % (len(urows) + uud * 10)]))).payload[0]))
            elif urows and not (usub and "*" not in usub[0][0]):
                p.ok("remrow 0 %s%d" % (U, urows.pop(rng.randrange(len(urows)))))
        elif x < 0.34 and left > 3:
            n = rng.choice(list(props))
            if n not in failed:
                failed.add(n)
                p.ok("cfg %s get_rc 1" % n)
                failing[n] = now + rng.uniform(1, 3)
        for n in [n for n, t in failing.items() if now > t]:
            p.ok("cfg %s get_rc 0" % n)
            del failing[n]
        time.sleep(0.02)
    for n in failing:
        p.ok("cfg %s get_rc 0" % n)

    tstop = time.monotonic_ns()

    def lists():
        by = {}
        for a in {h[0] for h in hs}:
            a.sync()
            for e in a.evs("ev"):
                by.setdefault((a, int(e[1]), e[2]), []).append(e)
        return by

    def concrete(s):
        if "*" not in s.ev:
            return [s.ev] if s.ev in props or int(s.ev.split(".")[-2]) in rows else []
        return ["%s%d.%s" % (T, i, s.ev[-1]) for i in rows]

    def pending(by):
        """Subscriptions whose last event isn't the final value."""
        out = []
        for s in subs:
            if s.u0 is not None or s.f:
                continue
            for n in concrete(s):
                fin = hist[n].h[-1][2]
                l = by.get((s.a, s.ud, n), [])
                if l:
                    if norm(fields(l[-1][4])["value"]) != norm(fin):
                        out.append((s, n, fin, l[-1][4]))
                elif norm(fin) not in {norm(v) for v in hist[n].values(s.t0 - (12 if n in failed else 5) * S9, s.t1)} | ({norm(hist[n].h[0][2])} if "*" in s.ev else set()):
                    out.append((s, n, fin, None))
                elif "*" in s.ev and norm(fin) not in {norm(x[2]) for x in hist[n].h[:2]} and hist[n].h[0][0] > s.t1:
                    out.append((s, n, fin, None))
        return out
    lim = time.monotonic() + 25
    time.sleep(2.2)
    while time.monotonic() < lim:
        by = lists()
        if not pending(by):
            break
        time.sleep(0.3)
    bad = pending(by)
    ctx.check(not bad, "no-convergence", lambda: "%s subscription %d to %s: %s is %s, last event %s" % (bad[0][0].a.name, bad[0][0].ud, bad[0][0].ev, bad[0][1], bad[0][2], bad[0][3]))
    cnt = sum(len(v) for v in by.values())
    time.sleep(2.6)
    by = lists()
    ctx.check(sum(len(v) for v in by.values()) == cnt, "event-without-change", "%d events after everything had settled" % (sum(len(v) for v in by.values()) - cnt))
    sm = {(s.a, s.ud): s for s in subs}
    for (a, u, n), l in by.items():
        if u > 9000 and n.startswith(U):
            continue
        s = sm.get((a, u))
        if not ctx.check(s is not None and n in hist and (n == s.ev or "*" in s.ev and n.startswith(T)), "event-stranger", "%s got %s for subscription %d" % (a.name, n, u)):
            continue
        last = None
        for e in l:
            d = fields(e[4])
            what = "%s subscription %d to %s: event %s" % (a.name, u, s.ev, e[4])
            if not ctx.check(e[3] == "2" and set(d) == {"value", "oldValue", "by"} | ({"filter"} if s.f else set()) and e[5] == s.ev, "event-form", lambda: what + " type %s" % e[3]):
                continue
            ctx.check(norm(d["value"]) != norm(d["oldValue"]), "event-without-change", what)
            ctx.check(hist[n].current(d["value"], e.t - 4 * S9, e.t), "value-not-real", lambda: "%s, history %s" % (what, [x[2] for x in hist[n].h[-6:]]))
            ctx.check(any(x[2] == d["oldValue"] for x in hist[n].h if x[0] < e.t), "old-value-not-real", lambda: "%s, history %s" % (what, [x[2] for x in hist[n].h[-6:]]))
            if not s.f and last is not None:
                ctx.check(last == d["oldValue"], "chain-broken", lambda: "%s, the one before reported %s" % (what, last))
            last = d["value"]
            acts = hist[n].actors(e.t - (12 if n in failed else 6) * S9, e.t)   # reads that fail for a while delay the detection
            ctx.check(d["by"][4:] in acts, "wrong-by", lambda: "%s, changes by %s in the last 6 s" % (what, acts))
            if s.u1 is not None:
                ctx.check(e.t < s.u1 + S9 // 2, "after-unsubscribe", what)
            ctx.count("events")
    # filtered subscriptions see exactly the crossings among the reported changes
    for s in subs:
        if not s.f:
            continue
        o = obs[s.ev]
        must, may = [], []
        for e in by.get((o.a, o.ud, s.ev), []):
            d = fields(e[4])
            x, y = feval(s.f, d["oldValue"]), feval(s.f, d["value"])
            if x != y:
                it = (d["value"], d["oldValue"], "bool:%d" % y)
                if e.t < s.t0 - S9 or s.u1 and e.t > s.u1 + S9:
                    continue
                (must if e.t > s.t1 + S9 and (s.u0 is None or e.t < s.u0 - S9) else may).append((e.t, it))
        got = []
        for e in by.get((s.a, s.ud, s.ev), []):
            d = fields(e[4])
            got.append((d["value"], d["oldValue"], d["filter"]))
        allm = sorted(must + may)
        # got must be a subsequence of all crossings that contains every certain one
        i = 0
        ok = True
        for t, it in allm:
            if i < len(got) and got[i] == it:
                i += 1
            elif (t, it) in must:
                ok = False
                break
        ok = ok and i == len(got)
        ctx.check(ok, "filter-crossing", lambda: "%s filter %s on %s: events %s, crossings %s (certain %s)" % (s.a.name, ftext(s.f), s.ev, got[-4:], [x[1] for x in allm][-4:], len(must)))
        ctx.distinct(("filter", props[s.ev], s.f[0], min(len(got), 4)))
    for s in subs:
        ctx.distinct(("live", props.get(s.ev, "row"), "*" in s.ev, s.u0 is None, min(4, sum(len(l) for (a, u, n), l in by.items() if u == s.ud and a is s.a))))
    for a, h, _ in hs[::-1]:
        a.ok("close %d" % h)


def filters(ctx, k, steps):
    """The provider publishes value changes itself; subscribers with filters must get exactly the crossings."""
    rng = ctx.rng
    ctx.start_broker()
    pre = "Vf%d" % k
    p = ctx.comp("prov")
    n1, n2 = pre + ".P", pre + ".E"
    p.ok("reg 0 2 %s p gse %s e e" % (n1, n2))
    p.ok("cfg %s autopub 0" % n1)
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)]
    hs = [(c, 0) for c in cs] + [(p, 0)]
    num_t = ["i32", "u8", "i64", "u64", "f64", "i16", "u32", "f32", "bool"]
    subs, ud, expect, out = [], 0, {}, 0
    fam = None
    for step in range(steps):
        if step % 60 == 0:
            drain(ctx, cs + [p], expect)
            out = 0
            for s in subs:
                r = s[0].call("unsubex %d 0 5 1 %s %s 0 0 0 %d" % (s[1], s[2], ftext(s[3]), s[4]))
                ctx.check(r.rc == 0, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
            subs = []
            fam = "str" if rng.random() < 0.35 else "num"
            for i in range(8):
                a, h = rng.choice(hs)
                ud += 1
                f = rfilter(rng, lambda: small(rng, "str" if fam == "str" else rng.choice(num_t))) if rng.random() < 0.8 else None
                ev = rng.choice([n1, n2])
                if any(s[:4] == (a, h, ev, f) for s in subs):
                    continue
                r = a.call("subex %d 0 5 1 %s %s 0 0 0 %d" % (h, ev, ftext(f), ud))
                if r.rc == 24:
                    continue    # the same filter with operands of an equal value
                ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc))
                subs.append((a, h, ev, f, ud))
        t = lambda: "str" if fam == "str" else rng.choice(num_t)
        old, new = small(rng, t()), small(rng, t())
        ev = rng.choice([n1, n2])
        extra = rng.random() < 0.2
        r = p.call("pub 0 %s 2 ~(value=%s,oldValue=%s%s)" % (ev, new, old, ",by=str:me" if extra else ""))
        on = [s for s in subs if s[2] == ev]
        ctx.check(r.rc == (0 if on else 23), "publish-failed", "%s with %d subscribers returned %d" % (r.cmd, len(on), r.rc))
        ctx.count("events_published")
        for a, h, e, f, u in on:
            if f is None:
                expect.setdefault((a, u), []).append((new, old, None))
                out += 1
            else:
                x, y = feval(f, old), feval(f, new)
                if x != y:
                    expect.setdefault((a, u), []).append((new, old, "bool:%d" % y))
                    out += 1
                ctx.distinct(("crossing", f[0], f[1], f[2][0] if f[0] == "L" else "", new[:3], old[:3], x, y))
        if out > 14:
            drain(ctx, cs + [p], expect)
            out = 0
        if ctx.failed:
            return
    drain(ctx, cs + [p], expect)
    for a, h in hs[::-1]:
        a.ok("close %d" % h)


def drain(ctx, ags, expect):
    for a in ags:
        want = {u: v for (b, u), v in expect.items() if b is a}
        a.wait_ev(lambda e: e.kind == "ev", sum(len(v) for v in want.values()), 30)
        got = {}
        for e in a.evs("ev"):
            d = fields(e[4])
            got.setdefault(int(e[1]), []).append((d["value"], d["oldValue"], d.get("filter")))
        for u in set(want) | set(got):
            if not ctx.check(got.get(u, []) == want.get(u, []), "filtered-delivery", lambda: "%s subscription %d got ..%s, must get ..%s" % (a.name, u, got.get(u, [])[-3:], want.get(u, [])[-3:])):
                return
