"""P13: random life cycles of subscriptions (events, properties, table rows, wildcards; with filters, intervals, durations, raw, asynchronous and multi-event calls; duplicates, unknown ones, provider rejections, several handles and processes) against a reference set; after every call the return code, the provider's subscription handler log and the existence query are compared with it, and published events must reach exactly the subscriptions of the set."""
import time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (call, kind of subscription, filter?, interval?, duration?, outcome, kind of event) combinations"
EXIST, GENERAL = 24, 3


def plan(tier):
    n = 8 if tier == "quick" else 32
    return [{"fn": "life", "args": {"k": i, "steps": 900 if tier == "quick" else 5000}} for i in range(n)] + \
           [{"fn": "rows", "args": {"k": i, "steps": 150 if tier == "quick" else 800}} for i in range(n // 2)] + \
           [{"fn": "asyn", "args": {"k": i, "steps": 8 if tier == "quick" else 40}} for i in range(n // 4)]


def filt(rng, d=2):
    k = rng.random()
    if k < 0.6 or d == 0:
        return "R%d(%s)" % (rng.randint(0, 5), rng.choice(["i32:5", "i32:7", "str:abc", "u64:9", "f64:" + gen.f64hex(1.5), "bool:1"]))
    if k < 0.85:
        return "L%d(%s,%s)" % (rng.randint(0, 1), filt(rng, d - 1), filt(rng, d - 1))
    return "L2(%s,!)" % filt(rng, d - 1)


class S:
    """One subscription."""
    def __init__(self, a, h, ev, f, i, d, kind, ud):
        self.a, self.h, self.ev, self.f, self.i, self.d, self.kind, self.ud = a, h, ev, f, i, d, kind, ud

    def same(self, o):
        return (self.a, self.h, self.ev, self.f, self.i, self.d, self.kind == 1) == (o.a, o.h, o.ev, o.f, o.i, o.d, o.kind == 1)

    def spec(self):
        return "%s %s %d %d 0 %d" % (self.ev, self.f, self.i, self.d, self.ud)

    def __repr__(self):
        return "%s/%d %s filter=%s interval=%d duration=%d kind=%d" % (self.a.name, self.h, self.ev, self.f, self.i, self.d, self.kind)


def life(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    provs, evs, props = [], {}, []
    for i in range(rng.choice([1, 2])):
        p = ctx.comp("prov" + "123456"[:i])
        cmd = ["Lc%d.E%d e e" % (i, j) for j in range(3)] + ["Lc%d.P%d p gse" % (i, j) for j in range(2)] + ["Lc%d.T.{i}. t ar" % i, "Lc%d.T.{i}.E e e" % i, "Lc%d.T.{i}.P p gse" % i, "Lc%d.N e -" % i]
        p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))
        for j in range(3):
            evs["Lc%d.E%d" % (i, j)] = p
        for j in range(2):
            evs["Lc%d.P%d" % (i, j)] = p
            p.ok("store Lc%d.P%d i32:%d" % (i, j, j))
            props.append("Lc%d.P%d" % (i, j))
        for r in range(2):
            n = p.ok("addrow 0 Lc%d.T. !" % i).payload[0]
            evs["Lc%d.T.%s.E" % (i, n)] = p
            evs["Lc%d.T.%s.P" % (i, n)] = p
            props.append("Lc%d.T.%s.P" % (i, n))
        evs["Lc%d.T.*.E" % i] = p
        evs["Lc%d.N" % i] = p
        provs.append(p)
    hs = []
    for i in range(2):
        c = ctx.comp("cons" + "123456"[:i])
        hs.append((c, 0))
        if i == 0:
            c.ok("open 1 cons0b")
            hs.append((c, 1))
    hs.append((provs[0], 0))
    names = list(evs)
    subs, uds, rej = [], [1], {}
    pend = [0]
    expect = {}

    def new(a=None, h=None):
        if a is None:
            a, h = rng.choice(hs)
        if subs and rng.random() < 0.3:
            o = rng.choice(subs)
            s = S(o.a, o.h, o.ev, o.f, o.i, o.d, o.kind, 0)
            # exactly the same one, or one that differs in one thing
            w = rng.randint(0, 7)
            if w == 0:
                s.f = filt(rng)
            elif w == 1 and s.ev in props:
                s.i = s.i + 1000
            elif w == 2:
                s.kind = rng.choice([0, 1])
            elif w == 3 and (s.i or s.kind != 1):
                s.d = s.d + 3000
        else:
            n = rng.choice(names)
            s = S(a, h, n, "!" if rng.random() < 0.5 else filt(rng), 0, 0, rng.choice([0, 0, 0, 1, 2]), 0)
            if n in props and rng.random() < 0.4:
                s.i = rng.choice([1000, 2000])
                if rng.random() < 0.5:
                    s.d = rng.choice([5000, 9000])
        if s.kind == 1 and (s.ev in props or "*" in s.ev):
            s.kind = 0      # raw data is for single events only
        if s.kind == 1:
            s.f, s.i, s.d = "!", 0, 0
        uds[0] += 1
        s.ud = uds[0]
        return s

    def find(s):
        return next((x for x in subs if x.same(s)), None)

    def marks():
        return {p: p.mark() for p in provs}

    def handler_log(m, want, what):
        """want: list of (provider, action, S) that the providers' subscription handlers must have seen, in order per provider."""
        for p in provs:
            p.sync()
            got = [(int(e[1]), unpct(e[2]), e[3], int(e[4])) for e in p.evs("subh", m[p])]
            w = [(act, s.ev, s.f, s.i) for q, act, s in want if q is p and not s.ev.endswith(".N")]
            ctx.check(got == w, "handler-log", lambda: "%s: provider %s saw %s, must see %s" % (what, p.name, got, w))

    def drain():
        for a in {x[0] for x in hs}:
            want = expect.get(a, {})
            tot = sum(len(v) for v in want.values())
            a.wait_ev(lambda e: e.kind in ("ev", "raw"), tot, 30)
            got = {}
            for e in a.evs():
                if e.kind == "ev":
                    if e[3] in ("3", "2"):
                        got.setdefault(int(e[1]), []).append(e[4])
                    else:
                        ctx.check(False, "unasked-event", "%s got %s" % (a.name, list(e)))
                elif e.kind == "raw":
                    got.setdefault(int(e[1]), []).append(e[3])
            for u in set(got) | set(want):
                if not ctx.check(got.get(u, []) == want.get(u, []), "delivery", lambda: "%s subscription %s got %s, must get %s" % (a.name, u, got.get(u, [])[-3:], want.get(u, [])[-3:])):
                    return
        pend[0] = 0

    for step in range(steps):
        op = rng.choices(["sub", "unsub", "multi", "unmulti", "pub", "reject", "exist", "bad"], [30, 16, 8, 4, 14, 5, 10, 6])[0]
        if op == "sub":
            s = new()
            if len(subs) > 40:
                continue
            p, m = evs[s.ev], marks()
            dup, rc = find(s), rej.get(s.ev, 0)
            am = s.a.mark()
            simple = s.f == "!" and s.i == 0 and s.d == 0 and rng.random() < 0.5
            if simple and s.kind < 2:
                r = s.a.call("%s %d %s %d 0" % (["sub", "subraw"][s.kind], s.h, s.ev, s.ud))
            elif simple:
                r = s.a.call("suba %d %s %d 0" % (s.h, s.ev, s.ud))
            else:
                r = s.a.call("subex %d %d 0 1 %s" % (s.h, s.kind, s.spec()))
            res = r.rc
            if s.kind == 2 and res == 0 and not dup:
                e = s.a.wait_ev(lambda e: e.kind == "subresp" and e[1] == str(s.ud), 1, 30, am)
                if not ctx.check(len(e) == 1 and unpct(e[0][2]) == s.ev, "async-outcome", lambda: "asynchronous subscribe %s: reports %s" % (s, e)):
                    return
                res = int(e[0][3])
            if dup:
                ctx.check(res == EXIST, "duplicate", lambda: "subscribing %s again returned %d" % (s, res))
            elif rc and not s.ev.endswith(".N"):
                ctx.check(res == rc, "rejected", lambda: "provider rejected %s with %d, the subscriber got %d" % (s, rc, res))
            else:
                ctx.check(res == 0, "subscribe-failed", lambda: "%s returned %d" % (s, res))
                subs.append(s)
            handler_log(m, [] if dup else [(p, 0, s)], "subscribe %s -> %d" % (s, res))
            ctx.distinct(("sub", s.kind, s.f != "!", s.i > 0, s.d > 0, bool(dup), rc, s.ev[-2:], s.a.name))
        elif op == "unsub" and subs:
            s = rng.choice(subs)
            drain()
            m = marks()
            # by name when this is the only one, or by its full description
            if s.f == "!" and s.i == 0 and s.d == 0 and rng.random() < 0.5:
                r = s.a.call("%s %d %s" % (["unsub", "unsubraw", "unsub"][s.kind], s.h, s.ev))
            else:
                r = s.a.call("unsubex %d %d 0 1 %s" % (s.h, int(s.kind == 1), s.spec()))
            ctx.check(r.rc == 0, "unsubscribe-failed", lambda: "%s of %s returned %d" % (r.cmd, s, r.rc))
            subs.remove(s)
            handler_log(m, [(evs[s.ev], 1, s)], "unsubscribe %s" % s)
            ctx.distinct(("unsub", s.kind, s.f != "!", s.i > 0, s.d > 0))
        elif op == "multi" and len(subs) < 40:
            a, h = rng.choice(hs)
            kind = rng.choice([0, 0, 1])
            l = []
            for _ in range(rng.randint(2, 5)):
                s = new(a, h)
                s.a, s.h, s.kind = a, h, 0 if s.ev in props or "*" in s.ev or s.f != "!" or s.i else kind
                if s.kind != kind:
                    continue
                if not any(s.same(x) for x in l):
                    l.append(s)
            if not l:
                continue
            bad = None
            for j, s in enumerate(l):
                if find(s) or (rej.get(s.ev, 0) and not s.ev.endswith(".N")):
                    bad = j
                    break
            if bad is None and rng.random() < 0.2:
                s = S(a, h, rng.choice(["Lc0.Nothing", "Nobody.Here"]), "!", 0, 0, kind, 9)
                bad = rng.randint(0, len(l))
                l.insert(bad, s)
            m = marks()
            r = a.call("subex %d %d 0 %d %s" % (h, kind, len(l), " ".join(s.spec() for s in l)))
            if bad is None:
                ctx.check(r.rc == 0, "multi-failed", lambda: "%s returned %d" % (l, r.rc))
                subs += l
                handler_log(m, [(evs[s.ev], 0, s) for s in l], "subscribe to several %s" % l)
            else:
                ctx.check(r.rc != 0, "multi-half", lambda: "subscribing to %s, number %d of which must fail, returned success" % (l, bad))
                # the earlier ones were made and must be undone
                for p in provs:
                    p.sync()
                    got = [(int(e[1]), unpct(e[2]), e[3], int(e[4])) for e in p.evs("subh", m[p])]
                    net = {}
                    for act, n, f, i in got:
                        if not (act == 0 and rej.get(n, 0)):
                            net[(n, f, i)] = net.get((n, f, i), 0) + (1 if act == 0 else -1)
                    ctx.check(not any(net.values()), "multi-not-undone", lambda: "failed subscribe to %s left provider %s with %s" % (l, p.name, got))
                for s in l:
                    if s.kind == 0:
                        e = a.call("issub %d 0 0 1 %s" % (h, s.spec())).payload[0]
                        ctx.check((e == "1") == bool(find(s)), "multi-not-undone", lambda: "after the failed subscribe to %s, %s exists=%s" % (l, s, e))
            ctx.distinct(("multi", kind, len(l), bad is None, bad == 0))
        elif op == "unmulti" and subs:
            a, h = rng.choice(hs)
            kind = rng.choice([0, 1])
            mine = [s for s in subs if s.a is a and s.h == h and (s.kind == 1) == (kind == 1)]
            mine = rng.sample(mine, min(len(mine), 3))
            if not mine:
                continue
            drain()
            ghost = rng.random() < 0.3
            l = list(mine)
            if ghost:
                g = S(a, h, rng.choice(names), "R4(str:ghost)", 0, 0, kind, 0)
                l.insert(rng.randint(0, len(l)), g)
            m = marks()
            r = a.call("unsubex %d %d 0 %d %s" % (h, kind, len(l), " ".join(s.spec() for s in l)))
            ctx.check((r.rc != 0) == ghost, "unsub-multi", lambda: "unsubscribing %s returned %d" % (l, r.rc))
            for s in mine:
                subs.remove(s)
            handler_log(m, [(evs[s.ev], 1, s) for s in mine], "unsubscribe several %s" % l)
            ctx.distinct(("unmulti", kind, len(l), ghost))
        elif op == "reject":
            n = rng.choice(names)
            rej[n] = rng.choice([0, 0, 1, 2, 4, 11])
            evs[n].ok("cfg %s sub_rc %d" % (n, rej[n]))
        elif op == "exist":
            s = new()
            if s.kind != 1:
                e = s.a.call("issub %d 0 0 1 %s" % (s.h, s.spec())).payload[0]
                ctx.check((e == "1") == bool(find(s)), "existence", lambda: "%s exists=%s but %s" % (s, e, find(s)))
                if s.f == "!" and not s.i and not s.d:
                    e = s.a.call("issub %d 9 0 1 %s" % (s.h, s.spec())).payload[0]
                    ctx.check((e == "1") == bool(find(s)), "existence", lambda: "%s exists=%s by name but %s" % (s.ev, e, find(s)))
        elif op == "bad":
            s = new()
            w = rng.randint(0, 2)
            if w == 0:
                s.ev = rng.choice(["Lc0.Nothing", "Nobody.Here.At.All", "Lc0.T.77.E"])
                r = s.a.call("subex %d %d 0 1 %s" % (s.h, int(s.kind == 1), s.spec()))
                ctx.check(r.rc != 0, "subscribed-to-nothing", lambda: "%s returned success" % s)
                e = s.a.call("issub %d 0 0 1 %s" % (s.h, s.spec())).payload[0]
                ctx.check(e == "0", "existence", lambda: "%s exists=%s" % (s, e))
            else:
                if find(s):
                    continue
                m = marks()
                r = s.a.call("unsubex %d %d 0 1 %s" % (s.h, int(s.kind == 1), s.spec()))
                ctx.check(r.rc != 0, "unsubscribed-nothing", lambda: "unsubscribing %s, which does not exist, returned success" % s)
                handler_log(m, [], "unsubscribe of nothing %s" % s)
            ctx.distinct(("bad", w, s.kind))
        elif op == "pub":
            n = rng.choice([x for x in names if "*" not in x and x not in props])
            wild = n.replace(".1.", ".*.").replace(".2.", ".*.")
            raw = rng.random() < 0.35
            to = [s for s in subs if s.ev in (n, wild) and (s.kind == 1) == raw]
            worst = max([sum(1 for s in to if s.a is x) for x in {s.a for s in to}] or [0])
            if worst > 16:
                continue
            if pend[0] + worst > 16:
                drain()
            pend[0] += worst
            if raw:
                b = bytes(rng.randint(0, 255) for _ in range(rng.choice([1, 5, 60]))).hex()
                evs[n].call("pubraw 0 %s %s" % (n, b))
            else:
                b = gen.obj(rng)
                evs[n].call("pub 0 %s %d %s" % (n, GENERAL, b))
            for s in to:
                expect.setdefault(s.a, {}).setdefault(s.ud, []).append(b)
            ctx.count("events_published")
            ctx.count("deliveries_expected", len(to))
        if ctx.failed:
            return
        if step % 50 == 49:
            drain()
        if step == 100:
            ctx.sample("%d subscriptions after 100 steps: %s" % (len(subs), subs[:6]))
        if ctx.failed:
            return
    drain()
    time.sleep(0.2)
    drain()
    # closing a component ends its subscriptions and nobody else's
    m = marks()
    a, h = hs[1]
    mine = [s for s in subs if s.a is a and s.h == h]
    a.ok("close %d" % h)
    for p in provs:
        p.sync()
        got = sorted((int(e[1]), unpct(e[2]), e[3], int(e[4])) for e in p.evs("subh", m[p]))
        w = sorted((1, s.ev, s.f, s.i) for s in mine if evs[s.ev] is p and not s.ev.endswith(".N"))
        ctx.check(got == w, "handler-log", lambda: "close of %s: provider %s saw %s, must see %s" % (a.name, p.name, got, w))
    for a, h in hs:
        if (a, h) != hs[1]:
            a.ok("close %d" % h)
    for p in provs[1:]:
        p.ok("close 0")


def rows(ctx, k, steps):
    """Removing a row ends the subscriptions of that row only."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
    p.ok("reg 0 5 Rw.T.{i}. t ar Rw.T.{i}.E e e Rw.T.{i}.U.{i}. t ar Rw.T.{i}.U.{i}.F e - Rw.X e -")
    live, subs, ud = {}, {}, [0]       # live: row -> set of sub rows ; subs: (agent, event) -> ud
    expect = {}
    alias = {}      # row -> its alias
    named = [0]

    def fresh():
        """An alias never used before; many are prefixes of others."""
        named[0] += 1
        return "r%d" % (named[0] // 5) + "z" * (named[0] % 5)

    def forms(e):
        """The names by which a subscriber can mean the event, among others."""
        w = e.split(".")
        for j in range(2, len(w) - 1):
            if w[j].isdigit():
                a = alias.get(".".join(w[:j + 1]))
                w[j] = rng.choice([w[j], "*", "[%s]" % a if a else w[j]])
        return ".".join(w)

    def means(form, e):
        x, y = form.split("."), e.split(".")
        return len(x) == len(y) and all(p == q or p == "*" or (p[0] == "[" and alias.get(".".join(y[:j + 1])) == p[1:-1]) for j, (p, q) in enumerate(zip(x, y)))

    def events():
        return ["Rw.T.%s.E" % r for r in live] + ["Rw.T.%s.U.%s.F" % (r, q) for r in live for q in live[r]]
    for step in range(steps):
        op = rng.choices(["add", "addsub", "rem", "remsub", "sub", "wild", "check"], [12, 12, 6, 6, 30, 3, 14])[0]
        a = rng.choice(cons + [p])
        if op == "add" and len(live) < 14:
            al = rng.choice(["!", fresh()])
            i = a.ok("addrow 0 Rw.T. %s" % al).payload[0]
            live[i] = set()
            if al != "!":
                alias["Rw.T." + i] = al
        elif op == "addsub" and live:
            r = rng.choice(sorted(live))
            al = rng.choice(["!", fresh()])
            i = a.ok("addrow 0 Rw.T.%s.U. %s" % (r, al)).payload[0]
            live[r].add(i)
            if al != "!":
                alias["Rw.T.%s.U.%s" % (r, i)] = al
        elif op == "rem" and live:
            r = rng.choice(sorted(live))
            for c in cons:
                c.sync()
            a.ok("remrow 0 Rw.T.%s" % r)
            for key in [x for x in subs if not x[1].startswith("Rw.T.*") and x[1] != "Rw.X" and x[1].split(".")[2] in (r, "[%s]" % alias.get("Rw.T." + r))]:
                del subs[key]
            del live[r]
            for x in [x for x in alias if (x + ".").startswith("Rw.T.%s." % r)]:
                del alias[x]
            ctx.distinct(("rem", len(live)))
        elif op == "remsub":
            l = [(r, q) for r in live for q in live[r]]
            if l:
                r, q = rng.choice(sorted(l))
                a.ok("remrow 0 Rw.T.%s.U.%s" % (r, q))
                for key in [x for x in subs if means(x[1], "Rw.T.%s.U.%s.F" % (r, q)) and "*" not in x[1]]:
                    del subs[key]
                live[r].discard(q)
                alias.pop("Rw.T.%s.U.%s" % (r, q), None)
        elif op in ("sub", "wild"):
            c = rng.choice(cons)
            l = [f for f in [forms(e) for e in sorted(events())] if (c, f) not in subs] if op == "sub" else [e for e in ["Rw.T.*.E", "Rw.T.*.U.*.F", "Rw.X"] if (c, e) not in subs]
            if l:
                e = rng.choice(sorted(l))
                ud[0] += 1
                # a filter is for value changes: general events come all the same
                if rng.random() < 0.3:
                    c.ok("subex 0 0 0 1 %s %s 0 0 0 %d" % (e, rng.choice(["R4(i32:1)", "R0(str:x)", "L2(R4(i32:1),!)"]), ud[0]))
                else:
                    c.ok("sub 0 %s %d 0" % (e, ud[0]))
                subs[(c, e)] = ud[0]
                expect.setdefault((c, ud[0]), [])
        if op in ("check", "rem", "remsub"):
            sent = 0
            for e in rng.sample(events(), min(5, len(events()))) + ["Rw.X"]:
                to = [(c, u) for (c, x), u in subs.items() if means(x, e)]
                b = "o(n=i32:%d)" % rng.randint(0, 10**6)
                r = p.call("pub 0 %s 3 %s" % (e, b))
                ctx.check(r.rc == (0 if to else 23), "publish-result", lambda: "publishing %s returned %d with subscribers %s" % (e, r.rc, [(c.name, u) for c, u in to]))
                for t in to:
                    expect[t].append((e, b))
                    ctx.count("deliveries_expected")
            for c in cons:
                want = {u: l for (x, u), l in expect.items() if x is c}
                c.wait_ev(lambda e: e.kind == "ev", sum(len(l) for l in want.values()), 30)
                got = {}
                for e in c.evs("ev"):
                    got.setdefault(int(e[1]), []).append((unpct(e[2]), e[4]))
                for u in set(got) | set(want):
                    ctx.check(got.get(u, []) == want.get(u, []), "delivery", lambda: "%s subscription %d got %s, must get %s" % (c.name, u, got.get(u, [])[-3:], want.get(u, [])[-3:]))
            ctx.distinct(("check", len(live), min(len(subs), 12), sum("[" in x for c, x in subs), sum("*" in x for c, x in subs)))
        if ctx.failed:
            return
    for c in cons + [p]:
        c.ok("close 0")


def asyn(ctx, k, steps):
    """Asynchronous subscriptions to providers that come late, never, or reject; cancelled while pending."""
    rng = ctx.rng
    ctx.start_broker()
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
    for c in cons:
        c.ok("open 1 %sb" % c.name)
    p = ctx.comp("prov")
    want, cancelled, ud, due = {}, set(), 0, {}
    for step in range(steps):
        names, jobs = ["As%d.E%d" % (step, j) for j in range(6)], []
        fate = {n: rng.choice(["before", "late", "never", "reject"]) for n in names}
        for n in names:
            if fate[n] in ("before",):
                p.ok("reg 0 1 %s e -" % n)
        for n in names:
            for c in cons:
                for h in (0, 1):
                    # none, one or several that differ only in their filter or duration
                    for f in rng.sample(["! 0 0", "R4(i32:1) 0 0", "R0(i32:1) 0 0", "R4(str:x) 0 0", "! 0 9000", "L2(R4(i32:1),!) 0 0"], rng.choice([0, 0, 1, 1, 1, 2, 3])):
                        ud += 1
                        to = rng.choice([1, 1, 2, 4]) if fate[n] == "never" else 20
                        cmd = "suba %d %s %d %d" % (h, n, ud, to) if rng.random() < 0.5 and f == "! 0 0" else "subex %d 2 %d 1 %s %s 0 %d" % (h, to, n, f, ud)
                        d = c.call(cmd)
                        due[ud] = (d.t0, to)
                        d = d.rc
                        ctx.check(d == 0, "async-refused", lambda: "%s: %s returned %d" % (c.name, cmd, d))
                        d = c.call("subex %d %d 0 1 %s %s 0 7" % (h, rng.choice([0, 2]), n, f)).rc
                        ctx.check(d == EXIST, "duplicate", lambda: "%s: a second subscribe to the pending or made %s %s returned %d" % (c.name, n, f, d))
                        jobs.append((c, h, n, ud, f))
                        if fate[n] != "before" and rng.random() < 0.2:
                            r = c.call("unsubex %d 0 0 1 %s %s 0 0" % (h, n, f))
                            ctx.check(r.rc == 0, "cancel", "%s: cancelling the pending subscription to %s %s returned %d" % (c.name, n, f, r.rc))
                            cancelled.add(ud)
                            jobs.pop()
        time.sleep(rng.random() * 1.2)
        for n in names:
            if fate[n] in ("late", "reject"):
                if fate[n] == "reject":
                    p.ok("cfg %s sub_rc 11" % n)
                p.ok("reg 0 1 %s e e" % n)
        for c, h, n, u, f in jobs:
            e = c.wait_ev(lambda e: e.kind == "subresp" and e[1] == str(u), 1, 40)
            if not ctx.check(len(e) == 1, "async-outcome", "%s: subscription %d to %s (%s): %d reports" % (c.name, u, n, fate[n], len(e))):
                return
            rc = int(e[0][3])
            ctx.check((rc == 0) == (fate[n] in ("before", "late")) and (fate[n] != "reject" or rc == 11) and (fate[n] != "never" or rc == 20), "async-outcome", "%s: subscription to %s (%s) reported %d" % (c.name, n, fate[n], rc))
            t = (e[0].t - due[u][0]) / 1e9 - due[u][1]
            ctx.check(fate[n] != "never" or -0.1 < t < 2.5, "async-timeout-time", lambda: "%s: subscribing to %s, which nobody provides, ended %.1f s after its limit of %d s" % (c.name, n, t, due[u][1]))
            x = c.call("issub %d 0 0 1 %s %s 0 0" % (h, n, f)).payload[0]
            ctx.check((x == "1") == (rc == 0), "existence", "%s: %s exists=%s after report %d" % (c.name, n, x, rc))
            ctx.distinct((fate[n], rc, h))
        for n in names:
            to = [(c, u) for c, h, m, u, _ in jobs if m == n and fate[n] in ("before", "late")]
            r = p.call("pub 0 %s 3 o(n=i32:1)" % n)
            if fate[n] != "never":
                ctx.check(r.rc == (0 if to else 23), "publish-result", "publish %s (%s) with %d subscribers returned %d" % (n, fate[n], len(to), r.rc))
            for c, u in to:
                e = c.wait_ev(lambda e: e.kind == "ev" and e[1] == str(u), 1, 30)
                ctx.check(len(e) == 1, "delivery", "%s: %d events for %s" % (c.name, len(e), n))
        # cancelled while the provider is deciding: whatever it says, nothing stays
        n = "As%d.Slow" % step
        p.ok("cfg %s sub_ms %d" % (n, 150))
        if rng.random() < 0.2:
            p.ok("cfg %s sub_rc 11" % n)
        p.ok("reg 0 1 %s e e" % n)
        c, h = rng.choice(cons), rng.choice([0, 1])
        f = rng.choice(["! 0 0", "R4(i32:1) 0 0"])
        ud += 1
        c.ok("subex %d 2 10 1 %s %s 0 %d" % (h, n, f, ud))
        time.sleep(rng.choice([0, 0.02, 0.06, 0.1, 0.16]))
        m = c.mark()
        r = c.call("unsubex %d 0 0 1 %s %s 0 0" % (h, n, f))
        early = not [e for e in c.evs("subresp") if e[1] == str(ud)]
        ctx.check(r.rc == 0 or not early, "cancel", lambda: "%s: cancelling the subscription to %s under way returned %d" % (c.name, n, r.rc))
        x = c.call("issub %d 0 0 1 %s %s 0 0" % (h, n, f)).payload[0]
        ctx.check(x == "0", "existence", lambda: "%s: %s exists after it was cancelled" % (c.name, n))
        time.sleep(0.4)
        end = time.time() + 3
        while True:
            r = p.call("pub 0 %s 3 o(n=i32:1)" % n)
            if r.rc == 23 or time.time() > end:
                break
            time.sleep(0.05)
        ctx.check(r.rc == 23, "publish-result", lambda: "publish %s after its only subscription was cancelled returned %d" % (n, r.rc))
        time.sleep(0.1)
        c.sync()
        ctx.check(not [e for e in c.evs("ev", m) if e[1] == str(ud)] or r.rc != 23, "async-cancelled", lambda: "%s: the cancelled subscription to %s got an event" % (c.name, n))
        ctx.distinct(("cancel under way", early, h, f))
        if ctx.failed:
            return
        ctx.sample("step %d: %s" % (step, fate))
    time.sleep(1)
    for c in cons:
        c.sync()
        n = {}
        for e in c.evs("subresp"):
            n[e[1]] = n.get(e[1], 0) + 1
        ctx.check(all(v == 1 for v in n.values()), "async-twice", lambda: "%s: reports %s" % (c.name, {a: b for a, b in n.items() if b > 1}))
        ctx.check(not any(int(x) in cancelled for x in n), "async-cancelled", lambda: "%s: cancelled subscriptions reported: %s" % (c.name, [x for x in n if int(x) in cancelled]))
        c.ok("close 1")
        c.ok("close 0")
    p.ok("close 0")
