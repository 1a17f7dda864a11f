"""P27: raw messages of 1 byte to 300 kB, sent by many threads of several components, with and without confirmation, to exact names, rows of tables, names that are prefixes of others, over-long names and names nobody listens to, while listeners (several per name, handle and process) come and go. Every delivery must be explained by a listener that matches, each listener must get each message once with the bytes sent, in sending order per sending thread, and confirmation must say whether anybody listens. Raw event data likewise."""
import time
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one message; distinct = (topic kind, listeners matching, confirmation, size class, senders at the same time) combinations"
NOTFOUND = 5
CAP = 18          # messages under way to one process: a receiver with more than 25 waiting drops them, by design


def plan(tier):
    n = 6 if tier == "quick" else 24
    r = 110 if tier == "quick" else 1500
    return [{"fn": "mix", "args": {"k": i, "rounds": r}} for i in range(n)] + \
           [{"fn": "churn", "args": {"k": i, "rounds": r // 2}} for i in range(3 if tier == "quick" else 12)] + \
           [{"fn": "rawevents", "args": {"k": i, "rounds": r // 2}} for i in range(2 if tier == "quick" else 8)]


def match(expr, topic):
    """Does a listener for expr get messages to topic? A row or alias in the topic stands for {i}; a table's name alone for its rows."""
    e, t = expr.split("."), topic.split(".")
    if e[-1] == "{i}" and len(t) == len(e) - 1:
        e = e[:-1]
    return len(e) == len(t) and all(a == b or (a == "{i}" and b and (b[0].isdigit() or b[0] == "[")) for a, b in zip(e, t))


LONG = "L" + "o" * 30 + "." + "n" * 30 + "." + "g" * 30 + "." + "x" * 22       # 116 characters; the broker takes names of up to 127 printable characters
EXPRS = ["Ms.A", "Ms.AB", "Ms.A.B", "Ms.A.B.C", "Ms.B.A", "Msg", "Ms2.A", "x", "Ms.T.{i}.V", "Ms.T.{i}.W.{i}.V", "Ms.T.{i}.W.{i}", "Ms.R.{i}", "Ms.Long name.!#$", LONG, LONG + "." + "y" * 10, LONG[:-1]]
TOPICS = [x for x in EXPRS if "{" not in x] * 2 + ["Ms.T.1.V", "Ms.T.22.V", "Ms.T.[al].V", "Ms.T.1.W.7.V", "Ms.T.[a].W.[b].V", "Ms.T.4.W.5", "Ms.T.4.W", "Ms.R.9", "Ms.R.[z]", "Ms.R", "Ms.T.1.X", "Ms.T.a.V", "Ms", "Ms.A.B.C.D", "Ms.A.", "Nobody", "Ms.a", "ms.A", "Ms.A B", LONG + "." + "y" * 11, LONG + "." + "y" * 10 + "z", LONG + "." + "y" * 10 + ".A", LONG[:-2], LONG + "." + LONG, LONG + "." + LONG + "." + LONG]
TOPICS = [t for t in TOPICS if t[-1] != "."]


def payload(rng, tag, big=300000):
    n = rng.choice([1, 2, 16, 16, 200, 200, 3000, 65535, 65536, 65537, 120000]) if rng.random() < 0.7 else rng.randrange(1, 40)
    if rng.random() < 0.03:
        n = big
    t = tag.encode() + b"|"
    return t + bytes(rng.getrandbits(8) for _ in range(min(n, 64))) * (n // 64 + 1) if n > 1 else t


class L:
    def __init__(self, a, h, expr, subid, ud):
        self.a, self.h, self.expr, self.subid, self.ud = a, h, expr, subid, ud


def setup(ctx, n=3):
    ags = [ctx.comp("ms%d" % i) for i in range(n)]
    ags[0].ok("open 1 ms0second")
    ags[1].ok("open 1 ms1second")
    return ags, [(ags[0], 0), (ags[0], 1), (ags[1], 0), (ags[1], 1)] + [(a, 0) for a in ags[2:]]


def settle(ctx, ags):
    """What was sent to the broker before is done after an answer of the broker."""
    for a in ags:
        for w in (0,):
            a.call("msend 0 Nobody.Here 00 1", w)


def wave(ctx, rng, lst, ags, lanes, n, st, extra=None):
    """Sends n messages from random lanes at once and checks who got what."""
    budget = {a: CAP for a in ags}
    plan_, seq = [], {}
    for _ in range(n):
        topic = rng.choice(st.get("topics", TOPICS))
        m = [l for l in lst if match(l.expr, topic)] if len(topic) < 256 else []
        need = {}
        for l in m:
            need[l.a] = need.get(l.a, 0) + 1
        if any(budget[a] < c for a, c in need.items()):
            continue
        for a, c in need.items():
            budget[a] -= c
        a, h, w = rng.choice(lanes)
        st["n"] += 1
        tag = "%s-%d-%d-%d" % (a.name, h, w, st["n"])
        plan_.append((a, h, w, topic, m, tag, payload(rng, tag), rng.random() < 0.35))
    marks = {a: a.mark() for a in ags}
    futs = [(p, p[0].send("msend %d %s %s %d" % (p[1], pct(p[3]), p[6].hex(), p[7]), p[2])) for p in plan_]
    want = {}
    for p, f in futs:
        a, h, w, topic, m, tag, data, conf = p
        r = f.wait()
        ctx.count("messages")
        kind = "long" if len(topic) > 255 else "row" if any(c.isdigit() or c == "[" for c in topic) else "plain"
        ctx.distinct((kind, min(len(m), 4), conf, min(4, len(data) // 20000), min(8, len(plan_))))
        if conf:
            # an over-long name may also be refused as such
            ok = r.rc == 0 if m else r.rc != 0 if len(topic) > 255 else r.rc == NOTFOUND
            ctx.check(ok, "confirmation", lambda: "%s: confirmed message to %s returned %d with %d listeners" % (a.name, topic, r.rc, len(m)))
        elif len(topic) < 256:
            ctx.check(r.rc == 0, "send-failed", lambda: "%s: message to %s returned %d" % (a.name, topic, r.rc))
        for l in m:
            want.setdefault(l.a, []).append((l, p))
    for a in ags:
        k = want.get(a, [])
        uds = {l.ud for l in lst if l.a is a}
        pred = lambda e: e.kind == "msg" and int(e[1]) not in (extra or ())
        got = a.wait_ev(pred, len(k), 20, since=marks[a])
        a.sync()
        got = [e for e in a.evs("msg", marks[a]) if pred(e)]
        left = {(l.h, l.ud, p[3], p[6].hex()): (l, p) for l, p in k}
        order = {}
        for e in got:
            key = (int(e[0]), int(e[1]), unpct(e[2]), e[3])
            if not ctx.check(key in left, "unexplained-delivery", lambda: "%s: listener %s (%s) on handle %s got a message of %d bytes, %r, to %s: not sent to it, or twice, or with other bytes" % (a.name, e[1], [l.expr for l in lst if str(l.ud) == e[1]], e[0], len(e[3]) // 2, bytes.fromhex(e[3][:80]), unpct(e[2]))):
                return False
            l, p = left.pop(key)
            n_ = int(p[5].split("-")[-1])
            o = order.setdefault((l.ud, p[0].name, p[1], p[2]), [])
            ctx.check(not o or o[-1] < n_, "out-of-order", lambda: "%s: listener %d got message %d of thread %d of %s after %d" % (a.name, l.ud, n_, p[2], p[0].name, o[-1]))
            o.append(n_)
            ctx.count("deliveries")
        if not ctx.check(not left, "lost-message", lambda: "%s: %d of %d deliveries missing, e.g. to %s, %d bytes for listener %s" % (a.name, len(left), len(k), list(left)[0][2], len(list(left)[0][3]) // 2, [(l.expr, l.subid) for l, p in left.values()][:3])):
            return False
    return not ctx.failed


def empty(ctx, rng, lst, ags, lane):
    """A message without content is a message: confirmed, delivered once to each listener."""
    a, h, w = lane
    t = rng.choice([x for x in TOPICS if len(x) < 256])
    m = [l for l in lst if match(l.expr, t)]
    if len(m) > 10:
        return True
    marks = {x: x.mark() for x in ags}
    conf = rng.random() < 0.7
    r = a.call("msend %d %s ~ %d" % (h, pct(t), conf), w)
    ctx.count("empty_messages")
    ctx.check(r.rc == (NOTFOUND if conf and not m else 0), "confirmation", lambda: "%s: message without content to %s returned %d with %d listeners" % (a.name, t, r.rc, len(m)))
    for x in ags:
        want = sorted((l.h, l.ud) for l in m if l.a is x)
        got = x.wait_ev(lambda e: e.kind == "msg" and unpct(e[2]) == t, len(want), 20, since=marks[x])
        x.sync()
        got = [e for e in x.evs("msg", marks[x])]
        ctx.check(sorted((int(e[0]), int(e[1])) for e in got) == want and all(unpct(e[2]) == t and (len(e) < 4 or e[3] in ("", "~")) for e in got), "empty-message", lambda: "%s: message without content to %s reached %s, listeners %s" % (x.name, t, [(e[0], e[1]) for e in got], want))
    return not ctx.failed


def change(ctx, rng, lst, hs, st):
    """Adds and removes listeners."""
    for _ in range(rng.choice([1, 2, 4])):
        x = rng.random()
        if lst and x < 0.38:
            l = rng.choice(lst)
            same = [m for m in lst if (m.a, m.h, m.expr, m.subid) == (l.a, l.h, l.expr, l.subid)]
            if len(same) > 1:
                continue
            l.a.ok("munlisten %d %s %d" % (l.h, pct(l.expr), l.subid))
            lst.remove(l)
        elif lst and x < 0.43:
            a, h = rng.choice(hs)
            a.ok("mremall %d" % h)
            lst[:] = [l for l in lst if (l.a, l.h) != (a, h)]
        elif x < 0.47:
            a, h = rng.choice(hs)
            e = rng.choice(EXPRS)
            if not [l for l in lst if (l.a, l.h, l.expr) == (a, h, e)]:
                r = a.call("munlisten %d %s %d" % (h, pct(e), rng.randrange(1, 9)))
                ctx.check(r.rc != 0, "removed-nothing", lambda: "%s returned %d" % (r.cmd, r.rc))
        elif len(lst) < st.get("cap", 24):
            a, h = rng.choice(hs)
            e = rng.choice(EXPRS)
            sub = rng.choice([1, 2, 3, 77, 4294967295]) + 0
            if [l for l in lst if (l.a, l.h, l.expr, l.subid) == (a, h, e, sub)]:
                continue
            st["ud"] += 1
            a.ok("mlisten %d %s %d %d" % (h, pct(e), st["ud"], sub))
            lst.append(L(a, h, e, sub, st["ud"]))
    a, h = rng.choice(hs)
    e = rng.choice(EXPRS)
    r = a.call("mhas %d %s" % (h, pct(e)))
    ctx.check(r.payload == [str(int(any((l.a, l.h, l.expr) == (a, h, e) for l in lst)))], "has-listener", lambda: "%s says %s" % (r.cmd, r.payload))


def mix(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    ags, hs = setup(ctx)
    st, lst = {"n": 0, "ud": 0}, []
    lanes = [(a, h, w) for a, h in hs for w in range(h * 4, h * 4 + 3)]
    if k % 3 == 1:            # one process with many listeners, of both its handles
        for i in range(84):
            st["ud"] += 1
            ags[0].ok("mlisten %d Mx.N%d %d %d" % (i % 2, i, st["ud"], i))
            lst.append(L(ags[0], i % 2, "Mx.N%d" % i, i, st["ud"]))
        st["topics"], st["cap"] = TOPICS + ["Mx.N%d" % i for i in range(84)], 104
    for rnd in range(rounds):
        if rnd:
            change(ctx, rng, lst, hs, st)
        settle(ctx, ags)
        if rng.random() < 0.5 and not empty(ctx, rng, lst, ags, rng.choice(lanes)):
            return
        if not wave(ctx, rng, lst, ags, rng.sample(lanes, rng.choice([1, 3, len(lanes)])), rng.choice([1, 6, 20, 40]), st):
            return
        if rnd % 9 == 8:          # a receiver dies: its listeners are gone, the others stay
            i = rng.randrange(3)
            old = ags[i]
            old.kill()
            ags[i] = ctx.comp("ms%d" % i)
            if i < 2:
                ags[i].ok("open 1 ms%dsecond" % i)
            hs = [(ags[0], 0), (ags[0], 1), (ags[1], 0), (ags[1], 1), (ags[2], 0)]
            lanes = [(a, h, w) for a, h in hs for w in range(h * 4, h * 4 + 3)]
            lst[:] = [l for l in lst if l.a is not old]
    for a, h in hs[1:]:
        if h:
            a.ok("close 1")       # the other handle of the process keeps its listeners
            lst[:] = [l for l in lst if (l.a, l.h) != (a, 1)]
    settle(ctx, ags)
    wave(ctx, rng, lst, ags, [(a, 0, w) for a in ags for w in range(3)], 40, st)
    for a in ags:
        a.ok("close 0")


def churn(ctx, k, rounds):
    """Listeners are added and removed while messages to the same names are under way."""
    rng = ctx.rng
    ctx.start_broker()
    ags, hs = setup(ctx)
    st, lst = {"n": 0, "ud": 0}, []
    for a, h in hs:
        e = rng.choice(EXPRS[:9])
        st["ud"] += 1
        a.ok("mlisten %d %s %d 5" % (h, pct(e), st["ud"]))
        lst.append(L(a, h, e, 5, st["ud"]))
    settle(ctx, ags)
    lanes = [(a, h, w) for a, h in hs for w in range(h * 4, h * 4 + 3)]
    extra = set()
    gone = {}
    for rnd in range(rounds):
        ch = []
        for a, h in hs:
            if rng.random() < 0.7:
                ud = 100000 + rnd * 10 + h
                e = rng.choice([l.expr for l in lst])
                extra.add(ud)
                n = rng.choice([1, 3])
                for j in range(n):
                    ch.append(a.send("mlisten %d %s %d %d" % (h, pct(e), ud, 900 + rnd), 20 + h))
                    ch.append(a.send("munlisten %d %s %d" % (h, pct(e), 900 + rnd), 20 + h))
        global CAP
        if not wave(ctx, rng, lst, ags, lanes, rng.choice([5, 9]), st, extra):
            return
        for f in ch:
            r = f.wait()
            ctx.check(r.rc == 0, "listen-failed", lambda: "%s returned %d" % (r.cmd, r.rc))
        settle(ctx, ags)
        marks = {a: a.mark() for a in ags}
        if not wave(ctx, rng, lst, ags, lanes, rng.choice([5, 9]), st, extra):
            return
        for a in ags:
            late = [e for e in a.evs("msg", marks[a]) if int(e[1]) in extra]
            ctx.check(not late, "removed-listener-called", lambda: "%s: listener %s, removed before, got a message to %s" % (a.name, late[0][1], late[0][2]))
        ctx.count("churned", len(ch))
    for a in ags:
        a.ok("close 0")


def rawevents(ctx, k, rounds):
    """Raw event data of any length reaches every raw subscriber of the event, and only those."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("rawprov")
    evs = ["Rw.E!", "Rw.Ev!", "Rw.E.F!", "Rw.G"]
    p.ok("reg 0 %d %s" % (len(evs), " ".join("%s e e" % e for e in evs)))
    cs = [ctx.comp("rawc%d" % i) for i in range(2)]
    cs[0].ok("open 1 rawc0b")
    hs = [(cs[0], 0), (cs[0], 1), (cs[1], 0), (p, 0)]
    subs, n = {}, 0
    for rnd in range(rounds):
        for _ in range(rng.choice([1, 3])):
            a, h = rng.choice(hs)
            e = rng.choice(evs)
            if (a, h, e) in subs:
                a.ok("unsubraw %d %s" % (h, e))
                del subs[(a, h, e)]
            else:
                n += 1
                a.ok("subraw %d %s %d 3000" % (h, e, n))
                subs[(a, h, e)] = n
        settle(ctx, cs + [p])
        marks = {a: a.mark() for a in cs + [p]}
        want = {a: [] for a in marks}
        left = {a: CAP for a in marks}
        for m in range(rng.choice([1, 4, 10])):
            e = rng.choice(evs)
            to = [(a, h, u) for (a, h, x), u in subs.items() if x == e]
            if any(left[a] < 2 for a, h, u in to):
                continue
            for a, h, u in to:
                left[a] -= 1
            n += 1
            data = payload(rng, "r%d" % n)
            r = p.call("pubraw 0 %s %s" % (e, data.hex()))
            ctx.count("messages")
            ctx.check(r.rc == (0 if to else 23), "publish-result", lambda: "%s returned %d with %d subscribers" % (r.cmd[:60], r.rc, len(to)))
            for a, h, u in to:
                want[a].append((str(h), str(u), e, data.hex()))
            ctx.distinct(("raw", len(to), min(4, len(data) // 20000)))
        for a, w in want.items():
            a.wait_ev(lambda e: e.kind == "raw", len(w), 20, since=marks[a])
            a.sync()
            got = [(e[0], e[1], unpct(e[2]).removeprefix("rawdata."), e[3]) for e in a.evs("raw", marks[a])]
            ctx.count("deliveries", len(got))
            ctx.check(sorted(got) == sorted(w), "raw-delivery", lambda: "%s got %s, published %s" % (a.name, [(g[:3], len(g[3]) // 2, g[3][:24]) for g in got], [(g[:3], len(g[3]) // 2, g[3][:24]) for g in w]))
            for s in set(g[1] for g in w):
                ctx.check([g for g in got if g[1] == s] == [g for g in w if g[1] == s], "out-of-order", lambda: "%s: subscriber %s got its data out of order" % (a.name, s))
        if ctx.failed:
            return
    for a in cs + [p]:
        a.ok("close 0")
