"""P15: many interval subscriptions (1-3 s, with and without duration, single properties and wildcards over tables whose rows come and go, empty at first too) from several processes, and subscriptions asking for the initial value, run at the same time while the provider keeps changing the values; every event is checked against the recorded value history (freshness, the exact set of rows), the earliest time the k-th event may come, the minimum rate, the number of events a duration allows, its single completion event and silence afterwards, and the initial event against what was stored while the subscribe call ran."""
import time
import threading
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one subscription observed to its end; distinct = (kind, interval, duration, how it ended, number of events, failing reads?) combinations"
PARALLEL = 8
INTERVAL, COMPLETE, INITIAL, CHANGED = 5, 6, 4, 2
LAG = 3.0


def plan(tier):
    n, s = (8, 11) if tier == "quick" else (24, 100)
    return [{"fn": "life", "args": {"k": i, "secs": s}} for i in range(n)] + \
           [{"fn": "initial", "args": {"k": i, "steps": 120 if tier == "quick" else 1500}} for i in range(n // 2)]


def parse(o):
    """~(a=v,b=w) -> [(a, v), ...]"""
    s = o[o.index("(") + 1:-1]
    return [tuple(x.split("=", 1)) for x in s.split(",")] if s else []


class Hist:
    """Values of one property over time: (begin, end of the store call, value)."""
    def __init__(self):
        self.h = []

    def current(self, v, t0, t1):
        """Was v current at some time in [t0, t1] (ns)?"""
        for i, (b, e, x) in enumerate(self.h):
            if x == v:
                until = self.h[i + 1][1] if i + 1 < len(self.h) else None
                if b <= t1 and (until is None or until >= t0):
                    return True
        return False


KINDS = ["i32:%d", "u32:%d", "i64:%d", "u64:%d", "str:v%d", "i16:%d"]


class Model:
    def __init__(self, ctx, p, pre):
        self.ctx, self.p, self.pre = ctx, p, pre
        self.hist, self.n, self.rows = {}, 0, {}
        self.row_hist = {}

    def store(self, name, via=None):
        self.n += 1
        v = KINDS[sum(map(ord, name)) % len(KINDS)] % self.n
        if via:
            r = via[0].ok("set %d %s %s" % (via[1], name, v))
        else:
            r = self.p.ok("store %s %s" % (name, v))
        self.hist.setdefault(name, Hist()).h.append((r.t0, r.t1, v))

    def addrow(self, t):
        r = self.p.ok("addrow 0 %s !" % t)
        n = int(r.payload[0])
        # the row's properties hold their own name until something is stored
        self.rows.setdefault(t, {})[n] = [r.t0, r.t1, None, None]
        for q in ("P", "Q"):
            nm = "%s%d.%s" % (t, n, q)
            self.hist[nm] = Hist()
            self.hist[nm].h.append((r.t0, r.t1, "str:" + nm))
            self.store(nm)

    def remrow(self, t, n):
        r = self.p.ok("remrow 0 %s%d" % (t, n))
        self.rows[t][n][2:] = [r.t0, r.t1]

    def live(self, t):
        return [n for n, x in self.rows.get(t, {}).items() if x[2] is None]

    def check_one(self, name, o, t0, t1, what):
        ps = parse(o)
        ok = len(ps) == 1 and ps[0][0] == name and self.hist[name].current(ps[0][1], t0, t1)
        self.ctx.check(ok, "stale-or-wrong-value", lambda: "%s of %s is %s; history %s" % (what, name, o, [x[2] for x in self.hist[name].h[-6:]]))

    def check_wild(self, t, leaf, o, t0, t1, what):
        ps = parse(o)
        if not self.ctx.check(ps and ps[0][0] == "numberOfEntries" and ps[0][1] == "i32:%d" % (len(ps) - 1), "wildcard-count", lambda: "%s of %s*.%s: %s" % (what, t, leaf, o)):
            return
        seen = {}
        for n, v in ps[1:]:
            self.ctx.check(n not in seen, "wildcard-twice", lambda: "%s of %s: %s twice" % (what, t, n))
            seen[n] = v
        for r, (b0, b1, e0, e1) in self.rows.get(t, {}).items():
            n = "%s%d.%s" % (t, r, leaf)
            if n in seen:
                self.ctx.check(b0 <= t1 and (e1 is None or e1 >= t0), "wildcard-removed-row", lambda: "%s of %s*.%s has row %d, which was gone" % (what, t, leaf, r))
                self.ctx.check(self.hist[n].current(seen[n], t0, t1), "stale-or-wrong-value", lambda: "%s of %s*.%s: %s=%s; history %s" % (what, t, leaf, n, seen[n], [x[2] for x in self.hist[n].h[-6:]]))
                del seen[n]
            else:
                self.ctx.check(not (b1 <= t0 and (e0 is None or e0 >= t1)), "wildcard-row-missing", lambda: "%s of %s*.%s lacks row %d: %s" % (what, t, leaf, r, o))
        self.ctx.check(not seen, "wildcard-stranger", lambda: "%s of %s*.%s has unknown %s" % (what, t, leaf, list(seen)[:4]))


class S:
    pass


def life(ctx, k, secs):
    rng = ctx.rng
    ctx.start_broker()
    pre = "Iv%d" % k
    p = ctx.comp("prov")
    props = ["%s.P%d" % (pre, i) for i in range(5)]
    p.ok("reg 0 9 %s %s.T.{i}. t ar %s.T.{i}.P p gs %s.T.{i}.Q p gse %s.F p gs" % (" ".join("%s p %s" % (n, "gse" if i % 2 else "gs") for i, n in enumerate(props)), pre, pre, pre, pre))
    m = Model(ctx, p, pre)
    T, F = pre + ".T.", pre + ".F"
    for n in props + [F]:
        m.store(n)
    if k % 3:
        for i in range(rng.randint(1, 3)):
            m.addrow(T)
    hs = [(p, 0)]
    for i in range(3):
        c = ctx.comp("cons" + "123"[:i])
        hs.append((c, 0))
        if i == 1:
            c.ok("open 1 consb")
            hs.append((c, 1))
    subs, ud = [], 0
    end = time.monotonic() + secs
    failing = [None, None]
    t_fail = []
    while time.monotonic() < end:
        alive = [s for s in subs if s.u0 is None]
        left = end - time.monotonic()
        x = rng.random()
        if len(alive) < 22 and x < 0.5 and left > 3:
            ud += 1
            s = S()
            s.a, s.h = rng.choice(hs)
            s.ev = rng.choice(props + [T + "*.P", T + "*.Q"] + [F])
            s.i = rng.choice([1, 1, 2, 3])
            s.d = rng.choice([0, 0, 0, s.i, 2 * s.i, 3 * s.i, 2 * s.i + 1]) if left > 4 else 0
            if ud % 17 == 0 and s.i > 1 and left > 5:
                s.d = 1       # shorter than the interval
            s.pos = rng.random() < 0.4
            s.f = rng.choice(["!", "!", "!", "R0(i32:3)"])
            s.ud = ud
            if any((o.a, o.h, o.ev, o.i, o.d, o.f) == (s.a, s.h, s.ev, s.i, s.d, s.f) for o in subs):
                continue
            r = s.a.call("subex %d 0 5 1 %s %s %d %d %d %d" % (s.h, s.ev, s.f, s.i, s.d, s.pos, s.ud))
            if not ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc)):
                return
            s.t0, s.t1, s.u0, s.u1 = r.t0, r.t1, None, None
            subs.append(s)
            ctx.count("subscriptions")
        elif alive and x < 0.6:
            s = rng.choice(alive)
            if s.d == 0 or rng.random() < 0.3:
                r = s.a.call("unsubex %d 0 5 1 %s %s %d %d 0 %d" % (s.h, s.ev, s.f, s.i, s.d, s.ud))
                s.u0, s.u1 = r.t0, r.t1
                done = any(e[1] == str(s.ud) and e[3] == "6" for e in s.a.evs("ev"))
                ctx.check(r.rc == 0 or s.d, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
                s.unrc = r.rc
        elif x < 0.7:
            if m.live(T) and rng.random() < 0.5:
                m.remrow(T, rng.choice(m.live(T)))
            else:
                m.addrow(T)
        elif x < 0.72 and failing[0] is None:
            failing[0] = time.monotonic() + rng.uniform(0.5, 2.5)
            r = p.ok("cfg %s get_rc 1" % F)
            t_fail.append(r.t0)
        if failing[0] and time.monotonic() > failing[0] or left < 3 and failing[0]:
            p.ok("cfg %s get_rc 0" % F)
            failing[0] = None
        for n in rng.sample(props, 2) + [F]:
            m.store(n, rng.choice(hs[1:]) if rng.random() < 0.15 and n != F else None)
        for r in m.live(T)[:4]:
            m.store("%s%d.%s" % (T, r, rng.choice("PQ")))
        time.sleep(0.05)
    # durations that are still running get the time to end, the others are ended now
    for s in subs:
        if s.u0 is None and s.d == 0:
            r = s.a.call("unsubex %d 0 5 1 %s %s %d %d 0 %d" % (s.h, s.ev, s.f, s.i, s.d, s.ud))
            s.u0, s.u1, s.unrc = r.t0, r.t1, r.rc
            ctx.check(r.rc == 0, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
    for s in subs:
        if s.u0 is None:
            s.a.wait_ev(lambda e: e.kind == "ev" and e[1] == str(s.ud) and e[3] == "6", 1, 40)
    time.sleep(1.2)
    for a in {h[0] for h in hs}:
        a.sync()
    now = time.monotonic_ns()
    evs = {}
    for a in {h[0] for h in hs}:
        for e in a.evs("ev"):
            evs.setdefault((a, int(e[1])), []).append(e)
    for s in subs:
        judge(ctx, m, s, evs.pop((s.a, s.ud), []), t_fail, F, T, now)
    ctx.check(not evs, "event-stranger", lambda: "events for unknown subscriptions %s" % [k[1] for k in evs])
    # a subscription that has completed is gone on both sides: it can be made and removed again
    for s in [s for s in subs if s.done][:6]:
        q = "1 %s %s %d %d 0 %d" % (s.ev, s.f, s.i, s.d, s.ud)
        r = s.a.call("issub %d 0 5 %s" % (s.h, q))
        ctx.check(r.payload[0] == "0", "completed-still-there", "%s: subscription %s exists after its completion" % (s.a.name, q))
        r = s.a.call("subex %d 0 5 %s" % (s.h, q))
        ctx.check(r.rc == 0, "completed-cannot-renew", "%s returned %d" % (r.cmd, r.rc))
        r = s.a.call("unsubex %d 0 5 %s" % (s.h, q))
        ctx.check(r.rc == 0, "completed-cannot-renew", "%s returned %d" % (r.cmd, r.rc))
    for a, h in hs[::-1]:
        a.ok("close %d" % h)


def judge(ctx, m, s, evs, t_fail, F, T, now):
    S9 = 10**9
    what = "subscription %d of %s/%d to %s interval %d duration %d" % (s.ud, s.a.name, s.h, s.ev, s.i, s.d)
    ini = [e for e in evs if e[3] == "4"]
    ivs = [e for e in evs if e[3] == "5"]
    fin = [e for e in evs if e[3] == "6"]
    ctx.check(len(ini) + len(ivs) + len(fin) == len(evs), "event-type", lambda: "%s got types %s" % (what, [e[3] for e in evs]))
    leaf = s.ev.rsplit(".", 1)[1]
    fail = s.ev == F and bool(t_fail)
    s.done = bool(fin)
    for e in evs:
        ctx.check(e[2] == s.ev and e[5] == s.ev, "event-name", lambda: "%s got %s" % (what, list(e)))
        lag = LAG * S9
        if e[3] == "4":
            if "*" in s.ev:
                m.check_wild(T, leaf, e[4], s.t0, s.t1, "initial value")
            else:
                ps = parse(e[4])
                ctx.check(len(ps) == 1 and ps[0][0] == "initialValue" and m.hist[s.ev].current(ps[0][1], s.t0, s.t1), "initial-value", lambda: "%s: initial value %s, history %s" % (what, e[4], [x[2] for x in m.hist[s.ev].h[-6:]]))
        elif "*" in s.ev:
            m.check_wild(T, leaf, e[4], e.t - lag, e.t, "event")
        else:
            m.check_one(s.ev, e[4], e.t - lag, e.t, "event")
    if s.pos and not fail:
        ctx.check(len(ini) == 1 and evs[0] is ini[0], "initial-event", lambda: "%s: types %s, one initial event first is due" % (what, [e[3] for e in evs]))
    elif not s.pos:
        ctx.check(not ini, "initial-unasked", lambda: "%s got an initial event" % what)
    # rate
    tick = ivs + fin
    for j, e in enumerate(tick):
        ctx.check(e.t >= s.t0 + (j + 1) * s.i * S9 - S9 // 50, "too-early", lambda: "%s: event %d came %.3f s after the subscribe call" % (what, j + 1, (e.t - s.t0) / S9))
    until = s.u0 if s.u0 is not None else now
    if fin:
        until = min(until, fin[0].t)
    due = int((until - s.t1) / S9 / (s.i * 1.5 + 0.5)) - 1
    if not fail and not fin:
        if s.d:
            due = min(due, s.d // s.i)
        ctx.check(len(ivs) >= due, "too-slow", lambda: "%s: %d events in %.1f s" % (what, len(ivs), (until - s.t1) / S9))
    if s.d:
        n = s.d // s.i
        if s.u0 is None:
            ctx.check(len(fin) == 1 and len(ivs) == n and evs[-1] is fin[0], "duration", lambda: "%s: %d interval and %d completion events, must be %d and 1" % (what, len(ivs), len(fin), n))
            if fin:
                lim = (n + 1) * s.i * 1.5 + 3
                ctx.check(fail or (fin[0].t - s.t1) / S9 <= lim, "duration-late", lambda: "%s ended after %.1f s" % (what, (fin[0].t - s.t1) / S9))
        else:
            ctx.check(len(ivs) <= n and len(fin) <= 1 and (not fin or len(ivs) == n), "duration", lambda: "%s: %d interval and %d completion events" % (what, len(ivs), len(fin)))
            ctx.check(s.unrc == 0 or fin, "unsub-failed", lambda: "%s: unsubscribe returned %d" % (what, s.unrc))
    else:
        ctx.check(not fin, "completion-unasked", lambda: "%s got a completion event" % what)
    if s.u1 is not None:
        late = [e for e in evs if e.t > s.u1 + S9 // 5]
        ctx.check(not late, "after-unsubscribe", lambda: "%s got an event %.2f s after unsubscribe returned" % (what, (late[0].t - s.u1) / S9))
    ctx.count("events", len(evs))
    ctx.distinct(("wild" if "*" in s.ev else "row" if ".T." in s.ev else "prop", s.i, s.d, s.pos, "done" if fin else "ended", min(len(ivs), 6), fail, s.a.name[:4]))


def initial(ctx, k, steps):
    """Initial values, with the provider publishing and storing at the same time."""
    rng = ctx.rng
    ctx.start_broker()
    pre = "In%d" % k
    p = ctx.comp("prov")
    T = pre + ".T."
    p.ok("reg 0 7 %s.P p gse %s.Q p gs %s.T.{i}. t ar %s.T.{i}.P p gs %s.T.{i}.Q p gse %s.W p s %s.E e e" % ((pre,) * 7))
    m = Model(ctx, p, pre)
    m.store(pre + ".P")
    m.store(pre + ".Q")
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)] + [p]
    stop = threading.Event()
    sent = []

    def publisher():
        i = 0
        while not stop.is_set():
            i += 1
            r = p.call("pub 0 %s.P 3 ~(n=i32:%d)" % (pre, i), 5)
            time.sleep(rng2.random() * 0.004)
    import random
    rng2 = random.Random(k)
    th = threading.Thread(target=publisher)
    th.start()
    ud = 0
    try:
        for step in range(steps):
            ud += 1
            a = rng.choice(cs)
            ev = rng.choice([pre + ".P", pre + ".P", pre + ".Q", T, T + "*.P", T + "*.Q", pre + ".W"])
            if rng.random() < 0.3:
                if m.live(T) and rng.random() < 0.45:
                    m.remrow(T, rng.choice(m.live(T)))
                else:
                    m.addrow(T)
            if m.live(T) and rng.random() < 0.3:
                ev = "%s%d.%s" % (T, rng.choice(m.live(T)), rng.choice("PQ"))
            m.store(pre + ".P")
            m.store(pre + ".Q")
            if rng.random() < 0.1 and ev == pre + ".Q":
                p.ok("cfg %s get_rc 1" % ev)
                bad = True
            else:
                bad = ev == pre + ".W"
            mark = a.mark()
            r = a.call("subex 0 0 5 1 %s ! 0 0 1 %d" % (ev, ud))
            ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc))
            if ev == pre + ".P":
                time.sleep(0.006)
            a.sync()
            if bad:
                p.ok("cfg %s get_rc 0" % ev)
            q = a.call("unsubex 0 0 5 1 %s ! 0 0 1 %d" % (ev, ud))
            ctx.check(q.rc == 0, "unsub-failed", "%s returned %d" % (q.cmd, q.rc))
            evs = [e for e in a.evs("ev", mark) if e[1] == str(ud)]
            ini = [e for e in evs if e[3] == "4"]
            if bad:
                ctx.check(not ini, "initial-without-value", lambda: "%s: unreadable, but got %s" % (ev, list(ini[0])))
                continue
            if not ctx.check(len(ini) == 1 and evs[0] is ini[0], "initial-event", lambda: "%s of %s: got types %s, exactly one initial event first is due" % (a.name, ev, [e[3] for e in evs][:8])):
                return
            o = ini[0][4]
            ctx.check(ini[0].t <= r.t1, "initial-late", "initial event of %s after subscribe returned" % ev)
            if ev == T:
                ps = parse(o)
                want = [("numberOfEntries", "i32:%d" % len(m.live(T)))] + [("path%d" % n, "str:%s%d." % (T, n)) for n in m.live(T)]
                ctx.check(sorted(ps) == sorted(want) and ps[:1] == want[:1], "initial-table", lambda: "initial event of %s: %s, rows %s" % (T, o, m.live(T)))
            elif "*" in ev:
                m.check_wild(T, ev[-1], o, r.t0, r.t1, "initial value")
            else:
                ps = parse(o)
                ctx.check(len(ps) == 1 and ps[0][0] == "initialValue" and m.hist[ev].current(ps[0][1], r.t0, r.t1), "initial-value", lambda: "initial value of %s is %s, history %s" % (ev, o, [x[2] for x in m.hist[ev].h[-4:]]))
            ctx.count("initial_events")
            ctx.distinct(("initial", ev.replace(pre, ""), len(m.live(T)), a is p, len(evs) > 1))
            if ctx.failed:
                return
    finally:
        stop.set()
        th.join()
    for a in cs[::-1]:
        a.ok("close 0")
