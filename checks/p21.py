"""P21: subscribers and providers of events, row events, wildcards, value changes (with filters) and intervals are killed, closed, opened again and restarted in random order (idle, amid bursts of subscribing, amid bursts of publishing, at any byte of writing the subscription cache); before and after, every event published must reach exactly the living subscriptions, once, and the returned provider's subscription handler must be told of exactly those. Calls made while the provider is away must return an error in time."""
import os, time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (how the provider or subscriber ended, subscriptions in place, what happened meanwhile, kinds of subscription) combinations"
GENERAL, NOTFOUND, TIMEOUT = 3, 5, 20
AWAY = (5, 6, 7, 1, 20)


def plan(tier):
    q = tier == "quick"
    n = 4 if q else 14
    return [{"fn": "restart", "args": {"k": i, "rounds": 7 if q else 60}} for i in range(n)] + \
           [{"fn": "storm", "args": {"k": i, "rounds": 7 if q else 60}} for i in range(2 if q else 10)] + \
           [{"fn": "subscriber", "args": {"k": i, "rounds": 12 if q else 100}} for i in range(2 if q else 10)] + \
           [{"fn": "torn", "args": {"k": i, "rounds": 9 if q else 90}} for i in range(2 if q else 8)] + \
           [{"fn": "rawaway", "args": {"k": 0}}] + \
           [{"fn": "timed", "args": {"k": i, "rounds": 2 if q else 12}} for i in range(2 if q else 6)]


class Prov:
    """The provider with its data model; up() starts it (or opens it again) in a random order of registrations."""
    ELS = ["Rs.E0 e e", "Rs.E1 e e", "Rs.Obj.E2 e e", "Rs.Obj.E3! e e", "Rs.P0 p gse", "Rs.P1 p gse", "Rs.T.{i}. t ar", "Rs.T.{i}.E e e", "Rs.T.{i}.P p gse"]

    def __init__(self, ctx, name="prov"):
        self.ctx, self.rng, self.name = ctx, ctx.rng, name
        self.n, self.a = 0, None
        self.rows = [1, 2, 7]
        self.vals = {}
        self.up()

    def up(self):
        rng = self.rng
        if self.a is None:
            self.n += 1
            self.a = self.ctx.agent("%s_run%d" % (self.name, self.n))
        a = self.a
        self.m = a.mark()
        a.ok("open 0 %s" % self.name)
        els = list(self.ELS)
        if rng.random() < 0.5:
            i = els.index("Rs.T.{i}. t ar")
            rest = els[:i]
            rng.shuffle(rest)
            els = rest + els[i:] if rng.random() < 0.5 else els[i:] + rest
        for n, v in self.vals.items():
            a.ok("store %s %s" % (n, v))
        i = 0
        while i < len(els):
            k = rng.choice([1, 2, len(els)])
            part = els[i:i + k]
            # a table and its elements stay together, so that rows get all of them
            a.ok("reg 0 %d %s" % (len(part), " ".join(part)))
            i += k
        for r in self.rows:
            a.ok("regrow 0 Rs.T. %d !" % r)

    def down(self, how):
        if how == "kill":
            self.a.kill()
            self.a = None
        else:
            self.a.ok("close 0")
            if how == "exit":
                self.a.expected_death = True
                self.a.p.stdin.close()
                self.a.p.wait(60)
                self.a = None

    def seen(self):
        """What the subscription handler was told since up()."""
        self.a.sync()
        return sorted((int(e[1]), unpct(e[2]), e[3], int(e[4])) for e in self.a.evs("subh", self.m))


EVENTS = ["Rs.E0", "Rs.E1", "Rs.Obj.E2", "Rs.Obj.E3!", "Rs.T.1.E", "Rs.T.2.E", "Rs.T.7.E"]


class Sub:
    def __init__(self, a, h, ev, f, i, kind, ud):
        self.a, self.h, self.ev, self.f, self.i, self.kind, self.ud = a, h, ev, f, i, kind, ud

    def key(self):
        return (self.a.name, self.h, self.ev, self.f, self.i, self.kind)

    def spec(self):
        return "%s %s %d 0 0 %d" % (self.ev, self.f, self.i, self.ud)

    def gets(self, ev):
        return self.ev == ev or ("*" in self.ev and ev.startswith("Rs.T.") and ev.endswith("." + self.ev.rsplit(".", 1)[1]))

    def __repr__(self):
        return "%s/%d %s %s i=%d kind=%d ud=%d" % (self.a.name, self.h, self.ev, self.f, self.i, self.kind, self.ud)


class Cons:
    """The subscribers and what they have subscribed to."""

    def __init__(self, ctx, n):
        self.ctx, self.rng = ctx, ctx.rng
        self.serial, self.ud = 0, 0
        self.hs, self.subs = [], []
        for _ in range(n):
            self.new()

    def new(self):
        self.serial += 1
        a = self.ctx.comp("cons%d" % self.serial)
        self.hs.append((a, 0))
        # calls under way to a provider that is killed end at their time limit
        a.ok("timeouts 0 2500 2500 4000 4000 2500")
        if self.rng.random() < 0.4:
            a.ok("open 1 cons%db" % self.serial)
            self.hs.append((a, 1))
            a.ok("timeouts 1 2500 2500 4000 4000 2500")
        return a

    def make(self, timed=False):
        rng = self.rng
        a, h = rng.choice(self.hs)
        self.ud += 1
        k = rng.random()
        if timed:
            if rng.random() < 0.5:
                return Sub(a, h, rng.choice(["Rs.P0", "Rs.P1", "Rs.T.1.P", "Rs.T.7.P"]), "!", 1, 0, self.ud)
            return Sub(a, h, rng.choice(["Rs.P0", "Rs.P1", "Rs.T.1.P", "Rs.T.2.P", "Rs.T.*.P"]), rng.choice(["!", "R0(i32:50)", "R4(i32:77)", "L2(R0(i32:50),!)"]), 0, 0, self.ud)
        ev = rng.choice(EVENTS + ["Rs.T.*.E"])
        if k < 0.2 and "*" not in ev:
            return Sub(a, h, ev, "!", 0, 1, self.ud)
        return Sub(a, h, ev, "!" if k < 0.7 else rng.choice(["R4(i32:1)", "R0(str:abc)", "L0(R1(i32:1),R3(i32:9))"]), 0, 0, self.ud)

    def find(self, s):
        return next((x for x in self.subs if x.key() == s.key()), None)

    def add(self, timed=False):
        s = self.make(timed)
        if self.find(s):
            return None
        r = s.a.call(self.cmd(s))
        if self.ctx.check(r.rc == 0, "subscribe", lambda: "%s returned %d" % (r.cmd, r.rc)):
            self.subs.append(s)
        return s

    def cmd(self, s, timeout=5):
        if s.f == "!" and s.i == 0:
            return "%s %d %s %d %d" % (["sub", "subraw"][s.kind], s.h, s.ev, s.ud, timeout)
        return "subex %d %d %d 1 %s" % (s.h, s.kind, timeout, s.spec())

    def uncmd(self, s):
        if s.f == "!" and s.i == 0:
            return "%s %d %s" % (["unsub", "unsubraw"][s.kind], s.h, s.ev)
        return "unsubex %d %d 0 1 %s" % (s.h, s.kind, s.spec())

    def remove(self, s):
        r = s.a.call(self.uncmd(s))
        self.ctx.check(r.rc == 0, "unsubscribe", lambda: "%s returned %d" % (r.cmd, r.rc))
        self.subs.remove(s)
        return r

    def lose(self, a, h=None):
        self.subs = [s for s in self.subs if not (s.a is a and (h is None or s.h == h))]
        self.hs = [x for x in self.hs if not (x[0] is a and (h is None or x[1] == h))]


def deliver(ctx, p, c, what, maybe=(), gone=()):
    """Publish every event once plain and once raw: each reaches exactly its subscriptions, once."""
    marks = {a: a.mark() for a in {h[0] for h in c.hs}}
    want, opt = {}, {}
    for ev in EVENTS:
        for raw in (0, 1):
            # a receiving process takes 25 messages at a time
            if raw:
                b = os.urandom(9).hex()
                p.a.call("pubraw 0 %s %s" % (ev, b))
            else:
                b = gen.obj(ctx.rng)
                p.a.call("pub 0 %s %d %s" % (ev, GENERAL, b))
            for s in c.subs:
                if s.kind == raw and s.gets(ev):
                    want.setdefault(s.a, []).append((s.ud, ev, b))
            for s in maybe:
                if s.kind == raw and s.gets(ev):
                    opt.setdefault(s.a, []).append((s.ud, ev, b))
            ctx.count("events_published")
        for a in marks:
            a.wait_ev(lambda e: e.kind in ("ev", "raw"), len(want.get(a, [])), 20, marks[a])
    time.sleep(0.1)
    for a, m in marks.items():
        a.sync()
        got = [(int(e[1]), unpct(e[2]) if e.kind == "ev" else unpct(e[2])[len("rawdata."):], e[4] if e.kind == "ev" else e[3]) for e in a.evs(None, m) if e.kind in ("ev", "raw")]
        left = list(got)
        for x in want.get(a, []):
            if x in left:
                left.remove(x)
            else:
                s = next(s for s in c.subs if s.ud == x[0])
                ctx.check(False, "not-delivered", "%s: %s of %s did not get %s" % (what, s, a.name, x[1]))
                return
        for x in opt.get(a, []):
            if x in left:
                left.remove(x)
        if not ctx.check(not left, "unasked-delivery", lambda: "%s: %s got %s beyond its subscriptions" % (what, a.name, left[:3])):
            return
    ctx.count("deliveries_expected", sum(len(w) for w in want.values()))


def told(ctx, p, c, what, also=()):
    """The subscription handler of the returned provider was told of exactly the subscriptions in force."""
    want = sorted((0, s.ev, s.f, s.i) for s in c.subs)
    end = time.time() + 3
    got = p.seen()
    while got != want and time.time() < end:
        time.sleep(0.1)
        got = p.seen()
    ctx.check(got == want, "handler-told", lambda: "%s: the provider's handler was told %s too many, %s missing" % (what, [g for g in got if got.count(g) > want.count(g)][:4], [g for g in want if want.count(g) > got.count(g)][:4]))


def away_calls(ctx, c):
    """Calls to a provider that is away end with an error, in time."""
    rng = ctx.rng
    a, h = rng.choice(c.hs)
    for cmd in rng.sample(["get %d Rs.P0" % h, "set %d Rs.P1 i32:1" % h, "getext %d 2 Rs.P0 Rs.T.1.P" % h, "getext %d 1 Rs." % h, "addrow %d Rs.T. !" % h, "remrow %d Rs.T.7" % h, "rownames %d Rs.T." % h, "inv %d Rs.Obj.M() ~(a=i32:1)" % h], 3):
        r = a.call(cmd)
        ok = r.rc != 0 or (cmd.startswith("getext") and r.payload[:1] == ["0"])
        ctx.check(ok, "call-while-away", lambda: "%s returned success while nobody provides it" % cmd)
        ctx.check(r.t1 - r.t0 < 15 * 10**9, "slow-while-away", lambda: "%s took %.1f s" % (cmd, (r.t1 - r.t0) / 1e9))
    if rng.random() < 0.3:
        r = a.call("sub %d Rs.E0.None 1 1" % h)
        ctx.check(r.rc != 0, "call-while-away", lambda: "subscribing to an unknown event returned success")


def restart(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 3)
    for rnd in range(rounds):
        for _ in range(rng.randint(0, 9)):
            if c.subs and rng.random() < 0.35:
                c.remove(rng.choice(c.subs))
            elif len(c.subs) < 22:
                c.add()
        if rng.random() < 0.12:       # nobody is left when the provider goes
            for s in list(c.subs):
                c.remove(s)
        if rng.random() < 0.5:
            deliver(ctx, p, c, "round %d before" % rnd)
        how = rng.choice(["kill", "kill", "kill", "exit", "close"])
        if rng.random() < 0.3:
            futs = [x[0].send("get %d Rs.P0" % x[1], 1) for x in c.hs]
        else:
            futs = []
        had = len(c.subs)
        p.down(how)
        for f in futs:
            f.wait(60)
        time.sleep(rng.choice([0.03, 0.1]))
        mean = set()
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            op = rng.choice(["unsub", "unsub", "kill", "close", "calls", "calls", "again"])
            mean.add(op)
            if op == "unsub" and any(not s.kind for s in c.subs):
                # (raw ones: see the known finding, part rawaway)
                c.remove(rng.choice([s for s in c.subs if not s.kind]))
            elif op == "kill" and len({h[0] for h in c.hs}) > 1:
                a = rng.choice(c.hs)[0]
                a.kill()
                c.lose(a)
                ctx.count("kills")
            elif op == "close" and len({h[0] for h in c.hs}) > 1:
                a, h = rng.choice(c.hs)
                if h == 0 and (a, 1) in c.hs:
                    h = 1
                a.ok("close %d" % h)
                c.lose(a, h)
            elif op == "calls":
                away_calls(ctx, c)
            elif op == "again" and c.subs:
                # a subscription in place cannot be made twice, and is not harmed by trying
                s = rng.choice(c.subs)
                r = s.a.call(c.cmd(s))
                ctx.check(r.rc == 24, "subscribe-again", lambda: "%s returned %d although subscribed" % (r.cmd, r.rc))
        p.up()
        ctx.count("restarts")
        what = "round %d (%s, meanwhile %s)" % (rnd, how, sorted(mean))
        deliver(ctx, p, c, what)
        if not mean & {"unsub"}:
            told(ctx, p, c, what)
        ctx.distinct((how, min(had, 12), tuple(sorted(mean)), tuple(sorted({(s.kind, s.f != "!", "*" in s.ev, ".T." in s.ev) for s in c.subs}))))
        if rnd == 1:
            ctx.sample("%s: %d subscriptions in place, e.g. %s" % (what, len(c.subs), c.subs[:3]))
        while len({h[0] for h in c.hs}) < 3:
            c.new()
        if ctx.failed:
            return


def rawaway(ctx, k):
    """A raw data subscription ended while its provider is away is not in force after the provider's return."""
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 1)
    a = c.hs[0][0]
    a.ok("subraw 0 Rs.E0 1 5")
    a.ok("subraw 0 Rs.E1 2 5")
    p.down("kill")
    time.sleep(0.1)
    a.ok("unsubraw 0 Rs.E0")
    c.subs.append(Sub(a, 0, "Rs.E1", "!", 0, 1, 2))
    p.up()
    deliver(ctx, p, c, "raw subscription ended while away")
    p.down("kill")
    p.up()
    deliver(ctx, p, c, "raw subscription ended while away")
    got = p.seen()
    ctx.check(got == [(0, "Rs.E1", "!", 0)], "raw-subscription-ended-while-provider-away", lambda: "the returned provider still has %s" % got)
    ctx.distinct(("rawaway",))


def storm(ctx, k, rounds):
    """The provider dies while subscriptions come and go: what was confirmed is in force afterwards."""
    rng = ctx.rng
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 3)
    for rnd in range(rounds):
        for _ in range(rng.randint(0, 6)):
            if len(c.subs) < 16:
                c.add()
        # every worker handles subscriptions of its own, one after the other
        jobs, maybe = [], []
        for w in range(6):
            mine, cur = [], {}
            s = None
            for _ in range(rng.randint(1, 4)):
                s = c.make()
                if c.find(s) or s.key() in cur or any(s.key() == j[0].key() for js in jobs for j in js):
                    continue
                cur[s.key()] = s
                mine.append((s, s.a.send(c.cmd(s, 1), w)))
                if rng.random() < 0.5:
                    mine.append((s, s.a.send(c.uncmd(s), w)))
            jobs.append(mine)
        old = []
        for s in rng.sample(c.subs, min(len(c.subs), 3)):
            old.append((s, s.a.send(c.uncmd(s), 9)))
        jobs.append(old)
        time.sleep(rng.random() * rng.choice([0.005, 0.03, 0.1]))
        p.down("kill")
        ctx.count("kills")
        for js in jobs:
            last = {}
            for s, f in js:
                r = f.wait(60)
                last[s] = (r, s in last)
                if s in c.subs:
                    c.subs.remove(s)
                    if r.rc != 0:
                        maybe.append(s)
                    continue
                if s in maybe:
                    maybe.remove(s)
                un = r.cmd.startswith("unsub")
                if not un and r.rc == 0:
                    maybe.append(s)      # decided below, once its unsubscription is known
                elif un and r.rc != 0 and last[s][1]:
                    maybe.append(s) if last.get(s) else None
            for s, (r, _) in last.items():
                if not r.cmd.startswith("unsub") and r.rc == 0:
                    if s in maybe:
                        maybe.remove(s)
                    c.subs.append(s)
        time.sleep(0.03)
        p.up()
        ctx.count("restarts")
        deliver(ctx, p, c, "round %d" % rnd, maybe)
        ctx.distinct(("storm", min(len(c.subs), 20), len(maybe)))
        for s in maybe:
            s.a.call(c.uncmd(s))
        while len(c.subs) > 12:
            c.remove(rng.choice(c.subs))
        if ctx.failed:
            return


def subscriber(ctx, k, rounds):
    """Subscribers die amid bursts: the living get everything in order, once. (A provider keeps a dead subscriber on its list until it is restarted: the code that would take it off is switched off in rbus.c.)"""
    rng = ctx.rng
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 3)
    for rnd in range(rounds):
        while len({h[0] for h in c.hs}) < 3:
            c.new()
        for _ in range(rng.randint(2, 8)):
            if len(c.subs) < 14:
                c.add()
        victim = rng.choice(c.hs)[0]
        n = rng.randint(1, 12)
        ev = rng.choice([s.ev for s in c.subs] or ["Rs.E0"])
        ev = ev.replace("*", "1")
        rest = [s for s in c.subs if s.a is not victim and s.kind == 0 and s.gets(ev)]
        marks = {s.a: s.a.mark() for s in rest}
        mode = rng.choice(["idle", "publishing", "publishing", "slow", "subscribing"])
        if mode == "publishing":
            f = p.a.send("pubn 0 %s %d 1 %d %d %d" % (ev, GENERAL, n, rnd, rng.choice([0, 200, 2000])), 1)
            time.sleep(rng.random() * 0.01)
        elif mode == "slow":
            victim.send("get 0 Rs.P0", 2)
            f = p.a.send("pubn 0 %s %d 1 %d %d 0" % (ev, GENERAL, n, rnd), 1)
        elif mode == "subscribing":
            f = p.a.send("pubn 0 %s %d 1 %d %d 100" % (ev, GENERAL, n, rnd), 1)
            for w in range(4):
                s = c.make()
                s.a, s.h = victim, 0
                if not c.find(s):
                    victim.send(c.cmd(s), w)
            time.sleep(rng.random() * 0.01)
        else:
            f = None
        victim.kill()
        ctx.count("kills")
        dead = [s for s in c.subs if s.a is victim]
        c.lose(victim)
        if f:
            f.wait(60)
            for a in marks:
                uds = [s.ud for s in rest if s.a is a]
                a.wait_ev(lambda e: e.kind == "ev" and int(e[1]) in uds, n * len(uds), 20, marks[a])
                for u in uds:
                    got = [e[4] for e in a.evs("ev", marks[a]) if int(e[1]) == u]
                    ctx.check(len(got) == n and len(set(got)) == n and [int(g.split("i32:")[1].split(",")[0].rstrip(")")) for g in got] == list(range(1, n + 1)), "burst", lambda: "%s subscription %d got %s of %d events while another subscriber died" % (a.name, u, got[-3:], n))
        deliver(ctx, p, c, "round %d after a subscriber died %s" % (rnd, mode))
        ctx.distinct(("subscriber", mode, len(dead), min(len(c.subs), 10)))
        if ctx.failed:
            return


def torn(ctx, k, rounds):
    """The provider dies at some byte of writing its subscription cache: what had been confirmed is in force after its return."""
    rng = ctx.rng
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 2)
    for rnd in range(rounds):
        while len(c.subs) < rng.randint(2, 8):
            c.add()
        while len(c.subs) > 12:
            c.remove(rng.choice(c.subs))
        size = os.path.getsize("/tmp/rbus_subs_prov") if os.path.exists("/tmp/rbus_subs_prov") else 0
        p.a.expected_death = True
        cut = rng.choice([0, rng.randint(0, size + 60), rng.randint(0, size + 60), size])
        p.a.call("fsize %d" % cut)
        maybe, sure = [], list(c.subs)
        if rng.random() < 0.6 or not c.subs:
            while True:
                s = c.make()
                if not c.find(s):
                    break
            r = s.a.call(c.cmd(s, 1))
            op = "subscribe"
            if r.rc == 0:
                c.subs.append(s)
            else:
                maybe.append(s)
        else:
            s = rng.choice(c.subs)
            r = s.a.call(c.uncmd(s))
            op = "unsubscribe"
            c.subs.remove(s)
            if r.rc != 0:
                maybe.append(s)
        died = False
        for _ in range(20):
            if p.a.p.poll() is not None:
                died = True
                break
            time.sleep(0.01)
        if not died:
            p.a.call("fsize -")
            p.down("kill")
        else:
            p.a.p.wait()
            p.a = None
            ctx.count("died_writing")
        time.sleep(0.03)
        p.up()
        ctx.count("restarts")
        # a cut cache may also have kept a subscription whose subscriber was told of a failure; it does not get anything
        deliver(ctx, p, c, "round %d (cut at byte %d of about %d during %s, died %s)" % (rnd, cut, size, op, died), maybe)
        ctx.distinct(("torn", died, op, len(c.subs), 0 if not cut else (cut < size)))
        for s in maybe:
            s.a.call(c.uncmd(s))
        if ctx.failed:
            return


def timed(ctx, k, rounds):
    """Value-change and interval subscriptions survive the provider's restart with their filters and intervals."""
    rng = ctx.rng
    ctx.start_broker()
    p = Prov(ctx)
    c = Cons(ctx, 2)
    for rnd in range(rounds):
        for _ in range(rng.randint(3, 8)):
            if len(c.subs) < 14:
                c.add(timed=True)
        if c.subs and rng.random() < 0.4:
            c.remove(rng.choice(c.subs))
        names = ["Rs.P0", "Rs.P1", "Rs.T.1.P", "Rs.T.2.P", "Rs.T.7.P"]
        for n in names:
            p.vals[n] = "i32:10"
            p.a.ok("store %s i32:10" % n)
        time.sleep(2.5)
        p.down(rng.choice(["kill", "kill", "exit", "close"]))
        time.sleep(0.05)
        p.up()
        ctx.count("restarts")
        told(ctx, p, c, "round %d" % rnd)
        time.sleep(2.5)
        marks = {a: a.mark() for a in {h[0] for h in c.hs}}
        for v in (77, 10):
            for n in names:
                p.vals[n] = "i32:%d" % v
                p.a.ok("store %s i32:%d" % (n, v))
            time.sleep(3.2)
        for s in c.subs:
            s.a.sync()
            evs = [e for e in s.a.evs("ev", marks[s.a]) if int(e[1]) == s.ud]
            ns = [n for n in names if s.gets(n) or (s.ev == "Rs.T.*.P" and n.startswith("Rs.T."))]
            if s.i:
                iv = [e for e in evs if e[3] == "5"]
                ctx.check(3 <= len(iv) <= 9, "interval-after-restart", lambda: "%s: %d interval events in 6.4 s" % (s, len(iv)))
            else:
                for n in ns:
                    vc = [e for e in evs if e[3] == "2" and unpct(e[2]) == n]
                    ctx.check(len(vc) == 2, "value-change-after-restart", lambda: "%s: %d events for two changes of %s (types %s)" % (s, len(vc), n, [e[3] for e in evs]))
        ctx.distinct(("timed", len(c.subs), tuple(sorted({(s.i, s.f[:2], "*" in s.ev) for s in c.subs}))))
        if ctx.failed:
            return
