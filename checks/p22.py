"""P22: several consumers open and close direct connections to elements of several providers (from several handles of one process, with the same and other elements, from any thread) while gets, sets, method calls (answered at once and deferred), table operations, and plain and raw events run on these elements. The oracles are those of the brokered path: registers are linearizable, every method call runs once and answers with its own result, rows and row names are what the table holds, every event published while nothing is switched arrives exactly once and in order, and none twice ever. With the broker stopped (SIGSTOP) everything that a direct connection carries goes on working. Providers and consumers are killed, closed and started again under way: calls end, later ones are answered over the broker, and the survivors hold no more memory, descriptors or threads than before."""
import os, signal, time
from lib.vlib import pct, unpct
from lib import vlib
from checks import p19
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one operation on an element with or without direct connection; distinct = (operation, direct, same process opened it elsewhere, switching under way, outcome) combinations and fault points"


def prepare():
    vlib.Variant("asan").preload("heapmon.c")


def plan(tier):
    q = tier == "quick"
    return [{"fn": "methods", "args": {"k": i, "rounds": 22 if q else 250}} for i in range(2 if q else 8)] + \
           [{"fn": "data", "args": {"k": i, "rounds": 40 if q else 500}} for i in range(3 if q else 12)] + \
           [{"fn": "events", "args": {"k": i, "rounds": 14 if q else 150}} for i in range(2 if q else 10)] + \
           [{"fn": "death", "args": {"k": i, "rounds": 4 if q else 40}} for i in range(3 if q else 12)] + \
           [{"fn": "leak", "args": {"k": i, "rounds": 14 if q else 120}} for i in range(1 if q else 2)]


class Directs:
    """The direct connections of the consumers: (agent, element) -> handle index. Each agent has one per element at most."""

    def __init__(self, ctx, agents, names, rng, handles=1):
        self.ctx, self.agents, self.names, self.rng, self.handles = ctx, agents, names, rng, handles
        self.open = {a: {} for a in agents}
        self.free = {a: list(range(20, 60)) for a in agents}

    def step(self, a, n=None, worker=40):
        """Opens or closes one."""
        rng, o = self.rng, self.open[a]
        n = n or rng.choice(self.names)
        if n in o:
            if rng.random() < 0.15:
                self.ctx.check(a.call("opendirect %d 60 %s" % (rng.randrange(self.handles), n), worker).rc == 14, "opened-twice", lambda: "a second direct connection of %s to %s" % (a.name, n))
                self.ctx.distinct(("open", "again"))
                return
            a.ok("closedirect %d" % o[n], worker)
            self.free[a].append(o.pop(n))
            self.ctx.distinct(("close", len(o) > 0))
        elif self.free[a]:
            h = self.free[a].pop()
            r = a.call("opendirect %d %d %s" % (rng.randrange(self.handles), h, n), worker)
            self.ctx.check(r.rc == 0, "open-failed", lambda: "%s: rbus_openDirect of %s returned %d" % (a.name, n, r.rc))
            if r.rc == 0:
                o[n] = h
            self.ctx.distinct(("open", len(o)))
        self.ctx.count("switches")

    def set(self, a, n, on):
        if (n in self.open[a]) != on:
            self.step(a, n)

    def none(self, a):
        for n in list(self.open[a]):
            self.step(a, n)
            self.set(a, n, False)

    def all_closed(self):
        for a in self.agents:
            self.none(a)


def methods(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    provs, meths, absent = p19.setup(ctx, rng)
    cs = [ctx.comp("cons" + "12"[:i]) for i in range(2)]
    cs[0].ok("open 1 consx")
    d = Directs(ctx, cs, [m for m in meths if ".T." not in m] + rng.sample([m for m in meths if ".T." in m and "[" not in m], 2), rng)
    for m in [x for x in absent if not x.endswith((".P", ".E!", ".H()"))][:4]:
        r = cs[0].call("opendirect 0 60 " + m)
        ctx.check(r.rc == 16, "open-absent", lambda: "rbus_openDirect of %s returned %d" % (m, r.rc))
    n, calls = 0, []
    for rnd in range(rounds):
        still = rng.random() < 0.35
        tog = []
        if not still and rnd:
            # switching goes on next to the calls
            a = rng.choice(cs)
            tog = [a]
        elif not still:
            for a in cs:
                for m in rng.sample(d.names, 6):
                    d.set(a, m, True)
        stopped = still and any(d.open[a] for a in cs) and rng.random() < 0.5
        if stopped:
            os.kill(ctx.broker.pid, signal.SIGSTOP)
            time.sleep(0.01)
        futs = []
        lanes = [(a, w, h) for a in cs for w in range(5) for h in ([0, 1] if a is cs[0] else [0])]
        for a, w, h in rng.sample(lanes, rng.choice([1, 4, 9])):
            n += 1
            c = p19.make(ctx, rng, n, meths if not stopped else list(d.open[a]) or ["-"], absent)
            if stopped and (c.meth not in d.open[a]):
                if not d.open[a]:
                    continue
                c.meth = rng.choice(list(d.open[a]))
                c.there = True
            elif not stopped and d.open[a] and rng.random() < 0.6:
                c.meth, c.there = rng.choice(list(d.open[a])), True
            c.kind = ("direct" if c.meth in d.open[a] else "brokered") + ("-still" if still else "") + ("-stopped" if stopped else "")
            calls.append(c)
            futs.append((a, c, a.send("inv %d %s %s" % (h, c.meth, c.obj), w)))
        for a in tog:
            for i in range(rng.choice([1, 2, 3])):
                d.step(a)
        for a, c, f in futs:
            r = f.wait()
            ctx.count("calls")
            p19.expect(ctx, c, r.rc, r.payload[0] if r.payload else None, a.name + " " + c.kind)
        if stopped:
            os.kill(ctx.broker.pid, signal.SIGCONT)
            ctx.count("broker_stops")
        if ctx.failed:
            return
    p19.handled(ctx, provs, calls)
    d.all_closed()
    for a in cs + provs:
        a.ok("close 0")


def data(ctx, k, rounds):
    """Registers with one writer each, read by everybody, and a table that one consumer changes."""
    rng = ctx.rng
    ctx.start_broker()
    provs, regs = [], []
    for i in range(2):
        p = ctx.comp("prov%d" % i)
        if i == 0:
            p.ok("open 1 provx")
        ps = ["Dd%d.P%d" % (i, j) for j in range(3)]
        p.ok("reg 0 5 %s Dd%d.T.{i}. t are Dd%d.T.{i}.V p gs" % (" ".join(n + " p gs" for n in ps), i, i))
        regs += ps
        if i == 0:
            p.ok("reg 1 2 Dx.P0 p gs Dx.P1 p gs")
            regs += ["Dx.P0", "Dx.P1"]
        provs.append(p)
    rows = {}
    for i in (0, 1):
        rows["Dd%d.T." % i] = [int(provs[i].ok("addrow 0 Dd%d.T. !" % i).payload[0]) for _ in range(2)]
        regs.append("Dd%d.T.%d.V" % (i, rows["Dd%d.T." % i][0]))
    for r in regs:
        [p for p in provs if r[:3] == "Dx." and p is provs[0] or r[:3] == "Dd%d" % provs.index(p)][0].ok("store %s i32:0" % r)
    cs = [ctx.comp("cons%d" % i) for i in range(3)]
    cs[0].ok("open 1 consx")
    d = Directs(ctx, cs, regs + list(rows), rng)
    writes = {r: [(0, 0, 0)] for r in regs}   # (t0, t1, value)
    owner = {r: rng.choice(cs) for r in regs}
    sess = 0
    for rnd in range(rounds):
        still = rng.random() < 0.3
        if rnd == 0:
            for a in cs:
                for m in rng.sample(d.names, 5):
                    d.set(a, m, True)
        stopped = still and rng.random() < 0.5
        if stopped:
            os.kill(ctx.broker.pid, signal.SIGSTOP)
            time.sleep(0.01)
        futs, busy = [], set()
        for a in cs:
            for w in range(rng.choice([1, 3, 4])):
                h = rng.choice([0, 1]) if a is cs[0] else 0
                own = [r for r in regs if owner[r] is a and r not in busy and (not stopped or r in d.open[a])]
                can = [r for r in regs if not stopped or r in d.open[a]]
                if own and rng.random() < 0.5:
                    r = rng.choice(own)
                    busy.add(r)
                    v = writes[r][-1][2] + 1
                    futs.append((a, r, v, a.send("set %d %s i32:%d" % (h, r, v), w)))
                elif can:
                    r = rng.choice(can)
                    futs.append((a, r, None, a.send("get %d %s" % (h, r), w)))
        if not still:
            a = rng.choice(cs)
            for i in range(rng.choice([1, 2, 4])):
                d.step(a)
        new = []
        for a, r, v, f in futs:
            x = f.wait()
            ctx.count("calls")
            how = "%s %s %s%s" % ("direct" if r in d.open[a] else "brokered", "set" if v else "get", "still" if still else "switching", "-stopped" if stopped else "")
            if not ctx.check(x.rc == 0, "call-failed", lambda: "%s: %s returned %d (%s)" % (a.name, x.cmd, x.rc, how)):
                continue
            ctx.distinct((how, a is owner[r], r[:2]))
            if v:
                writes[r].append((x.t0, x.t1, v))
            else:
                new.append((a, r, x, how))
        if stopped:
            os.kill(ctx.broker.pid, signal.SIGCONT)
            ctx.count("broker_stops")
        for a, r, x, how in new:
            got = int(x.payload[0][4:]) if x.payload and x.payload[0].startswith("i32:") else None
            lo = max(v for t0, t1, v in writes[r] if t1 <= x.t0)
            hi = max(v for t0, t1, v in writes[r] if t0 <= x.t1)
            ctx.check(got is not None and lo <= got <= hi, "stale-value", lambda: "%s read %s of %s, which was %d to %d then (%s)" % (a.name, x.payload, r, lo, hi, how))
        # the tables, changed by the first consumer alone
        t = rng.choice(list(rows))
        a = cs[0]
        dirn = t in d.open[a]
        if len(rows[t]) > 1 and rng.random() < 0.5:
            n = rng.choice(rows[t][1:])
            a.ok("remrow 0 %s%d" % (t, n))
            rows[t].remove(n)
        else:
            al = "al%d" % rnd
            n = int(a.ok("addrow 0 %s %s" % (t, al)).payload[0])
            ctx.check(n not in rows[t], "row-number", lambda: "rbusTable_addRow(%s) answered %d, which is there" % (t, n))
            rows[t].append(n)
            v = a.ok("get 0 %s%d.V" % (t, n)).payload
        for b in cs:
            r = b.ok("rownames 0 %s" % t)
            got = sorted(int(x) for x in r.payload[1::3])
            ctx.check(got == sorted(rows[t]), "row-names", lambda: "%s sees the rows %s of %s, which has %s" % (b.name, r.payload, t, rows[t]))
            ctx.distinct(("rows", dirn, t in d.open[b]))
        # several of one provider's elements at once
        r = rng.choice(cs).call("getext 0 2 Dx.P0 Dx.P1")
        ctx.check(r.rc == 0 and [int(x[4:]) for x in r.payload[2::2]] == [writes["Dx.P0"][-1][2], writes["Dx.P1"][-1][2]], "getext", lambda: "rbus_getExt: %d %s, values are %d %d" % (r.rc, r.payload, writes["Dx.P0"][-1][2], writes["Dx.P1"][-1][2]))
        if ctx.failed:
            return
    d.all_closed()
    for r in regs:
        x = cs[1].ok("get 0 " + r)
        ctx.check(x.payload[0] == "i32:%d" % writes[r][-1][2], "stale-value", lambda: "%s is %s, was set to %d" % (r, x.payload, writes[r][-1][2]))
    for a in cs + provs:
        a.ok("close 0")


def events(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    provs, evs = [], {}
    for i in range(2):
        p = ctx.comp("prov%d" % i)
        p.ok("reg 0 4 Ev%d.A! e e Ev%d.B! e e Ev%d.C! e - Ev%d.P p gse" % (i, i, i, i))
        for x in "ABC":
            evs["Ev%d.%s!" % (i, x)] = p
        provs.append(p)
    cs = [ctx.comp("cons%d" % i) for i in range(2)]
    cs[0].ok("open 1 consx")
    d = Directs(ctx, cs, list(evs), rng)
    subs = {}    # (agent, handle, event, raw) -> ud
    ud = 0
    num = 0
    for rnd in range(rounds):
        # change subscriptions and connections
        for i in range(rng.choice([1, 3, 6])):
            a = rng.choice(cs)
            h = rng.choice([0, 1]) if a is cs[0] else 0
            e, raw = rng.choice(list(evs)), rng.random() < 0.4
            key = (a, h, e, raw)
            if key in subs:
                a.ok("unsub%s %d %s" % ("raw" if raw else "", h, e))
                del subs[key]
            else:
                ud += 1
                a.ok("sub%s %d %s %d 5" % ("raw" if raw else "", h, e, ud))
                subs[key] = ud
            ctx.distinct(("subscribe", key in subs, raw, h, e in d.open[a]))
        mark = {a: a.mark() for a in cs}
        want = {}
        storm = rng.random() < 0.4
        if not storm:
            for a in cs:
                for i in range(rng.choice([0, 1, 2, 3])):
                    d.step(a)
            time.sleep(0.05)
        stopped = not storm and rng.random() < 0.4
        pubs = {}
        if stopped:
            os.kill(ctx.broker.pid, signal.SIGSTOP)
            time.sleep(0.01)
        for burst in range(rng.choice([1, 2, 4])):
            for e in rng.sample(list(evs), rng.choice([1, 3, 6])):
                if e not in [x[2] for x in subs]:
                    continue
                for j in range(rng.choice([1, 3])):
                    num += 1
                    raw = rng.random() < 0.4
                    if not any(x[2] == e and x[3] == raw for x in subs):
                        continue
                    r = evs[e].call("pubraw 0 %s %08x" % (e, num) if raw else "pub 0 %s 3 ~(n=i32:%d)" % (e, num))
                    ctx.check(r.rc == 0, "publish-failed", lambda: "%s returned %d" % (r.cmd, r.rc))
                    pubs.setdefault((e, raw), []).append(num)
                    ctx.count("published")
            if storm:
                d.step(rng.choice(cs))
        # whatever is subscribed gets all of it
        slow = []
        for key, u in subs.items():
            a, h, e, raw = key
            exp = pubs.get((e, raw), [])
            if stopped and (e not in d.open[a] or raw and h != 0):
                slow.append((key, u, exp))
                continue
            check_events(ctx, a, key, u, exp, mark[a], storm, d, "stopped" if stopped else "")
        if stopped:
            # raw data reaches the other handles of a process over the broker
            os.kill(ctx.broker.pid, signal.SIGCONT)
            ctx.count("broker_stops")
            for key, u, exp in slow:
                check_events(ctx, key[0], key, u, exp, mark[key[0]], storm, d, "resumed")
        time.sleep(0.1)
        for a in cs:
            a.sync()
            have = [(int(e[1]), tuple(e)) for e in a.evs(None, mark[a]) if e.kind in ("ev", "raw")]
            seen = [(u, val(x)) for u, x in have]
            ctx.check(len(set(seen)) == len(seen), "event-twice", lambda: "%s got %s twice" % (a.name, [x for x in seen if seen.count(x) > 1][:4]))
            ctx.check(all(u in subs.values() for u, x in seen), "event-unsubscribed", lambda: "%s got events of ended subscriptions: %s" % (a.name, seen[-5:]))
        if ctx.failed:
            return
    d.all_closed()
    for a in cs + provs:
        a.ok("close 0")


def val(e):
    t = e[3] if len(e) == 4 else e[4]
    return int(t.split("n=i32:")[1].split(",")[0].rstrip(")")) if "n=i32:" in t else int(t, 16)


def check_events(ctx, a, key, u, exp, since, storm, d, how):
    a_, h, e, raw = key
    kind = "raw" if raw else "ev"
    mine = lambda x: x.kind == kind and int(x[1]) == u
    if storm:
        time.sleep(0.02)
        got = [val(x) for x in a.evs(kind, since) if mine(x)]
        ctx.check(set(got) <= set(exp), "event-wrong", lambda: "%s got %s on %s, published %s" % (a.name, got, e, exp))
        ctx.count("received", len(got))
        return
    got = [val(x) for x in a.wait_ev(mine, len(exp), 15, since)]
    ctx.count("received", len(got))
    ctx.distinct(("event", kind, e in d.open[a], h, how, min(len(exp), 3)))
    ctx.check(got == exp, "event-lost", lambda: "%s subscription %d to %s (%s, %s, %s) got %s, published %s" % (a.name, u, e, kind, "direct" if e in d.open[a] else "brokered", how, got, exp))
    bad = [x for x in a.evs(kind, since) if mine(x) and unpct(x[2]) != ("rawdata." + e if raw else e)]
    ctx.check(not bad, "event-name", lambda: "%s got %s for %s" % (a.name, list(bad[0]), e))


def death(ctx, k, rounds):
    """Providers and consumers end in every way under way, and come back."""
    rng = ctx.rng
    ctx.start_broker()

    def provider(i):
        p = ctx.comp("prov%d" % i)
        p.ok("reg 0 4 De%d.P p gs De%d.M() m m De%d.E! e e De%d.Q p gs" % (i, i, i, i))
        p.ok("open 1 second%d" % i)
        p.ok("reg 1 2 Df%d.P p gs Df%d.M() m m" % (i, i))
        return p
    els = lambda i: ["De%d.P" % i, "De%d.M()" % i, "De%d.E!" % i, "Df%d.P" % i, "Df%d.M()" % i]
    provs = [provider(i) for i in range(2)]
    keep = ctx.comp("keeper")
    dk = Directs(ctx, [keep], els(0) + els(1), rng)
    c = None
    for rnd in range(rounds):
        if c is None:
            c = ctx.comp("cons")
        d = Directs(ctx, [c], els(0) + els(1), rng)
        for a, x in ((c, d), (keep, dk)):
            for n in rng.sample(x.names, rng.choice([2, 4, 8])):
                x.set(a, n, True)
        c.call("sub 0 De0.E! 7 5")
        what = rng.choice(["kill-provider", "end-provider", "close-component", "kill-consumer", "end-consumer", "close-consumer", "stall-consumer"])
        i = rng.choice([0, 1])
        c.ok("timeouts 0 3000 3000 3000 3000 3000")
        keep.ok("timeouts 0 3000 3000 3000 3000 3000")
        futs = []
        for a in (c, keep):
            for w in range(4):
                m = rng.choice(["get 0 De%d.P", "get 0 Df%d.P", "set 0 De%d.Q i32:3", "inv 0 De%d.M() ~(mode=i32:2,ms=i32:300)", "inv 0 Df%d.M() ~(mode=i32:0,ms=i32:200)", "inv 0 De%d.M() ~(mode=i32:2,ms=i32:10)"]) % i
                futs.append((a, m, a.send(m, w)))
        time.sleep(rng.choice([0, 0.001, 0.01, 0.1]))
        p = provs[i]
        ctx.distinct(("fault", what, len(d.open[c]) > 0, any(n[2] == str(i) for n in d.open[c])))
        ctx.count("faults")
        gone = None
        if what == "kill-provider":
            p.expected_death = True
            p.kill()
            gone = p
        elif what == "end-provider":
            p.expected_death = True
            p.p.stdin.close()
            p.p.wait(timeout=100)
            gone = p
        elif what == "close-component":
            p.call("close 1")
        elif what == "kill-consumer":
            c.expected_death = True
            c.kill()
            gone = c
        elif what == "end-consumer":
            c.expected_death = True
            c.p.stdin.close()
            c.p.wait(timeout=100)
            gone = c
        elif what == "close-consumer":
            # a handle is not closed by one thread while another uses it
            done = [(a, m, f.wait(60)) for a, m, f in futs if a is c]
            futs = [x for x in futs if x[0] is not c]
            ctx.check(all(r.rc == 0 for a, m, r in done), "call-result", lambda: str([(m, r.rc) for a, m, r in done]))
            c.ok("close 0")
        elif what == "stall-consumer":
            os.kill(c.p.pid, signal.SIGSTOP)
            for j in range(20):
                r = provs[0].call("pub 0 De0.E! 3 ~(n=i32:%d)" % j)
            os.kill(c.p.pid, signal.SIGCONT)
        for a, m, f in futs:
            if a is gone:
                continue
            r = f.wait(60)
            ok = (0, 1, 5, 6, 7, 11, 17, 20) if what not in ("stall-consumer",) else (0,)
            if a is keep and what in ("kill-consumer", "end-consumer", "close-consumer"):
                ok = (0,)
            ctx.check(r.rc in ok, "call-result", lambda: "%s: %s returned %d after %s" % (a.name, m, r.rc, what))
            ctx.count("calls")
            ctx.distinct(("under way", what, m[:3], r.rc))
        # who is left goes on
        if what in ("kill-provider", "end-provider"):
            j = 1 - i
            for a in (c, keep):
                ctx.check(a.call("get 0 De%d.P" % j).rc == 0, "other-provider", lambda: "after %s of the other" % what)
                t = time.monotonic()
                lim = t + 10
                while True:
                    r = a.call("get 0 De%d.P" % i)
                    if r.rc in (5, 17) or time.monotonic() > lim:
                        break
                ctx.check(r.rc in (5, 17), "gone-provider", lambda: "%s: %s returned %d after %s" % (a.name, r.cmd, r.rc, what))
            provs[i] = provider(i)
        elif what == "close-component":
            r = keep.call("get 0 Df%d.P" % i)
            ctx.check(r.rc in (5, 17), "closed-component", lambda: "%s returned %d after its component was closed" % (r.cmd, r.rc))
            p.ok("open 1 second%d" % i)
            p.ok("reg 1 2 Df%d.P p gs Df%d.M() m m" % (i, i))
        elif what == "close-consumer":
            for h in list(d.open[c].values()):
                c.call("closedirect %d" % h)
            c.ok("open 0 cons")
            d.open[c].clear()
        if gone is c:
            c = None
        # everything works again, over the broker or not
        for a in [x for x in (c, keep) if x]:
            for j in (0, 1):
                for m in ("set 0 De%d.P i32:%d" % (j, rnd), "get 0 De%d.P" % j, "inv 0 De%d.M() ~(mode=i32:2,ms=i32:5)" % j, "set 0 Df%d.P i32:%d" % (j, rnd), "get 0 Df%d.P" % j, "inv 0 Df%d.M() ~(mode=i32:0)" % j):
                    r = a.call(m)
                    if m.startswith("get"):
                        ctx.check(r.rc == 0 and r.payload[0] == "i32:%d" % rnd, "after-fault", lambda: "%s: %s returned %d %s after %s, was set to %d" % (a.name, m, r.rc, r.payload, what, rnd))
                    else:
                        ctx.check(r.rc == 0, "after-fault", lambda: "%s: %s returned %d after %s" % (a.name, m, r.rc, what))
        if c and rng.random() < 0.5:
            # the direct handles can be closed whatever happened, and opened again
            for n, h in list(d.open[c].items()):
                c.ok("closedirect %d" % h)
            d.open[c].clear()
            d.free[c] = list(range(20, 60))
            n = "De%d.P" % i
            c.ok("opendirect 0 59 " + n)
            os.kill(ctx.broker.pid, signal.SIGSTOP)
            r = c.call("get 0 " + n)
            os.kill(ctx.broker.pid, signal.SIGCONT)
            ctx.check(r.rc == 0, "reopened", lambda: "%s over the new direct connection returned %d after %s" % (n, r.rc, what))
            c.ok("closedirect 59")
        elif c:
            c.expected_death = True
            if rng.random() < 0.5:
                c.kill()
            else:
                c.p.stdin.close()
                c.p.wait(timeout=100)
            c = None
        for n, h in list(dk.open[keep].items()):
            keep.ok("closedirect %d" % h)
        dk.open[keep].clear()
        dk.free[keep] = list(range(20, 60))
        if ctx.failed:
            return
    for a in [c, keep] + provs:
        if a:
            a.ok("close 0")


def stat(a):
    r = a.ok("stat").payload
    return [int(x) for x in r[:3]]


def leak(ctx, k, rounds):
    """Cycles of opening, using and closing; dead consumers and providers leave nothing behind."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    c = ctx.comp("cons")
    p.ok("reg 0 3 Lk.P p gs Lk.E! e e Lk.M() m m")

    def cyc(w):
        if w == "open":
            c.ok("opendirect 0 20 Lk.P")
            c.ok("get 0 Lk.P")
            c.ok("set 0 Lk.P str:abc")
            c.ok("closedirect 20")
        elif w == "several":
            for i, n in enumerate(("Lk.P", "Lk.E!", "Lk.M()")):
                c.ok("opendirect 0 %d %s" % (20 + i, n))
            c.ok("inv 0 Lk.M() ~(mode=i32:2,ms=i32:1,a=str:xyz)")
            for i in (1, 0, 2):
                c.ok("closedirect %d" % (20 + i))
        elif w == "raw":
            c.ok("subraw 0 Lk.E! 4 5")
            c.ok("sub 0 Lk.E! 5 5")
            c.ok("opendirect 0 20 Lk.E!")
            m = c.mark()
            p.ok("pubraw 0 Lk.E! 1234")
            p.ok("pub 0 Lk.E! 3 ~(n=i32:1)")
            ctx.check(len(c.wait_ev(lambda e: e.kind in ("ev", "raw"), 2, 15, m)) == 2, "event-lost", "leak cycle")
            c.ok("closedirect 20")
            c.ok("unsubraw 0 Lk.E!")
            c.ok("unsub 0 Lk.E!")
        elif w == "raw-inside":
            c.ok("opendirect 0 20 Lk.E!")
            c.ok("subraw 0 Lk.E! 4 5")
            c.ok("unsubraw 0 Lk.E!")
            c.ok("closedirect 20")
        elif w == "refused":
            ctx.check(c.call("opendirect 0 20 Lk.None").rc == 16, "open-absent", "leak cycle")
            c.ok("opendirect 0 20 Lk.P")
            ctx.check(c.call("opendirect 0 21 Lk.P").rc == 14, "opened-twice", "leak cycle")
            c.ok("closedirect 20")
        elif w == "consumer-dies":
            x = ctx.comp("victim")
            x.ok("opendirect 0 20 Lk.P")
            x.ok("get 0 Lk.P")
            x.expected_death = True
            x.kill()
        elif w == "provider-dies":
            x = ctx.comp("victim")
            x.ok("reg 0 1 Lv.P p gs")
            c.ok("opendirect 0 20 Lv.P")
            c.ok("get 0 Lv.P")
            x.expected_death = True
            x.kill()
            c.ok("closedirect 20")
        ctx.count("cycles")
    for w in ("open", "several", "raw", "raw-inside", "refused", "consumer-dies", "provider-dies"):
        for i in range(3):
            cyc(w)
        n = rounds if "dies" not in w else max(4, rounds // 3)
        bad = []
        # growth counts if it goes on
        for again in range(4):
            time.sleep(0.3)
            b = [stat(p), stat(c)]
            for i in range(n):
                cyc(w)
            lim = time.monotonic() + 5
            while True:
                bad = []
                for who, x, y in (("provider", b[0], stat(p)), ("consumer", b[1], stat(c))):
                    if y[0] - x[0] > 24 * n or y[1] - x[1] > n // 3 or y[2] - x[2] > n // 3:
                        bad.append("%s: heap %+d, descriptors %+d, threads %+d in %d cycles of %s" % (who, y[0] - x[0], y[1] - x[1], y[2] - x[2], n, w))
                if not bad or time.monotonic() > lim:
                    break
                time.sleep(0.3)
            if not bad:
                break
        ctx.check(not bad, "leak", lambda: "; ".join(bad))
        left = [f for f in os.listdir("/tmp") if f.startswith(".direct_")]
        ctx.check(not left, "socket-left", lambda: "after %s: %s" % (w, left))
        ctx.distinct(("cycle", w))
    for a in (c, p):
        a.ok("close 0")
