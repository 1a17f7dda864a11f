"""P17: random histories in which several components (two handles in some processes) register, register again, unregister names singly and in batches, close, open again under their own name and are killed, against a map name -> owner; after every step names are read, written, invoked and discovered from other components and each must be answered by exactly the owner's handler, or by nobody. A racing part lets all components claim the same names at once (exactly one may win), kills the winner at a random moment of a big registration and hands the names on."""
import time
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (operation, batch size, conflicts, own or other's, outcome, owned names) combinations"
DUP, NOTFOUND = 14, 5
MS = 10**6

UNITS = {"A": ["Ow.A p gs"], "B": ["Ow.B p gs"], "C": ["Ow.Obj.C p gs"], "D": ["Ow.Obj.D p gs"], "E": ["Ow.Obj.Sub.E p gs"], "M": ["Ow.M() m m"], "N": ["Ow.Obj.N() m m"], "V": ["Ow.Ev! e e"],
         "T": ["Ow.T.{i}. t are", "Ow.T.{i}.P p gs", "Ow.T.{i}.F() m m"], "U": ["Ow.Obj.U.{i}. t are", "Ow.Obj.U.{i}.Q p gs"], "X": ["Ox.X p gs"], "Y": ["Ow.Obj.Sub.Deep.Er.Y p gs"], "Ab": ["Ow.Ab p gs"], "Ob": ["Ow.Ob p gs"]}
PROBE = {"A": "Ow.A", "B": "Ow.B", "C": "Ow.Obj.C", "D": "Ow.Obj.D", "E": "Ow.Obj.Sub.E", "M": "Ow.M()", "N": "Ow.Obj.N()", "V": "Ow.Ev!", "X": "Ox.X", "Y": "Ow.Obj.Sub.Deep.Er.Y", "Ab": "Ow.Ab", "Ob": "Ow.Ob"}


def plan(tier):
    n = 6 if tier == "quick" else 28
    return [{"fn": "hist", "args": {"k": i, "steps": 320 if tier == "quick" else 2500}} for i in range(n)] + \
           [{"fn": "race", "args": {"k": i, "rounds": 25 if tier == "quick" else 250}} for i in range(n // 3)] + \
           [{"fn": "crash", "args": {"k": i, "rounds": 8 if tier == "quick" else 80}} for i in range(n // 3)]


class Comp:
    def __init__(self, agent, h, name):
        self.a, self.h, self.name = agent, h, name
        self.rows = {}


def hist(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    w = ctx.comp("watch")
    comps, owner = [], {}     # unit -> Comp
    gone = []
    serial = [0]
    known = {}                # unit -> comps that registered it once: their stale elements still serve partial paths (not asked here)

    def fresh(name=None, agent=None, h=0):
        if agent is None:
            serial[0] += 1
            agent = ctx.comp(name or "comp%dx" % serial[0])
            agent.cname = name
            c = Comp(agent, 0, agent.name)
        else:
            serial[0] += 1
            n = rng.choice(["%s.second%d" % (agent.name, serial[0]), agent.name[:-1], agent.name + "x"])
            agent.ok("open %d %s" % (h, n))
            c = Comp(agent, h, n)
        comps.append(c)
        return c
    for i in range(3):
        fresh()
    fresh(agent=comps[0].a, h=1)
    fresh(agent=comps[1].a, h=1)

    def drop(c):
        comps.remove(c)
        for u in [u for u in owner if owner[u] is c]:
            del owner[u]

    def settle(c):
        """Unregistering is sent without an answer: one request on the same connection later the broker has seen it."""
        c.a.call("get %d Nobody.At.All" % c.h)

    def probe(u):
        o = owner.get(u)
        q = rng.choice([x for x in comps] + [None])
        x, h = (w, 0) if q is None else (q.a, q.h)
        marks = {c.a: c.a.mark() for c in comps}
        if u in ("T", "U"):
            t = "Ow.T." if u == "T" else "Ow.Obj.U."
            prop = "P" if u == "T" else "Q"
            r = x.call("addrow %d %s !" % (h, t))
            what = "addrow"
            if o:
                if ctx.check(r.rc == 0, "owner-serves", lambda: "addrow on %s owned by %s returned %d" % (t, o.name, r.rc)):
                    n = "%s%s.%s" % (t, r.payload[0], prop)
                    r2 = x.call("get %d %s" % (h, n))
                    ctx.check(r2.rc == 0 and r2.payload == ["str:" + n], "owner-serves", lambda: "get %s returned %d %s" % (n, r2.rc, r2.payload))
                    o.rows.setdefault(u, []).append(r.payload[0])
            else:
                ctx.check(r.rc == NOTFOUND, "nobody-serves", lambda: "addrow on %s that nobody owns returned %d" % (t, r.rc))
                old = [c for c in comps + gone if c.rows.get(u)]
                if old:
                    n = "%s%s.%s" % (t, rng.choice(rng.choice(old).rows[u]), prop)
                    r2 = x.call("get %d %s" % (h, n))
                    ctx.check(r2.rc == NOTFOUND, "nobody-serves", lambda: "get %s of a table nobody owns returned %d" % (n, r2.rc))
            kind, hi = "addrow", 0
        elif u in ("M", "N"):
            r = x.call("inv %d %s ~(tag=i32:1)" % (h, PROBE[u]))
            what, kind = "inv", "meth"
        elif u == "V":
            r = x.call("suba" and "disccomp %d 1 %s" % (h, pct(PROBE[u])))
            got = r.payload[1:] if r.rc == 0 else []
            ctx.check(r.rc == 0 and got == ([o.name] if o else []), "discovered-owner", lambda: "%s is owned by %s, discovery says %s rc %d" % (PROBE[u], o and o.name, got, r.rc))
            return
        else:
            kind = what = rng.choice(["get", "set"])
            r = x.call("get %d %s" % (h, PROBE[u]) if what == "get" else "set %d %s str:%s" % (h, PROBE[u], PROBE[u]))
        ctx.count("probes")
        if u not in ("T", "U"):
            ctx.check(r.rc == (0 if o else NOTFOUND), "owner-serves" if o else "nobody-serves", lambda: "%s, owned by %s, returned %d" % (r.cmd, o and o.name, r.rc))
        hits = []
        for a, m in marks.items():
            a.sync()
            hits += [(a.name, int(e[0])) for e in a.evs(kind, m)]
        want = [(o.a.name, o.h)] if o else []
        ctx.check(hits == want, "wrong-server", lambda: "%s, owned by %s, was handled by %s (agent, handle)" % (r.cmd, want, hits))
        if rng.random() < 0.3:
            n = PROBE.get(u, UNITS[u][-1].split()[0])
            r = x.call("disccomp %d 1 %s" % (h, pct(n)))
            got = r.payload[1:] if r.rc == 0 else []
            ctx.check(r.rc == 0 and got == ([o.name] if o else []), "discovered-owner", lambda: "%s is owned by %s, discovery says %s rc %d" % (n, o and o.name, got, r.rc))

    for step in range(steps):
        op = rng.choice(["reg"] * 6 + ["unreg"] * 3 + ["probe"] * 10 + ["close", "kill", "reopen", "new", "elems", "elems", "foreign", "refused"])
        c = rng.choice(comps) if comps else fresh()
        if op == "reg":
            us = rng.sample(list(UNITS), rng.choice([1, 1, 1, 2, 3, 5]))
            els = [e for u in us for e in UNITS[u]]
            if rng.random() < 0.3 and not any(u in ("T", "U") for u in us):
                rng.shuffle(els)
            conf = [u for u in us if u in owner]
            r = c.a.call("reg %d %d %s" % (c.h, len(els), " ".join(els)))
            ctx.check(r.rc == (DUP if conf else 0), "register", lambda: "%s registering %s, of which %s are taken, returned %d" % (c.name, us, [(u, owner[u].name) for u in conf], r.rc))
            ctx.distinct(("reg", len(us), len(conf), any(owner[u] is c for u in conf), r.rc, len(owner)))
            if r.rc == 0:
                for u in us:
                    owner[u] = c
            settle(c)
            for u in us:
                probe(u)
        elif op == "unreg":
            mine = [u for u in owner if owner[u] is c]
            if mine:
                us = rng.sample(mine, rng.randint(1, len(mine)))
                els = [e for u in us for e in UNITS[u]]
                c.a.ok("unreg %d %d %s" % (c.h, len(els), " ".join(els)))
                settle(c)
                for u in us:
                    del owner[u]
                    probe(u)
                ctx.distinct(("unreg", len(us), len(mine), len(owner)))
        elif op == "foreign":
            # giving up a name of somebody else leaves it with its owner
            o = [u for u in owner if owner[u] is not c]
            if o:
                u = rng.choice(o)
                c.a.call("unreg %d %d %s" % (c.h, len(UNITS[u]), " ".join(UNITS[u])))
                settle(c)
                probe(u)
                ctx.distinct(("foreign", owner[u].a is c.a))
        elif op == "refused":
            # a name in the place where a table keeps its rows is refused, whoever asks, and nothing of it or of its batch stays
            us = [u for u in ("T", "U") if u in owner]
            if us:
                u = rng.choice(us)
                n = UNITS[u][0].split()[0].replace("{i}.", rng.choice(["abc", "abc.Def", "Pq()"]))
                free = [v for v in UNITS if v not in owner and len(UNITS[v]) == 1]
                more = UNITS[rng.choice(free)] if free and rng.random() < 0.5 else []
                r = c.a.call("reg %d %d %s %s" % (c.h, 1 + len(more), " ".join(more), n + (" m m" if n.endswith(")") else " p gs")))
                ctx.check(r.rc != 0, "refused-name", lambda: "%s registered %s beside the rows of %s, rc 0" % (c.name, n, u))
                settle(c)
                q = w.call("disccomp 0 1 %s" % pct(n))
                ctx.check(q.rc == 0 and q.payload[:1] == ["0"], "refused-name", lambda: "%s was refused (rc %d) and is found: %d %s" % (n, r.rc, q.rc, q.payload))
                for v in [u] + [v for v in free if UNITS[v] == more]:
                    probe(v)
                ctx.distinct(("refused", owner[u] is c, bool(more), r.rc))
        elif op == "probe":
            probe(rng.choice(list(UNITS)))
        elif op == "close" and len(comps) > 2:
            mine = [u for u in owner if owner[u] is c]
            c.a.ok("close %d" % c.h)
            drop(c)
            if any(x.a is c.a for x in comps):
                settle([x for x in comps if x.a is c.a][0])
            else:
                c.a.finish()
                await_gone(ctx, w, mine)
            for u in mine:
                probe(u)
            gone.append(c)
            ctx.distinct(("close", len(mine), len(owner)))
        elif op == "kill" and len({x.a for x in comps}) > 2:
            same = [x for x in comps if x.a is c.a]
            mine = [u for u in owner if owner[u].a is c.a]
            if rng.random() < 0.5:      # in the middle of a call of it or to it
                us = rng.choice(list(UNITS))
                c.a.send("reg %d %d %s" % (c.h, len(UNITS[us]), " ".join(UNITS[us])))
                time.sleep(rng.choice([0, 0, 0.0005, 0.002]))
                mine = list(set(mine + ([us] if us not in owner else [])))
            c.a.kill()
            for x in same:
                drop(x)
            await_gone(ctx, w, mine)
            for u in mine:
                probe(u)
            ctx.distinct(("kill", len(mine), len(same), len(owner)))
        elif op == "reopen":
            # opening a name again in the same process gives up the earlier handle and all it registered
            if rng.random() < 0.5 or c.h != 0:
                c.a.ok("close %d" % c.h) if rng.random() < 0.5 else None
                c.a.ok("open %d %s" % (c.h, c.name))
                mine = [u for u in owner if owner[u] is c]
                for u in mine:
                    del owner[u]
                c.rows = {}
                settle(c)
                for u in mine:
                    probe(u)
                ctx.distinct(("reopen", len(mine), len(owner)))
        elif op == "new" and len(comps) < 6:
            one = [x for x in comps if x.h == 0 and not any(y.a is x.a and y.h == 1 for y in comps)]
            if one and rng.random() < 0.5:
                fresh(agent=rng.choice(one).a, h=1)
            else:
                fresh()
        elif op == "elems":
            r = w.call("discelem 0 %s 0" % c.name)
            want = {c.name} | {e.split()[0].rstrip(".") for u in owner if owner[u] is c for e in UNITS[u]}
            got = [unpct(x) for x in r.payload[1:]]
            ctx.check(r.rc == 0 and sorted(got) == sorted(want), "discovered-elements", lambda: "elements of %s: %s, must be %s" % (c.name, sorted(got), sorted(want)))
        ctx.count("steps")
        if ctx.failed:
            return


def await_gone(ctx, w, units):
    """The broker notices the end of a connection on its own time; then the names must answer not found."""
    t = time.time()
    names = [e.split()[0] for u in units for e in UNITS[u]]
    for n in names:
        while True:
            r = w.call("disccomp 0 1 %s" % pct(n))
            if r.rc == 0 and r.payload[:1] == ["0"]:
                break
            if not ctx.check(time.time() - t < 10, "stays-after-end", lambda: "%s still discovered %s after its owner ended" % (n, r.payload)):
                return
            time.sleep(0.005)


def race(ctx, k, rounds):
    """Everybody claims the same names at once."""
    rng = ctx.rng
    ctx.start_broker()
    w = ctx.comp("watch")
    ag = [ctx.comp("claim" + "12345"[:i]) for i in range(5)]
    for a in ag[:2]:
        a.ok("open 1 %s.b" % a.name)
    cs = [(a, 0) for a in ag] + [(a, 1) for a in ag[:2]]
    for rnd in range(rounds):
        tries = {}
        single = rng.random() < 0.6
        names = ["Rc%d.N%d" % (rnd, i) for i in range(1 if single else 6)]
        for wk, (a, h) in enumerate(cs):
            b = names if single else rng.sample(names, rng.randint(1, 3))
            tries[(a, h)] = (b, a.send("reg %d %d %s" % (h, len(b), " ".join("%s p gs" % n for n in b)), wk))
        own = {}
        for x, (b, f) in tries.items():
            r = f.wait()
            ctx.check(r.rc in (0, DUP), "register", lambda: "%s returned %d" % (r.cmd, r.rc))
            if r.rc == 0:
                for n in b:
                    ctx.check(n not in own, "two-owners", lambda: "%s was registered successfully by %s and by %s" % (n, own[n], x))
                    own[n] = x
        if single:
            ctx.check(len(own) == 1, "one-winner", lambda: "%d components registered %s at once, owners %s" % (len(cs), names, own))
        for a, h in cs:
            a.call("get %d Nobody.X" % h)
        for n in names:
            ms = {a: a.mark() for a in ag}
            r = w.call("get 0 %s" % n)
            hits = []
            for a in ag:
                a.sync()
                hits += [(a.name, int(e[0])) for e in a.evs("get", ms[a])]
            want = [(own[n][0].name, own[n][1])] if n in own else []
            ctx.check((r.rc == 0) == (n in own) and hits == want, "wrong-server", lambda: "%s: owner %s, get returned %d, handled by %s" % (n, want, r.rc, hits))
            r = w.call("disccomp 0 1 %s" % n)
            ctx.check(len(r.payload) - 1 == len(want), "discovered-owner", lambda: "%s: owner %s, discovered %s" % (n, want, r.payload))
        ctx.count("claims", len(cs))
        ctx.distinct(("race", single, len(own), len(names), tuple(sorted(x[1] for x in own.values()))))
        # hand on: all release what they have and someone else takes all of it
        for x, (b, f) in tries.items():
            mine = [n for n in b if own.get(n) == x]
            if mine:
                x[0].ok("unreg %d %d %s" % (x[1], len(mine), " ".join("%s p gs" % n for n in mine)))
        for a, h in cs:
            a.call("get %d Nobody.X" % h)
        a, h = rng.choice(cs)
        r = a.call("reg %d %d %s" % (h, len(names), " ".join("%s p gs" % n for n in names)))
        ctx.check(r.rc == 0, "free-after-release", lambda: "registering the released names %s returned %d" % (names, r.rc))
        if ctx.failed:
            return
    for a, h in reversed(cs):
        a.ok("close %d" % h)


def crash(ctx, k, rounds):
    """The owner of many names dies at a random moment of registering, serving or giving them up; another takes over."""
    rng = ctx.rng
    ctx.start_broker()
    w = ctx.comp("watch")
    w.ok("timeout1 0 g 1500")
    by = ctx.comp("bystander")
    by.ok("reg 0 3 By.A p gs By.T.{i}. t are By.T.{i}.P p gs")
    by.ok("addrow 0 By.T. !")
    names = ["Cr.Obj%d.N%d" % (i % 7, i) for i in range(60)]
    els = " ".join("%s p gs" % n for n in names)
    for rnd in range(rounds):
        v = ctx.comp("victim" if rnd % 2 else "victim%d" % rnd)
        phase = rng.choice(["register", "serve", "unregister", "close"])
        futs = []
        if phase == "register":
            v.send("reg 0 %d %s" % (len(names), els))
            time.sleep(rng.uniform(0, 0.02))
        else:
            v.ok("reg 0 %d %s" % (len(names), els))
            futs = [w.send("get 0 %s" % rng.choice(names), i) for i in range(6)]
            if phase == "unregister":
                v.send("unreg 0 %d %s" % (len(names), els))
            elif phase == "close":
                v.send("close 0")
            time.sleep(rng.uniform(0, 0.006))
        v.kill()
        t0 = time.time()
        for f in futs:
            r = f.wait()
            ctx.check(r.rc == 0 or (r.t1 - r.t0) < 6000 * MS, "call-to-dead", lambda: "%s returned %d after %d ms" % (r.cmd, r.rc, (r.t1 - r.t0) // MS))
        heir = ctx.comp("heir%d" % rnd)
        while True:
            r = heir.call("reg 0 %d %s" % (len(names), els))
            if r.rc == 0 or not ctx.check(r.rc == DUP and time.time() - t0 < 30, "free-after-crash", lambda: "names of a component killed while it %ss cannot be registered: %d after %.1f s" % (phase, r.rc, time.time() - t0)):
                break
            time.sleep(0.005)
        if ctx.failed:
            return
        m = heir.mark()
        ask = rng.sample(names, 12)
        for i, f in enumerate([w.send("get 0 %s" % n, i) for i, n in enumerate(ask)]):
            r = f.wait()
            ctx.check(r.rc == 0 and r.payload == ["str:" + ask[i]], "owner-serves", lambda: "%s after the take over returned %d" % (r.cmd, r.rc))
        heir.sync()
        ctx.check(len(heir.evs("get", m)) == len(ask), "wrong-server", "the new owner saw %d of %d gets" % (len(heir.evs("get", m)), len(ask)))
        for n in ("By.A", "By.T.1.P"):
            r = w.call("get 0 %s" % n)
            ctx.check(r.rc == 0, "bystander", lambda: "get %s of a component that has nothing to do with it returned %d" % (n, r.rc))
        ctx.count("take overs")
        ctx.distinct(("crash", phase, rnd % 2, [r.rc for r in [f.wait() for f in futs]].count(0)))
        if rng.random() < 0.5:
            heir.ok("close 0")
        heir.finish() if rng.random() < 0.5 else heir.kill()
        r = w.call("disccomp 0 1 %s" % names[0])
        t0 = time.time()
        while w.call("disccomp 0 1 %s" % names[-1]).payload != ["0"] and time.time() - t0 < 10:
            time.sleep(0.01)
        # the next victim registers only after the broker has seen this end
        while w.call("disccomp 0 %d %s" % (len(names), " ".join(names))).payload != ["0"]:
            if not ctx.check(time.time() - t0 < 10, "stays-after-end", "names stay discovered after their owner ended"):
                return
            time.sleep(0.01)
