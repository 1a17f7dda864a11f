"""P06: random histories of adding and removing names (tables, instances, aliases, partial paths, wildcards, over-long and over-deep names, several owners) are played into the broker's topic tree and into a live broker by several raw clients that come and go; after every step the owners found, the messages received, the refusals and all discovery replies are compared with a flat table of who owns what. ASan+UBSan."""
import json, time
from lib import vlib, wire
VARIANTS, AGENT = ["asan"], False
EVAL = "cases"
RULE = "a case is one history; distinct = (kind of step, its effect, number of names and owners) and (owners found, owners below, depth of the name asked) combinations"
DUP = 1000


def prepare():
    vlib.Variant("asan").driver("u_route.cpp", cflags=["-fpermissive"], libs=("rtMessage",))


def plan(tier):
    q = tier == "quick"
    n, c = (6, 250) if q else (48, 6000)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)] + \
           [{"fn": "broker", "args": {"k": i, "rounds": 45 if q else 300}} for i in range(4 if q else 24)] + \
           [{"fn": "many", "args": {"k": i, "rounds": 40 if q else 200}} for i in range(2 if q else 8)]


def unit(ctx, first, count):
    ctx.unit(vlib.BUILD + "/asan-u_route", [ctx.seed, count, first])


class Table:
    """Who owns what: names -> routes in order of adding. A route is (client, id)."""
    def __init__(self):
        self.own = {}        # path tuple -> [route]
        self.routes = []     # [client, id, expression], in order of creation

    @staticmethod
    def split(s):
        p = s.split(".")
        if p[-1] == "":
            p.pop()
        return tuple(p)

    def exists(self, p):
        return any(k[:len(p)] == p for k in self.own)

    def resolve(self, p):
        at = ()
        for t in p:
            if self.exists(at + (t,)):
                at += (t,)
            elif t and (t[0].isdigit() or t[0] in "[*") and self.exists(at + ("{i}",)):
                at += ("{i}",)
            else:
                return None
        return at

    def place(self, s):
        """Where an added name goes; None when it has to be refused (a table pattern beside plain names)."""
        at = ()
        for t in self.split(s):
            if not self.exists(at + (t,)):
                if self.exists(at + ("{i}",)) or (t[0] == "{" and any(len(k) > len(at) and k[:len(at)] == at for k in self.own)):
                    return None
            at += (t,)
        return at

    def below(self, at):
        r = []
        for k, v in self.own.items():
            if len(k) > len(at) and k[:len(at)] == at:
                r += [x for x in v if x not in r]
        return r

    def lookup(self, s):
        at = self.resolve(self.split(s))
        if at is None or not at:
            return []
        if s.endswith("."):
            return self.below(at)
        if self.exists(at + ("{i}",)):
            at += ("{i}",)
        return list(self.own.get(at, []))

    def valid(self, s):
        return len(s) < 128 and s.count(".") < 32 and ".." not in s and all(" " <= c <= "~" for c in s)

    def add(self, cl, rid, s):
        """True when the broker has to accept it."""
        r = next((x for x in self.routes if x[0] is cl and x[1] == rid), None)
        if not self.valid(s) or s in INTERNAL:
            return False
        if not self.split(s):
            if r is None:
                self.routes.append([cl, rid, s])
            return True
        at = self.place(s)
        if at is None:
            return False
        if r is not None and self.own.get(at) and s != wire.ADVISORY:
            return False
        if r is None:
            self.routes.append([cl, rid, s])
        v = self.own.setdefault(at, [])
        if (cl, rid) not in v:
            v.append((cl, rid))
        return True

    def drop(self, f):
        for k in list(self.own):
            self.own[k] = [x for x in self.own[k] if not f(k, x)]
            if not self.own[k]:
                del self.own[k]

    def remove(self, cl, rid, s):
        r = next((x for x in self.routes if x[0] is cl and x[1] == rid), None)
        if r is None or not self.valid(s):
            return
        if r[2] == s:
            self.routes.remove(r)
            self.drop(lambda k, x: x == (cl, rid))
        else:
            p = self.split(s)
            self.drop(lambda k, x: x == (cl, rid) and k == p)

    def gone(self, cl):
        self.routes = [r for r in self.routes if r[0] is not cl]
        self.drop(lambda k, x: x[0] is cl)

    def expr(self, x):
        return next(r[2] for r in self.routes if r[0] is x[0] and r[1] == x[1])


INTERNAL = {wire.SUBSCRIBE, wire.QUERY, wire.ELEMENTS, wire.ORIGIN, wire.COMPONENTS, wire.DIAG, "TransactionTime"}
WORDS = ["Device", "A", "B", "WiFi", "AP", "A2", "X_RDK-q", "En able", "AA", "Ab", "_u"]


def broker(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    T, cls, n = Table(), [], [0]
    watcher = None

    def join():
        c = wire.Client()
        r = c.subscribe("sync." + c.name, 1000)     # its reply shows that the inbox is in place
        T.add(c, 0, c.inbox)
        ctx.check(r == 0, "broker-join", "the broker answered %r to a new client's first subscription" % r)
        T.add(c, 1000, "sync." + c.name)
        c.mine = []
        cls.append(c)
        return c

    def fresh():
        p, tab = [], True
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6])):
            if not tab and rng.random() < 0.25:
                p.append("{i}")
                tab = True
            else:
                p.append(rng.choice(WORDS[:wide]))
                tab = False
        s = ".".join(p)
        x = rng.random()
        if x < 0.02:
            s = ".".join("t" for _ in range(rng.choice([31, 32, 33, 34, 60])))
        elif x < 0.05:
            s = ("L" * 30 + ".") * 4
            s = (s + "q" * 200)[:rng.choice([126, 127, 128, 129, 200, 400])]
        elif x < 0.06:
            s += "..x"
        elif x < 0.07:
            s = "A\x07b"
        elif x < 0.08:
            s = rng.choice(sorted(INTERNAL))
        elif x < 0.09:
            s += "."
        elif x < 0.10:
            s = "\u00e9" + s
        return s

    def addable(s):
        p = T.split(s)
        if not p or any(t == "" for t in p):
            return T.split(s) != ()
        if T.exists(p + ("{i}",)):
            return False
        return not any(p[i] == "{i}" and p[:i] in T.own for i in range(1, len(p)))

    def asked(s):
        p = [rng.choice(["1", "2", "10", "[al]", "*", "77"]) if t == "{i}" and rng.random() < 0.7 else t for t in T.split(s)]
        x = rng.randrange(10)
        if x == 0 and len(p) > 1:
            p.pop()
        elif x == 1:
            p.append(rng.choice(WORDS))
        elif x == 2:
            p[-1] += "x"
        s = ".".join(p)
        if x == 3 and len(p) > 1:
            s = ".".join(p[:-1]) + "."
        elif x == 4:
            s += "."
        elif x == 5:
            s += ".*."
        return s

    def sync():
        for c in cls:
            f = c.request(wire.COMPONENTS, {}, 30)
            ctx.check(f is not None, "broker-silent", "a client's request to the broker was not answered within 30 s (%s)" % (c.bad or "connection open: %s" % (not c.closed)))

    def who(pairs):
        return sorted((c.name, i) for c, i in pairs)

    def audit(pool):
        """Messages to many names from random clients: each owner gets each once, nobody else anything."""
        marks = {c: c.mark() for c in cls}
        sent = {}
        for s in pool:
            if not all(" " <= ch <= "~" for ch in s) or len(s) > 250 or not s:
                continue
            if any(T.lookup(s) == [(c, 0)] for c in cls) or s in INTERNAL:
                continue
            n[0] += 1
            tag = b"P%d\0\xff" % n[0]
            c = rng.choice(cls)
            isreq = rng.random() < 0.3
            pay = tag + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 40, 700])))
            if isreq:
                c.send(s, pay, reply=c.inbox, flags=wire.REQ, seq=n[0])
            else:
                c.send(s, pay, seq=n[0], flags=rng.choice([0, 16]))
            # the broker reads each client in turn: the next step must find this one done
            c.request(wire.COMPONENTS, {}, 30)
            sent[n[0]] = (s, pay, T.lookup(s), c if isreq else None)
        sync()
        got = {x: [] for x in sent}
        back = {}
        for c in cls:
            for f in c.since(marks[c]):
                if f.flags & wire.RESP and not f.flags & wire.UNDELIV:
                    continue
                if f.flags & wire.UNDELIV:
                    back.setdefault(f.seq, []).append(c)
                    continue
                if f.topic == wire.b(wire.ADVISORY):
                    continue
                if f.seq not in sent:
                    ctx.check(False, "broker-stray", "%s received %r which nobody sent" % (c.name, f))
                    continue
                got[f.seq].append((c, f.control))
                ctx.check(f.payload == sent[f.seq][1] and f.topic == wire.b(sent[f.seq][0]), "broker-content", "message to '%s' arrived as %r, content %s" % (sent[f.seq][0], f, "changed" if f.payload != sent[f.seq][1] else "same"))
        for x, (s, pay, own, req) in sent.items():
            ctx.count("messages")
            ctx.count("receipts", len(own))
            ctx.check(who(got[x]) == who(own), "broker-route", "message to '%s' went to %s; owners: %s" % (s, who(got[x]), who(own)))
            if req is not None:
                want = [] if own else [req]
                ctx.check(back.get(x, []) == want, "broker-undeliverable", "request to '%s' with %d owners was reported undeliverable %d times" % (s, len(own), len(back.get(x, []))))
            ctx.distinct(("msg", min(len(own), 4), s.endswith("."), s.count(".")))

    def discovery(pool):
        c = rng.choice(cls)
        r = c.ask(wire.COMPONENTS, {}) or {}
        want = [x[2] for x in T.routes if x[2] and x[2][0] != "_"]
        ctx.check(sorted(r.get("items", []) or []) == sorted(want) and r.get("count") == len(want), "broker-components", "registered components: %d listed, count %r, %d exist; only listed %s only existing %s" % (len(r.get("items") or []), r.get("count"), len(want), sorted(set(r.get("items") or []) - set(want))[:5], sorted(set(want) - set(r.get("items") or []))[:5]))
        for s in rng.sample(pool, min(4, len(pool))):
            if not all(" " <= ch <= "~" for ch in s) or not s or len(s) > 120:
                continue
            at = T.resolve(T.split(s))
            want = T.below(at) if at else []
            r = c.ask(wire.QUERY, {"expression": s}) or {}
            items = r.get("items") or []
            ctx.check(r.get("count") == len(want) == len(items), "broker-partial", "'%s' resolves to %s (count %r); owners below it: %s" % (s, items, r.get("count"), who(want)))
            for t in items:
                ctx.check(any(x in want for x in T.own.get(T.split(t), [])), "broker-partial-owner", "'%s' resolves to '%s', not owned by any of %s" % (s, t, who(want)))
            ctx.count("discoveries")
            ctx.distinct(("query", min(len(want), 5), s.count(".")))
        names = [s for s in rng.sample(pool, min(5, len(pool))) if all(" " <= ch <= "~" for ch in s) and s not in INTERNAL]
        if names:
            want = [T.expr(x) for s in names for x in T.lookup(s)]
            r = c.ask(wire.ORIGIN, {"count": len(names), "items": names}) or {}
            ctx.check(sorted(r.get("items") or []) == sorted(want) and r.get("count") == len(want), "broker-origin", "owners of %s: told %s (count %r), are %s" % (names, r.get("items"), r.get("count"), want))
        for x in rng.sample(T.routes, min(3, len(T.routes))):
            first = next(y for y in T.routes if y[2] == x[2])
            want = sorted(".".join(p) for p, v in T.own.items() if (first[0], first[1]) in v)
            r = c.ask(wire.ELEMENTS, {"expression": x[2]}) or {}
            ctx.check(sorted(r.get("items") or []) == want and r.get("count") == len(want), "broker-elements", "names of '%s': told %s (count %r), has %s" % (x[2], sorted(r.get("items") or [])[:20], r.get("count"), want[:20]))
            ctx.count("discoveries")
        r = c.ask(wire.ELEMENTS, {"expression": "nobody.here"}) or {}
        ctx.check(r.get("count") == 0, "broker-elements-none", "names of an absent component: %r" % (r,))

    pool = []
    wide = rng.choice([3, 5, len(WORDS)])
    for _ in range(rng.choice([1, 2, 4])):
        join()
    for rd in range(rounds):
        if ctx.failed:
            return
        for step in range(rng.choice([1, 4, 12])):
            x = rng.random()
            if x < 0.08 and len(cls) < 9:
                join()
                ctx.distinct(("join", len(cls)))
            elif x < 0.14 and len(cls) > 1:
                c = cls.pop(rng.randrange(len(cls)))
                had = sum(1 for v in T.own.values() for y in v if y[0] is c)
                how = rng.choice(["close", "reset", "halfclose", "midframe"])
                if how == "midframe":
                    fr = wire.frame(rng.choice(pool or ["A"]), b"x" * 400)
                    c.raw(fr[:rng.randrange(1, len(fr))])
                c.close("close" if how == "midframe" else how)
                T.gone(c)
                end = time.monotonic() + 30
                while time.monotonic() < end:
                    r = cls[0].ask(wire.ORIGIN, {"count": 1, "items": [c.inbox]}) or {}
                    if not r.get("count"):
                        break
                    time.sleep(0.01)
                ctx.check(time.monotonic() < end, "broker-dead-route", "30 s after a client disconnected (%s) its inbox is still routed" % how)
                ctx.count("disconnects")
                ctx.distinct(("leave", how, min(had, 10)))
            elif x < 0.75 or not pool:
                c = rng.choice(cls)
                s = rng.choice(pool) if pool and rng.random() < 0.25 else fresh()
                if not addable(s):
                    continue
                rid = rng.choice(c.mine) if c.mine and rng.random() < 0.6 else rng.choice([1, 2, 3, 4, 5, 2000000000])
                pool.append(s)
                want = T.add(c, rid, s)
                if want and rid not in c.mine:
                    c.mine.append(rid)
                r = c.subscribe(s, rid)
                ctx.check((r == 0) == want and r is not None, "broker-add", "adding '%s' (route %d) answered %r, expected %s; owners now %s" % (s, rid, r, "success" if want else "a refusal", who(T.lookup(s))))
                ctx.count("adds" if want else "adds_refused")
                ctx.distinct(("add", want, len(T.own) // 4))
            else:
                c = rng.choice(cls)
                own = [(y[1], p) for p, v in T.own.items() for y in v if y[0] is c and 0 < y[1] != 1000]
                if own and rng.random() < 0.85:
                    rid, p = rng.choice(own)
                    s = ".".join(p)
                    if rng.random() < 0.3:
                        s = T.expr((c, rid))
                else:
                    rid, s = rng.choice([1, 2, 3]), rng.choice(pool)
                before = len(T.own)
                T.remove(c, rid, s)
                if not any(r[0] is c and r[1] == rid for r in T.routes) and rid in c.mine:
                    c.mine.remove(rid)
                r = c.subscribe(s, rid, add=0)
                ctx.check(r is not None, "broker-remove", "removing '%s' was not answered" % s)
                ctx.count("removes")
                ctx.distinct(("remove", min(before - len(T.own), 6)))
        probe = [asked(s) for s in rng.sample(pool, min(10, len(pool)))] + rng.sample(pool, min(4, len(pool)))
        probe = [s for s in probe if not s.startswith("_RTROUTED.")]
        audit(probe)
        discovery(probe)
        ctx.count("cases")
        for c in cls:
            ctx.check(not c.closed, "broker-cut", "the broker closed a well-behaved client's connection or sent it a malformed frame (%s)" % c.bad)
        if rd == 1:
            ctx.sample("%d clients, %d names, %d routes; asked e.g. %s" % (len(cls), len(T.own), len(T.routes), probe[:6]))
    while cls:
        cls.pop().close()
    ctx.broker_alive()


def many(ctx, k, rounds):
    """Many clients with many names each, added in turns, leave in any order; others take over what they had."""
    rng = ctx.rng
    ctx.start_broker()
    w = wire.Client("watch")
    w.subscribe("watch.me", 900)
    owner, rid, cls, n = {}, {}, [], [0]

    def audit(what):
        want = sorted(list(owner) + [w.inbox, "watch.me"] + [c.inbox for c in cls])
        end = time.monotonic() + 20
        while True:
            r = w.ask(wire.COMPONENTS, {}, 30) or {}
            got = sorted(r.get("items") or [])
            if got == want or time.monotonic() > end:
                break
            time.sleep(0.01)
        ctx.check(got == want, "left-or-lost", lambda: "%s: only listed %s, only expected %s" % (what, [x for x in got if x not in want][:4], [x for x in want if x not in got][:4]))
        some = rng.sample(sorted(owner), min(len(owner), 25))
        marks = {c: c.mark() for c in cls}
        for i, s in enumerate(some):
            w.send(s, b"to %s" % wire.b(s))
        for c in cls:
            mine = [s for s in some if owner[s] is c]
            end = time.monotonic() + 20
            while True:
                l = [(f.topic, f.control) for f in c.since(marks[c]) if f.payload.startswith(b"to ")]
                if len(l) >= len(mine) or time.monotonic() > end:
                    break
                time.sleep(0.005)
            ctx.check(l == [(wire.b(s), rid[s]) for s in mine], "many-delivery", lambda: "%s: %s received %s for names %s" % (what, c.name, l[:5], mine[:5]))
            ctx.count("messages", len(mine))

    for rd in range(rounds):
        if len(cls) < 3 or len(cls) < 14 and rng.random() < 0.7:
            new = [wire.Client() for _ in range(rng.randint(1, 4))]
            for c in new:
                ctx.check(c.subscribe("tmp." + c.name, 999) == 0 and c.subscribe("tmp." + c.name, 999, add=0) == 0, "many-join", "a new client's subscription was refused")
            cls += new
            todo = [(c, j) for c in new for j in range(rng.choice([1, 3, 20, 45]))]
            if rng.random() < 0.7:
                rng.shuffle(todo)       # in turns
            for c, j in todo:
                s = "Mc.%s.x%d" % (rng.choice("abc"), n[0])
                n[0] += 1
                r = c.subscribe(s, 1 + j)
                ctx.check(r == 0, "many-add", "adding the new name %s was answered %r" % (s, r))
                owner[s], rid[s] = c, 1 + j
        else:
            gone = rng.sample(cls, rng.randint(1, min(3, len(cls))))
            for c in gone:
                c.close(rng.choice(["close", "reset"])) if rng.random() < 0.5 else c.close()
                cls.remove(c)
            free = [s for s in owner if owner[s] in gone]
            for s in free:
                del owner[s]
            audit("after %d clients left" % len(gone))
            if cls and rng.random() < 0.6:
                for s in rng.sample(free, min(len(free), 20)):
                    c = rng.choice(cls)
                    n[0] += 1
                    r = c.subscribe(s, 100 + n[0])
                    ctx.check(r == 0, "many-again", "adding %s, whose owner has left, was answered %r" % (s, r))
                    owner[s], rid[s] = c, 100 + n[0]
            for s in rng.sample(sorted(owner), min(len(owner), 5)):
                c = owner[s]
                r = c.subscribe(s, rid[s], add=0)
                ctx.check(r == 0, "many-remove", "removing %s was answered %r" % (s, r))
                del owner[s]
        audit("round %d" % rd)
        ctx.count("cases")
        ctx.distinct(("many", len(cls), len(owner) // 20))
        if ctx.failed:
            break
    for c in cls + [w]:
        c.close()
