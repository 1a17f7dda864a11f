"""P18: random data models (properties, events, methods, nested tables, each with its own set of handlers) over several providers with shared parents, in histories of registering, closing, opening again and killing components and adding and removing rows; element information for random paths and depths, the owners of lists of names, the elements of a component and the list of components are compared with a reference model after every step. One part hands a table's rows around while another consumer asks."""
import time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (query kind, depth, providers, result size class, outcome) combinations"
OBJ, PROP, TABLE, EVENT, METHOD = 0, 1, 2, 3, 4
BIT = {"g": 1, "s": 2, "a": 4, "r": 8, "e": 16, "m": 32}
TYPE = {"p": PROP, "t": TABLE, "e": EVENT, "m": METHOD}
FLAGS = {"p": ["gs", "g", "s", "-", "gse", "ge", "se", "e"], "t": ["ar", "a", "r", "-", "are", "e"], "e": ["e", "-"], "m": ["m", "m", "m", "-"]}
REGISTERED_ELSEWHERE = 14


def plan(tier):
    n = 8 if tier == "quick" else 32
    return [{"fn": "model", "args": {"k": i, "steps": 450 if tier == "quick" else 3500}} for i in range(n)] + \
           [{"fn": "stale", "args": {"k": 0}}] + \
           [{"fn": "churn", "args": {"k": i, "secs": 3 if tier == "quick" else 40}} for i in range(2 if tier == "quick" else 6)] + \
           [{"fn": "dyn", "args": {"k": i, "steps": 1500 if tier == "quick" else 9000}} for i in range(1 if tier == "quick" else 4)]


def dyn(ctx, k, steps):
    from lib import dyn
    dyn.run(ctx, k, steps)


class Comp:
    """The reference: templates registered in order, rows."""

    def __init__(self, agent, h, name):
        self.a, self.h, self.name = agent, h, name
        self.els = {}     # template without trailing dot ('A.T.{i}.P'; a table 'A.T') -> (type, access)
        self.order = []   # names as the broker lists them
        self.rows = {}    # row name -> alias
        self.inst = {}

    def nodes(self):
        """Every node of the instance tree: name (no trailing dot) -> (type, access)."""
        if getattr(self, "_c", None):
            return self._c
        out = {}

        def put(n, t, acc):
            parts = n.split(".")
            for i in range(1, len(parts)):
                q = ".".join(parts[:i])
                if q not in out:
                    out[q] = (OBJ, 3 if parts[i - 1].isdigit() else 0)
            if n not in out or t != OBJ:
                out[n] = (t, acc)
        for t in sorted(self.els):
            if "{i}" not in t:
                put(t, *self.els[t])
        for r in self.rows:
            put(r, OBJ, 3)
            rt = tmpl(r)
            for t in self.els:
                if t.startswith(rt + ".") and "{i}" not in t[len(rt):]:
                    put(r + t[len(rt):], *self.els[t])
                elif t.startswith(rt + "."):
                    # objects on the way to a deeper table
                    pass
        self._c = out
        return out

    def dirty(self):
        self._c = None


def tmpl(n):
    return ".".join("{i}" if c.isdigit() else c for c in n.split("."))


def shown(n, node):
    return n + "." if node[0] in (OBJ, TABLE) else n


def expect(comps, path, depth):
    """What info(path, depth) has to report, as a sorted list."""
    base = path.rstrip(".")
    out = []
    d = abs(depth)
    for c in comps:
        nodes = c.nodes()
        if base not in nodes:
            continue
        lev = base.count(".")
        for n, node in nodes.items():
            if n == base or n.startswith(base + "."):
                k = n.count(".") - lev
                if k == d or (depth >= 0 and k <= d):
                    out.append((shown(n, node), c.name, node[0], node[1]))
    return sorted(out)


class World:
    def __init__(self, ctx, nprov):
        self.ctx, self.rng = ctx, ctx.rng
        ctx.start_broker()
        self.comps, self.serial = [], 0
        self.dead = []
        self.w = ctx.comp("watch")
        self.w2 = ctx.comp("watcher.two")
        for i in range(nprov):
            self.new()
        for c in list(self.comps):
            self.register(c, self.rng.randint(3, 9))
        # a name that exists for the whole history keeps shared parents from changing hands between routes

    def new(self):
        rng = self.rng
        self.serial += 1
        if self.comps and rng.random() < 0.35:
            a = rng.choice(self.comps).a
            used = {c.h for c in self.comps if c.a is a}
            h = [i for i in range(8) if i not in used][0]
            name = rng.choice(["sec%d", "comp.with.dots%d", "Sec-%d", "A.component.with.quite.a.long.name." + "x" * 40 + ".%d"]) % self.serial
            a.ok("open %d %s" % (h, name))
        else:
            name = "prov%d" % self.serial
            a, h = self.ctx.comp(name), 0
        c = Comp(a, h, name)
        c.id = self.serial
        self.comps.append(c)
        return c

    def register(self, c, n):
        rng = self.rng
        cmd = []

        def el(name, kind):
            key = name[:-5] if kind == "t" else name
            if key in c.els or any(key in o.els for o in self.comps):
                return
            f = rng.choice(FLAGS[kind])
            c.els[key] = (TYPE[kind], sum(BIT[x] for x in f if x != "-"))
            c.order.append(name)
            cmd.append("%s %s %s" % (name, kind, f))

        def leaf(base):
            k = rng.choice("pppem")
            el(base + "%s%d%s" % (gen.rname(rng), c.id, {"p": "", "e": "!", "m": "()"}[k]), k)
        for _ in range(n):
            base = rng.choice(["Own%d." % c.id, "Shared.", "Shared.Obj.", "Own%d.Obj.Sub." % c.id, "Shared.A.B.C.D.E.F.", "Own%d.L1.L2.L3.L4.L5.L6.L7.L8.L9." % c.id])
            if rng.random() < 0.65:
                leaf(base)
            else:
                self.serial += 1
                t = "%s%s%d" % (base, rng.choice(["Tab", "T", "Rows"]), self.serial)
                el(t + ".{i}.", "t")
                for _ in range(rng.randint(1, 3)):
                    leaf(t + ".{i}." + rng.choice(["", "", "In."]))
                if rng.random() < 0.5:
                    nt = t + ".{i}." + rng.choice(["", "In."]) + "Nest"
                    el(nt + ".{i}.", "t")
                    leaf(nt + ".{i}.")
                    if rng.random() < 0.3:
                        el(nt + ".{i}.Deep.{i}.", "t")
                        leaf(nt + ".{i}.Deep.{i}.")
        c.dirty()
        if not cmd:
            return
        if rng.random() < 0.6:
            c.a.ok("reg %d %d %s" % (c.h, len(cmd), " ".join(cmd)))
        else:
            for x in cmd:
                c.a.ok("reg %d 1 %s" % (c.h, x))

    def tables(self, c):
        """Existing tables of a component."""
        return [n for n, v in c.nodes().items() if v[0] == TABLE]

    def add_row(self):
        rng = self.rng
        c = rng.choice(self.comps)
        ts = self.tables(c)
        if not ts or len(c.rows) > 25:
            return
        t = rng.choice(ts)
        alias = "al%d" % rng.randint(0, 10**6) if rng.random() < 0.4 else None
        if c.nodes()[t][1] & 4 and rng.random() < 0.6:
            r = self.w.ok("addrow 0 %s. %s" % (t, pct(alias)))
            if r.rc:
                return
            i = int(r.payload[0])
        else:
            i = c.inst.get(t, 1000) + rng.randint(1, 30)
            c.inst[t] = i
            c.a.ok("regrow %d %s. %d %s" % (c.h, t, i, pct(alias)))
        c.rows["%s.%d" % (t, i)] = alias
        c.dirty()

    def rem_row(self):
        rng = self.rng
        c = rng.choice(self.comps)
        if not c.rows:
            return
        r = rng.choice(list(c.rows))
        t = r.rsplit(".", 1)[0]
        if c.nodes()[t][1] & 8 and rng.random() < 0.6:
            self.w.ok("remrow 0 " + r)
        else:
            c.a.ok("unregrow %d %s" % (c.h, r))
        for x in [x for x in c.rows if x == r or x.startswith(r + ".")]:
            del c.rows[x]
        c.dirty()

    def drop(self, how):
        rng = self.rng
        c = rng.choice(self.comps)
        if how == "close":
            # a process with nothing open any more gives up its connection
            c.a.ok("close %d" % c.h)
            gone = [c]
            if not any(o.a is c.a and o is not c for o in self.comps):
                c.a.ok("exit") if False else None
        else:
            gone = [o for o in self.comps if o.a is c.a]
            c.a.kill()
            self.ctx.count("kills")
            time.sleep(0.05)
        for g in gone:
            self.comps.remove(g)
            self.dead.append(g.name)


def info(ctx, w, x, path, depth, kind):
    r = x.call("info 0 %s %d" % (path, depth))
    want = expect(w.comps, path, depth)
    p = r.payload
    got = sorted((unpct(p[i]), unpct(p[i + 1]), int(p[i + 2]), int(p[i + 3])) for i in range(0, len(p) - 3, 4))
    base = path.rstrip(".")
    missing_row = r.rc == 17 and not want
    ctx.check(r.rc == 0 or missing_row, "info-outcome", lambda: "info %s %d returned %d, expected %d elements" % (path, depth, r.rc, len(want)))
    if r.rc == 0:
        ctx.check(got == want, "info-content", lambda: "info %s %d reports %s, expected %s" % (path, depth, [g for g in got if g not in want][:6] or got[:6], [g for g in want if g not in got][:6] or "the same, %d times %d" % (len(got), len(want))))
    ctx.count("elements_compared", len(want))
    ctx.distinct((kind, depth, len({g[1] for g in want}), min(len(want), 8) if len(want) < 9 else len(want) // 10 * 10, r.rc))


def queries(ctx, w):
    rng = ctx.rng
    x = rng.choice([w.w, w.w2] + [c.a for c in w.comps if c.h == 0])
    kind = rng.choice(["path", "path", "path", "leaf", "row", "alias", "owners", "owners", "elems", "elems", "comps", "nothing", "top"])
    depth = rng.choice([0, 1, -1, 2, -2, 3, -3, 4, -5, 8, 16, -16, 12])
    every = {n for c in w.comps for n in c.nodes()}
    if kind == "comps":
        r = x.ok("reglist")
        got = [unpct(g) for g in r.payload[1:]]
        names = [c.name for c in w.comps]
        ctx.check(int(r.payload[0]) == len(got), "component-list", lambda: "list of components: count %s, %d entries" % (r.payload[0], len(got)))
        for n in names + [w.w.name, w.w2.name]:
            ctx.check(got.count(n) == 1, "component-list", lambda: "component %s is listed %d times" % (n, got.count(n)))
        for n in w.dead:
            ctx.check(n not in got, "component-list", lambda: "component %s is gone but listed" % n)
        ctx.distinct(("comps", len(names), len(w.dead)))
        return
    if kind == "elems":
        if w.dead and rng.random() < 0.15:
            n = rng.choice(w.dead)
            r = x.call("discelem 0 %s 0" % pct(n))
            ctx.check(r.rc == 0 and r.payload == ["0"], "component-elements", lambda: "elements of %s, which is gone: %d %s" % (n, r.rc, r.payload[:5]))
            return
        c = rng.choice(w.comps)
        r = x.ok("discelem 0 %s %d" % (pct(c.name), rng.randint(0, 1)))
        got = sorted(unpct(g) for g in r.payload[1:])
        want = sorted([c.name] + [e.rstrip(".") for e in c.order])
        ctx.check(got == want and int(r.payload[0]) == len(want), "component-elements", lambda: "elements of %s: %s too many, %s missing" % (c.name, [g for g in got if g not in want][:5], [g for g in want if g not in got][:5]))
        ctx.count("elements_compared", len(want))
        ctx.distinct(("elems", min(len(want), 12)))
        return
    if kind == "owners":
        ask, want = [], []
        for _ in range(rng.choice([1, 1, 2, 3, 6, 15])):
            if rng.random() < 0.2 or not every:
                ask.append(rng.choice(["Nope", "Shared.Nope", "Shared.Obj.No()", "Own1.Obj.X!"]))
                continue
            c = rng.choice(w.comps)
            ns = [n for n, v in c.nodes().items() if v[0] != OBJ] or [c.name]
            n = rng.choice(ns)
            if c.nodes().get(n, (PROP, 0))[0] == TABLE:
                n += "."
            ask.append(n)
            want.append(c.name)
        r = x.call("disccomp 0 %d %s" % (len(ask), " ".join(pct(a) for a in ask)))
        got = [unpct(g) for g in r.payload[1:]] if r.rc == 0 else None
        ctx.check(r.rc == 0 and got == want and int(r.payload[0]) == len(want), "owners", lambda: "owners of %s: %s rc %d, expected %s" % (ask, got, r.rc, want))
        ctx.distinct(("owners", len(ask), len(set(want))))
        return
    if kind == "nothing" or not every:
        path = rng.choice(["Nope.", "Shared.Nope.", "Own99.", "Shared.Obj.Nope", "Nope"])
    elif kind == "top":
        path = rng.choice(sorted({n.split(".")[0] for n in every if "." in n} or {"Nope"})) + "."
    elif kind == "leaf":
        ns = sorted(n for c in w.comps for n, v in c.nodes().items() if v[0] != OBJ)
        if not ns:
            return
        path = rng.choice(ns)
        if rng.random() < 0.3 and any(c.nodes().get(path, (0, 0))[0] == TABLE for c in w.comps):
            path += "."
    elif kind in ("row", "alias"):
        rows = [(c, r) for c in w.comps for r in c.rows]
        if not rows:
            return
        c, r = rng.choice(rows)
        path = r + rng.choice([".", ""])
        if kind == "alias" and c.rows[r]:
            a = "%s.[%s]." % (r.rsplit(".", 1)[0], c.rows[r])
            rr = x.call("info 0 %s %d" % (pct(a), depth))
            want = expect(w.comps, r, depth)
            p = rr.payload
            got = sorted((unpct(p[i]), unpct(p[i + 1]), int(p[i + 2]), int(p[i + 3])) for i in range(0, len(p) - 3, 4))
            ctx.check(rr.rc == 0 and got == want, "info-alias", lambda: "info %s %d rc %d reports %s, expected %s" % (a, depth, rr.rc, got[:4], want[:4]))
            ctx.distinct(("alias", depth, min(len(want), 8)))
            return
    else:
        objs = sorted(n for c in w.comps for n, v in c.nodes().items() if v[0] in (OBJ, TABLE))
        if not objs:
            return
        path = rng.choice(objs) + "."
    info(ctx, w, x, path, depth, kind)


def model(ctx, k, steps):
    rng = ctx.rng
    w = World(ctx, rng.choice([1, 2, 3, 4]))
    for _ in range(rng.randint(0, 12)):
        w.add_row()
    for step in range(steps):
        op = rng.choices(["q", "add", "rem", "reg", "close", "kill", "new", "bad"], [60, 8, 6, 4, 0.7, 0.5, 1.5, 1])[0]
        if op == "q":
            queries(ctx, w)
        elif op == "add":
            w.add_row()
        elif op == "rem":
            w.rem_row()
        elif op == "reg":
            c = rng.choice(w.comps)
            if len(c.els) < 45:
                # rows that exist already are not asked about new elements of their table: they are asked for those they had
                w.register(c, rng.randint(1, 4))
        elif op in ("close", "kill") and len(w.comps) > 1:
            w.drop(op)
        elif op == "new" and len(w.comps) < 6:
            c = w.new()
            w.register(c, rng.randint(2, 8))
        elif op == "bad":
            r = w.w.call("info 0 Shared. %d" % rng.choice([17, -17, 100, -2147483647]))
            ctx.check(r.rc == 2 and not r.payload, "depth-limit", lambda: "a depth beyond the limit returned %d" % r.rc)
        if ctx.failed:
            return
        if not w.comps:
            w.register(w.new(), 5)
    ctx.count("components", w.serial)


def stale(ctx, k):
    """An element that was given up is not reported any more."""
    rng = ctx.rng
    ctx.start_broker()
    p, c = ctx.comp("prov"), ctx.comp("cons")
    p.ok("reg 0 3 St.A p gs St.B p gs St.Obj.C p g")
    p.ok("unreg 0 1 St.B p gs")
    p.call("get 0 Nobody.At.All")
    r = c.ok("discelem 0 prov 0")
    ctx.check(sorted(r.payload[1:]) == ["St.A", "St.Obj.C", "prov"], "elements-after-unregister", lambda: "discelem reports %s" % r.payload)
    r = c.ok("disccomp 0 2 St.B St.A")
    ctx.check(r.payload == ["1", "prov"], "owners-after-unregister", lambda: "disccomp reports %s" % r.payload)
    r = c.ok("info 0 St.B 0")
    ctx.check(r.payload == [], "info-after-unregister", lambda: "info St.B reports %s" % r.payload)
    r = c.ok("info 0 St. 1")
    ctx.check("St.B" not in r.payload, "given-up-element-in-partial-path", lambda: "info St. 1 still reports St.B after it was unregistered")
    ctx.distinct(("stale",))
    # registering it again: reported once
    p.ok("reg 0 1 St.B p g")
    r = c.ok("info 0 St. 1")
    ctx.check(r.payload.count("St.B") == 1, "registered-again", lambda: "St.B registered again is reported %d times" % r.payload.count("St.B"))
    r = c.ok("info 0 St.B 0")
    ctx.check(r.payload == ["St.B", "prov", "1", "1"], "registered-again", lambda: "St.B registered again for reading only is reported as %s" % r.payload)


def churn(ctx, k, secs):
    """Rows come and go (through the bus) while two consumers ask: what is there throughout is always reported once, nothing twice, and nothing that never was."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    c = [ctx.comp("c1"), ctx.comp("c2"), ctx.comp("c3")]
    p.ok("reg 0 5 Ch.A p gs Ch.T.{i}. t ar Ch.T.{i}.P p gs Ch.T.{i}.In.Q p g Ch.Z p s")
    fixed = [int(c[0].ok("addrow 0 Ch.T. !").payload[0]) for _ in range(rng.randint(1, 5))]
    keep = sorted(["Ch.A", "Ch.Z", "Ch.T.", "Ch."] + [x for i in fixed for x in ("Ch.T.%d." % i, "Ch.T.%d.P" % i, "Ch.T.%d.In." % i, "Ch.T.%d.In.Q" % i)])
    end = time.time() + secs
    live, most = [], max(fixed)
    while time.time() < end and not ctx.failed:
        futs = [(x, x.send("info 0 Ch. %d" % rng.choice([16, 5, 4]), j)) for x in c[1:] for j in range(3)]
        for _ in range(rng.randint(1, 6)):
            if live and rng.random() < 0.5:
                c[0].ok("remrow 0 Ch.T.%d" % live.pop(rng.randrange(len(live))))
            else:
                live.append(int(c[0].ok("addrow 0 Ch.T. !").payload[0]))
                most = max(most, live[-1])
        for x, f in futs:
            r = f.wait()
            p_ = r.payload
            names = [unpct(p_[i]) for i in range(0, len(p_) - 3, 4)]
            ctx.check(r.rc == 0, "info-outcome", lambda: "info returned %d while rows change" % r.rc)
            ctx.check(len(names) == len(set(names)), "reported-twice", lambda: "reported twice: %s" % [n for n in names if names.count(n) > 1][:4])
            miss = [n for n in keep if n not in names]
            ctx.check(not miss, "stable-element-missing", lambda: "missing %s while other rows change" % miss[:4])
            for n in names:
                q = n.rstrip(".").split(".")
                if len(q) > 2 and q[1] == "T":
                    ctx.check(q[2].isdigit() and 0 < int(q[2]) <= most, "never-existed", lambda: "reported %s, rows up to %d existed" % (n, most))
                    row = "Ch.T.%s." % q[2]
                    ctx.check(all(row + s in names for s in ("", "P", "In.", "In.Q")), "torn-row", lambda: "row %s is only partly reported" % row)
            ctx.count("concurrent_queries")
            ctx.distinct(("churn", len(fixed), min(len(live), 12)))
