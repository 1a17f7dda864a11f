"""P11: partial-path, wildcard, alias and multi-name gets against a reference tree of properties, tables (nested, grown and shrunk by consumers and providers) spread over several providers; result sets, counts and values compared exactly; queries during concurrent row changes bounded by what existed throughout / at some time."""
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (query kind, depth, providers matched, size class of the result, outcome) combinations"


def plan(tier):
    n = 6 if tier == "quick" else 24
    return [{"fn": "seq", "args": {"k": i, "steps": 1500 if tier == "quick" else 2500}} for i in range(n)] + \
           [{"fn": "churn", "args": {"k": i, "rounds": 150 if tier == "quick" else 800}} for i in range(2 if tier == "quick" else 8)] + \
           [{"fn": "dyn", "args": {"k": i, "steps": 1500 if tier == "quick" else 9000}} for i in range(2 if tier == "quick" else 8)]


def dyn(ctx, k, steps):
    from lib import dyn
    dyn.run(ctx, k, steps)


def pname(i):
    """Names of components are prefixes of each other, and some are long."""
    return "prov" + "123456"[:i] + (".has.a.long.name." + "n" * 60 if i == 1 else "")


class World:
    """Providers and what exists below them. props: full name -> (provider, flags); tables: 'A.T' -> provider; rows: 'A.T.1' -> alias."""

    def __init__(self, ctx, nprov):
        self.ctx, self.rng = ctx, ctx.rng
        ctx.start_broker()
        self.provs = [ctx.comp(pname(i)) for i in range(nprov)]
        self.cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
        self.templates = {}   # template name (with {i}) -> (provider, flags) of every registered property
        self.tables = {}      # table template name -> provider
        self.rows = {}        # row name -> alias or None
        self.val = {}         # property -> value set
        self.err = {}         # property -> get error
        self.inst = {}
        for i, p in enumerate(self.provs):
            self.populate(i, p)

    def populate(self, i, p):
        rng = self.rng
        own, shared = "Own%d." % i, "Shared."
        cmd = []

        def prop(name):
            f = rng.choice(["gs", "gs", "g", "s", "-"])
            self.templates[name] = (p, f)
            cmd.append("%s p %s" % (name, f))

        def table(name):
            self.tables[name] = p
            cmd.append("%s.{i}. t ar" % name)
        for base in (own, shared):
            for j in range(rng.randint(1, 4)):
                prop("%s%s%d%d" % (base + rng.choice(["", "Obj.", "Obj.Sub."]), gen.rname(rng), i, j))
            for j in range(rng.randint(1, 2)):
                t = "%sTab%d%d" % (base + rng.choice(["", "Obj."]), i, j)
                table(t)
                for c in range(rng.randint(1, 3)):
                    prop("%s.{i}.%sC%d" % (t, rng.choice(["", "In."]), c))
                if rng.random() < 0.6:
                    n = t + ".{i}." + rng.choice(["", "In."]) + "Nest"
                    table(n)
                    for c in range(rng.randint(1, 2)):
                        prop("%s.{i}.N%d" % (n, c))
                    if rng.random() < 0.3:
                        table(n + ".{i}.Deep")
                        prop(n + ".{i}.Deep.{i}.D")
        cmd.append(own + "Evt! e e")
        cmd.append(own + "Do() m m")
        if rng.random() < 0.5:
            p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))
        else:
            for c in cmd:
                p.ok("reg 0 1 " + c)

    @staticmethod
    def tmpl(name):
        """A.T.1.C -> A.T.{i}.C (components are letters first, rows are numbers)."""
        return ".".join("{i}" if c.isdigit() else c for c in name.split("."))

    def owner(self, table):
        return self.tables[self.tmpl(table)]

    def existing_tables(self):
        out = [t for t in self.tables if "{i}" not in t]
        for r in self.rows:
            for t in self.tables:
                if "{i}" in t and self.tmpl(r) == t[:t.rindex("{i}") + 3]:
                    out.append(r + t[t.rindex("{i}") + 3:])
        return out

    def existing_props(self):
        out = {}
        for t, (p, f) in self.templates.items():
            if "{i}" not in t:
                out[t] = (p, f)
            else:
                k = t.rindex("{i}") + 3
                for r in self.rows:
                    if self.tmpl(r) == t[:k]:
                        out[r + t[k:]] = (p, f)
        return out

    def readable(self):
        return {n: p for n, (p, f) in self.existing_props().items() if "g" in f}

    def value(self, n):
        return self.val.get(n, "str:" + n)

    def add_row(self, t=None):
        ctx, rng = self.ctx, self.rng
        t = t or rng.choice(self.existing_tables())
        p = self.owner(t)
        alias = "al" + "x" * rng.choice([0, 1, 2, 3, 8, 20]) + rng.choice(["", "y", "2"]) if rng.random() < 0.5 else None
        if alias and any(a == alias and r.rsplit(".", 1)[0] == t for r, a in self.rows.items()):
            alias = None
        if rng.random() < 0.5:
            r = rng.choice(self.cons + self.provs).ok("addrow 0 %s. %s" % (t, pct(alias)))
            if r.rc:
                return
            inst = int(r.payload[0])
        else:
            inst = self.inst.get(t, 0) + rng.randint(1, 50) + 1000
            self.inst[t] = inst - 1000
            p.ok("regrow 0 %s. %d %s" % (t, inst, pct(alias)))
        self.rows["%s.%d" % (t, inst)] = alias

    def late(self):
        """More is registered below a table that has rows already: every row gets it."""
        rng = self.rng
        t = rng.choice(list(self.tables))
        p = self.tables[t]
        self.serial = getattr(self, "serial", 0) + 1
        base = "%s.{i}.%s" % (t, rng.choice(["", "In.", "Late."]))
        cmd = []
        for j in range(rng.choice([1, 1, 2])):
            n, f = "%sL%d%d" % (base, self.serial, j), rng.choice(["gs", "g", "s"])
            self.templates[n] = (p, f)
            cmd.append("%s p %s" % (n, f))
        if t.count("{i}") < 2 and rng.random() < 0.4:
            n = "%sLt%d" % (base, self.serial)
            self.tables[n] = p
            cmd.append("%s.{i}. t ar" % n)
            self.templates[n + ".{i}.X"] = (p, "gs")
            cmd.append("%s.{i}.X p gs" % n)
            if rng.random() < 0.5:
                cmd.reverse()
        p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))

    def remove_row(self):
        if not self.rows:
            return
        r = self.rng.choice(list(self.rows))
        p = self.owner(r.rsplit(".", 1)[0])
        if self.rng.random() < 0.5:
            self.rng.choice(self.cons + self.provs).ok("remrow 0 " + r)
        else:
            p.ok("unregrow 0 " + r)
        self.forget(r)

    def forget(self, r):
        for x in [x for x in self.rows if x == r or x.startswith(r + ".")]:
            del self.rows[x]
        for d in (self.val, self.err):
            for x in [x for x in d if x.startswith(r + ".")]:
                if d is self.val:
                    self.existing_any(x).ok("store %s str:%s" % (x, x))
                else:
                    self.existing_any(x).ok("cfg %s get_rc 0" % x)
                del d[x]

    def existing_any(self, n):
        return self.templates[self.tmpl(n)][0]


def result(r):
    n = int(r.payload[0])
    pairs = list(zip(r.payload[1::2], r.payload[2::2]))
    return n, [(unpct(a), b) for a, b in pairs]


def query(ctx, w, rng):
    """A random query: text, its matches, kind."""
    props = w.existing_props()
    kind = rng.choice(["partial", "partial", "wild", "wild", "row", "alias", "nomatch", "star"])
    name = rng.choice(list(props))
    parts = name.split(".")
    if kind == "star":
        ts = w.existing_tables()
        base = rng.choice(ts) + "."
        return base + "*", [n for n in props if n.startswith(base)], kind, base.count(".")
    if kind == "partial":
        k = rng.randint(1, len(parts) - 1)
        base = ".".join(parts[:k]) + "."
        return base, [n for n in props if n.startswith(base)], kind, k
    if kind == "row" and w.rows:
        base = rng.choice(list(w.rows)) + "."
        return base, [n for n in props if n.startswith(base)], kind, base.count(".")
    if kind == "alias" and any(w.rows.values()):
        r = rng.choice([r for r in w.rows if w.rows[r]])
        base = r + "."
        return "%s.[%s]." % (r.rsplit(".", 1)[0], w.rows[r]), [n for n in props if n.startswith(base)], kind, base.count(".")
    if kind == "wild":
        cand = [n for n in props if any(c.isdigit() for c in n.split("."))]
        if cand:
            parts = rng.choice(cand).split(".")
            idx = [i for i, c in enumerate(parts) if c.isdigit()]
            pick = [i for i in idx if rng.random() < 0.7] or [rng.choice(idx)]
            if rng.random() < 0.4:
                cut = rng.randint(max(pick) + 1, len(parts))
                tail = "." if cut < len(parts) else ""
                parts = parts[:cut]
            else:
                tail = ""
            q = ["*" if i in pick else c for i, c in enumerate(parts)]

            def match(n):
                m = n.split(".")
                if len(m) < len(q) or (not tail and len(m) != len(q)):
                    return False
                return all((a == b) or (a == "*" and b.isdigit()) for a, b in zip(q, m)) and (not tail or len(m) > len(q))
            return ".".join(q) + tail, [n for n in props if match(n)], kind, len(pick)
    return rng.choice(["Nope.", "Own0.Nothing.", "Shared.Tab99.", "Shared.Nope.*.X", "Own0.Evt!."]), [], "nomatch", 0


def seq(ctx, k, steps):
    rng = ctx.rng
    w = World(ctx, rng.choice([1, 2, 3]))
    for _ in range(rng.randint(3, 25)):
        w.add_row()
    for step in range(steps):
        op = rng.random()
        if op < 0.08:
            w.add_row()
            continue
        if op < 0.125:
            w.remove_row()
            continue
        if op < 0.14 and len(w.templates) < 90:
            w.late()
            continue
        props = w.existing_props()
        if op < 0.3:
            n = rng.choice(list(props))
            p, f = props[n]
            if "g" in f:
                if rng.random() < 0.85:
                    w.val[n] = gen.value(rng, big=40)
                    p.ok("store %s %s" % (n, w.val[n]))
                else:
                    w.err[n] = rng.choice([0, 0, 1, 11, 14, 18, 6, 28, 17, 5, 20])
                    p.ok("cfg %s get_rc %d" % (n, w.err[n]))
            continue
        a = rng.choice(w.cons + w.provs)
        if op < 0.45:  # several names at once
            pool = [n for n in props if "g" in props[n][1] and not w.err.get(n)]
            names = [rng.choice(pool) for _ in range(rng.choice([2, 2, 3, 5, 9, 30]))] if pool else []
            if not names:
                continue
            kind = rng.choice(["ok", "ok", "bad"])
            asked = list(names)
            if kind == "bad":
                bads = [n for n in props if "g" not in props[n][1] or w.err.get(n)] + ["No.Such", names[0] + "x"]
                asked.insert(rng.choice([0, len(asked), rng.randint(0, len(asked))]), rng.choice(bads))
            elif rng.random() < 0.3:
                i = rng.randrange(len(asked))
                al = [r for r in w.rows if w.rows[r] and asked[i].startswith(r + ".")]
                if al:
                    r0 = al[0]
                    asked[i] = "%s.[%s]%s" % (r0.rsplit(".", 1)[0], w.rows[r0], asked[i][len(r0):])
            r = a.call("getext 0 %d %s" % (len(asked), " ".join(pct(x) for x in asked)))
            n, got = result(r)
            if kind == "bad":
                ctx.check(r.rc != 0, "multi-get-error", lambda: "getExt %s must fail, returned success with %d" % (asked, n))
                ctx.check(n == 0 and not got, "multi-get-partial", lambda: "failed getExt %s left %d properties" % (asked, n))
            else:
                # the handler of a row addressed by alias is given the name as asked; the agent keeps values by number
                ctx.check(r.rc == 0 and n == len(asked) == len(got), "multi-get-count", lambda: "getExt %s: rc %d count %d, %d properties" % (asked, r.rc, n, len(got)))
                exp = sorted((q, w.value(q) if q == o else "str:" + pct(q)) for q, o in zip(asked, names))
                ctx.check(sorted(got) == exp, "multi-get", lambda: "getExt returned %s, expected %s" % (sorted(got)[:10], exp[:10]))
            ctx.distinct(("multi", len(asked), len({props[x][0].name for x in names}), kind, r.rc))
        else:
            q, match, kind, depth = query(ctx, w, rng)
            exp = {n: w.value(n) for n in match if "g" in props[n][1]}
            broken = [n for n in exp if w.err.get(n)]
            r = a.call("getext 0 1 " + pct(q))
            n, got = result(r)
            ctx.distinct((kind, depth, len({props[x][0].name for x in match}), min(len(exp), 20), bool(broken), r.rc))
            ctx.check(n == len(got), "count", lambda: "getExt %s: count %d but %d properties" % (q, n, len(got)))
            if not ctx.check(len({g[0] for g in got}) == len(got), "duplicate", lambda: "getExt %s returned a property twice: %s" % (q, sorted(g[0] for g in got))):
                return
            if broken:
                ok = r.rc != 0 or all(g[0] in exp and g[1] == exp[g[0]] and g[0] not in broken for g in got)
                ctx.check(ok, "foreign", lambda: "getExt %s returned %s, expected at most %s" % (q, got[:20], exp))
                if kind in ("partial", "row", "alias", "star"):
                    ctx.check({g[0] for g in got} == set(exp) - set(broken), "partial-with-errors", lambda: "getExt %s returned %s, expected %s" % (q, sorted(g[0] for g in got), sorted(set(exp) - set(broken))))
                continue
            if exp:
                ctx.check(r.rc == 0, "query-failed", lambda: "getExt %s returned %d, expected %s" % (q, r.rc, sorted(exp)))
            miss, extra = set(exp) - {g[0] for g in got}, {g[0] for g in got} - set(exp)
            ctx.check(not miss, "missing", lambda: "getExt %s lacks %s (rows %s)" % (q, sorted(miss), sorted(w.rows)))
            ctx.check(not extra, "foreign", lambda: "getExt %s returned %s which do not match or exist" % (q, sorted(extra)))
            bad = [(g, exp.get(g[0])) for g in got if g[1] != exp.get(g[0])]
            ctx.check(not bad, "value", lambda: "getExt %s: wrong values %s" % (q, bad[:5]))
            if step % 40 == 0:
                ctx.sample("getExt %s -> %d properties %s" % (q, n, sorted(g[0] for g in got)[:6]))
        if ctx.failed:
            return
        # now and then a provider goes away and comes back
        if rng.random() < 0.004:
            i = rng.randrange(len(w.provs))
            p = w.provs[i]
            p.ok("close 0")
            for d in (w.templates, w.tables):
                for x in [x for x in d if (d[x][0] if d is w.templates else d[x]) is p]:
                    del d[x]
            w.rows = {x: v for x, v in w.rows.items() if w.tmpl(x).rsplit(".", 1)[0] in w.tables}
            w.val = {x: v for x, v in w.val.items() if w.tmpl(x) in w.templates}
            w.err = {x: v for x, v in w.err.items() if w.tmpl(x) in w.templates}
            w.provs[i] = ctx.comp(pname(i))
            w.populate(i, w.provs[i])
    for p in w.provs + w.cons:
        p.ok("close 0")


def churn(ctx, k, rounds):
    """Queries while a consumer adds and removes rows: everything that existed throughout is there, nothing that never existed at that time is."""
    import threading, random
    rng = ctx.rng
    ctx.start_broker()
    prov = [ctx.comp("prov" + "123456"[:i]) for i in range(2)]
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
    for i, p in enumerate(prov):
        p.ok("reg 0 5 Ch.T%d.{i}. t ar Ch.T%d.{i}.A p gs Ch.T%d.{i}.N.{i}. t ar Ch.T%d.{i}.N.{i}.B p g Ch.P%d p gs" % (i, i, i, i, i))
    rows = {}   # name -> [add start, add end, remove start, remove end]
    INF = float("inf")
    lock = threading.Lock()

    def mutate(i):
        r2 = random.Random("%s/%d/%d" % (ctx.seed, k, i))
        mine = []
        for _ in range(rounds):
            if len(mine) < 4 or r2.random() < 0.5:
                base = "Ch.T%d." % i if not mine or r2.random() < 0.6 else r2.choice([m for m in mine if m.count(".") == 2]) + ".N."
                r = cons[i].call("addrow 0 %s !" % base, 10)
                if ctx.check(r.rc == 0, "addrow", "addrow %s failed %d" % (base, r.rc)):
                    n = base + r.payload[0]
                    mine.append(n)
                    with lock:
                        rows[n] = [r.t0, r.t1, INF, INF]
            else:
                m = r2.choice(mine)
                gone = [x for x in mine if x == m or x.startswith(m + ".")]
                r = cons[i].call("remrow 0 " + m, 10)
                ctx.check(r.rc == 0, "remrow", "remrow %s failed %d" % (m, r.rc))
                for x in gone:
                    mine.remove(x)
                    with lock:
                        rows[x][2:] = [r.t0, r.t1]
    seen = []

    def ask(i):
        r2 = random.Random("%s/%d/q%d" % (ctx.seed, k, i))
        for _ in range(rounds * 2):
            q = r2.choice(["Ch.", "Ch.T0.", "Ch.T1.", "Ch.T0.*.A", "Ch.T1.*.N.*.B"])
            seen.append((q, cons[i % 2].call("getext 0 1 " + q, i)))
    ts = [threading.Thread(target=mutate, args=(i,)) for i in range(2)] + [threading.Thread(target=ask, args=(i,)) for i in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for q, r in seen:
        n, got = result(r)
        names = {g[0] for g in got}
        ctx.check(n == len(names) == len(got), "duplicate", lambda: "%s returned %s" % (q, got))

        def matches(row):
            c = "B" if row.count(".") == 4 else "A"
            full = "%s.%s" % (row, c)
            if "*" in q:
                return full if World.tmpl(full) == q.replace("*", "{i}") else None
            return full if full.startswith(q) else None
        sure = {m for row, (a0, a1, r0, r1) in rows.items() for m in [matches(row)] if m and a1 < r.t0 and r0 > r.t1}
        maybe = {m for row, (a0, a1, r0, r1) in rows.items() for m in [matches(row)] if m and a0 < r.t1 and r1 > r.t0}
        if q == "Ch.":
            sure |= {"Ch.P0", "Ch.P1"}
            maybe |= {"Ch.P0", "Ch.P1"}
        ctx.check(sure <= names, "missing", lambda: "%s lacks %s" % (q, sorted(sure - names)))
        ctx.check(names <= maybe, "foreign", lambda: "%s returned %s which did not exist then" % (q, sorted(names - maybe)))
        ctx.distinct((q, len(sure), len(maybe) - len(sure), len(names) - len(sure)))
    for p in prov + cons:
        p.ok("close 0")
