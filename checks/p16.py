"""P16: random histories of row additions and removals (by consumers over the bus, by the provider through its handlers or by registering rows; with and without aliases, nested tables, two providers, provider rejections, repeated and unknown rows) against a reference tree of rows; row listings, property access by number and by alias, and the created/deleted events of every subscriber are compared with it after each step; a concurrent part checks the final rows and the events of racing additions and removals."""
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (operation, actor, alias?, nested?, outcome, rows in the table) combinations"


def plan(tier):
    n = 6 if tier == "quick" else 28
    return [{"fn": "hist", "args": {"k": i, "steps": 900 if tier == "quick" else 3000}} for i in range(n)] + \
           [{"fn": "conc", "args": {"k": i, "n": 60 if tier == "quick" else 400}} for i in range(max(2, n // 3))] + \
           [{"fn": "dyn", "args": {"k": i, "steps": 1500 if tier == "quick" else 9000}} for i in range(2 if tier == "quick" else 8)]


def dyn(ctx, k, steps):
    from lib import dyn
    dyn.run(ctx, k, steps)


class Row:
    def __init__(self, alias):
        self.alias, self.sub = alias, {}


def hist(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    provs = []
    tops = {}       # table name -> {inst: Row}
    owner = {}
    nohandler = set()
    for i in range(rng.choice([1, 2])):
        p = ctx.comp("prov" + "123456"[:i])
        b = "Tb%d" % i
        p.ok("reg 0 11 %s.T.{i}. t are %s.T.{i}.P p gs %s.T.{i}.U.{i}. t are %s.T.{i}.U.{i}.Q p gs %s.T.{i}.U.{i}.V.{i}. t are %s.R.{i}. t e %s.R.{i}.P p gs %s.Obj.Prop p gs %s.Obj.S.{i}. t are %s.Obj.S.{i}.P p gs %s.T.{i}.U.{i}.V.{i}.Q p gs" % ((b,) * 11))
        for t in ("%s.T." % b, "%s.R." % b, "%s.Obj.S." % b):
            tops[t] = {}
            owner[t] = p
        nohandler.add("%s.R." % b)
        provs.append(p)
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(2)]
    allc = provs + cons
    nested = {"T": "U", "U": "V"}
    counters = {}
    ud = [0]
    subs = {}       # (agent, table name or wildcard) -> ud
    expect = {}     # (agent, ud) -> list of (kind, table, row, inst, alias)
    removed = []

    def tables():
        out = []
        for t, rows in tops.items():
            def rec(name, rows):
                out.append((name, rows))
                base = name.rstrip(".").split(".")[-1]
                if base in nested:
                    for n, r in rows.items():
                        rec("%s%s.%s." % (name, n, nested[base]), r.sub)
            rec(t, rows)
        return out

    def own(t):
        for o in owner:
            if t.startswith(o):
                return owner[o]

    def aliased(t):
        """The same table addressed by aliases where rows have one."""
        tok = t.rstrip(".").split(".")
        rows = None
        name = ".".join(tok[:3] if tok[1] == "Obj" else tok[:2]) + "."
        i = 3 if tok[1] == "Obj" else 2
        rows, out = tops[name], name
        while i < len(tok):
            r = rows[tok[i]]
            out += "[%s]." % r.alias if r.alias and rng.random() < 0.8 else tok[i] + "."
            if i + 1 < len(tok):
                out += tok[i + 1] + "."
            rows = r.sub
            i += 2
        return out

    def announce(kind, t, inst, alias):
        wild = ".".join("*" if w.isdigit() else w for w in t.split("."))
        for (c, e), u in subs.items():
            if e in (t, wild):
                expect.setdefault((c, u), []).append((kind, t, "%s%s" % (t, inst), inst if kind == 0 else None, (alias or "") if kind == 0 else None))
                ctx.count("events_expected")

    def norm(name):
        """Row or table name with aliases replaced by numbers."""
        tok = name.rstrip(".").split(".")
        i = 3 if tok[1] == "Obj" else 2
        rows = tops.get(".".join(tok[:i]) + ".", {})
        while i < len(tok):
            if tok[i].startswith("["):
                m = [n for n, r in rows.items() if r.alias == tok[i][1:-1]]
                if m:
                    tok[i] = m[0]
            rows = rows[tok[i]].sub if tok[i] in rows else {}
            i += 2
        return ".".join(tok)

    def verify_events():
        for c in cons:
            want = {u: l for (x, u), l in expect.items() if x is c}
            c.wait_ev(lambda e: e.kind == "ev", sum(len(l) for l in want.values()), 30)
            c.sync()
            got = {}
            for e in c.evs("ev"):
                f = dict(x.split("=", 1) for x in e[4][e[4].index("(") + 1:-1].split(",") if "=" in x)
                val = lambda n: unpct(f[n].split(":", 1)[1]) if n in f else None
                nm = unpct(e[2])
                got.setdefault(int(e[1]), []).append((int(e[3]), nm, val("rowName"), val("instNum"), val("alias")))
            for u in set(got) | set(want):
                g, w = got.get(u, []), want.get(u, [])
                ok = len(g) == len(w) and all(x[0] == y[0] and x[2:] == y[2:] and (x[1] == y[1] or "[" in x[1]) for x, y in zip(g, w))
                ctx.check(ok, "events", lambda: "%s subscription %d got %s, must get %s" % (c.name, u, g[-4:], w[-4:]))

    nal = [0]
    for step in range(steps):
        op = rng.choices(["add", "reg", "rem", "unreg", "names", "prop", "sub", "unsub", "bad", "events"], [22, 14, 14, 9, 12, 14, 7, 2, 12, 6])[0]
        tl = tables()
        t, rows = rng.choice(tl if rng.random() < 0.75 else [x for x in tl if x[0] in tops])
        p = own(t)
        a = rng.choice(allc)
        alias = None
        if rng.random() < 0.5:
            nal[0] += 1
            alias = rng.choice(["al%d", "A-%d", "x_y z%d", "%d"]) % nal[0]
            if rng.random() < 0.5:      # aliases that are prefixes of each other
                short = "q" * rng.randint(1, 9)
                if all(x.alias != short for x in rows.values()):
                    alias = short
        at = "!" if alias is None else pct(alias)
        actor = "provider" if a is p else "consumer"
        if op == "add" and len(tl) < 60 and len(rows) < 9:
            via = aliased(t) if rng.random() < 0.3 else t
            rej = rng.random() < 0.1 and t not in nohandler
            # the handler numbers per addressed name: set the next number explicitly
            if t not in nohandler:
                nxt = counters.get(t, 0) + 1
                if rng.random() < 0.1:
                    nxt += rng.choice([5, 1000, 70000, 2147483640, 3000000000])
                if nxt > 4294967295:
                    nxt = rng.randint(1, 10**6)
                while str(nxt) in rows:
                    nxt += 1
                p.ok("cfg %s inst %d" % (pct(via), nxt - 1))
                p.ok("cfg %s add_rc %d" % (pct(via), 1 if rej else 0))
            m = p.mark()
            r = a.call("addrow 0 %s %s" % (pct(via), at))
            p.sync()
            calls = [e for e in p.evs("addrow", m)]
            if t in nohandler:
                ctx.check(r.rc != 0 and not calls, "add-nohandler", lambda: "adding a row to %s, whose provider has no add handler, returned %d" % (t, r.rc))
            else:
                ctx.check(len(calls) == 1 and unpct(calls[0][1]) == via and (None if calls[0][2] == "!" else unpct(calls[0][2])) == alias, "add-handler", lambda: "adding a row to %s with alias %s called the handler with %s" % (via, alias, [list(c) for c in calls]))
                if rej:
                    ctx.check(r.rc == 1, "add-reject", lambda: "a rejected addition to %s returned %d" % (t, r.rc))
                else:
                    ctx.check(r.rc == 0 and r.payload and r.payload[0] == str(nxt), "add-ok", lambda: "addition to %s as row %d returned %d %s" % (t, nxt, r.rc, r.payload))
                    counters[t] = nxt
                    rows[str(nxt)] = Row(alias)
                    announce(0, t, str(nxt), alias)
            ctx.distinct(("add", actor, alias is None, t.count("."), "[" in via, r.rc, len(rows)))
        elif op == "reg":
            known = rows and rng.random() < 0.25
            n = counters.get(t, 0) + rng.choice([1, 2, 50, 3000, 2500000000])
            n = rng.choice(sorted(rows)) if known else str(n if n <= 4294967295 else rng.randint(1, 10**6))
            if not known and (len(rows) > 8 or len(tl) > 60 or n in rows):
                continue
            r = p.call("regrow 0 %s %s %s" % (t, n, at))
            ctx.check((r.rc != 0) == bool(known), "register", lambda: "registering row %s%s, which %s, returned %d" % (t, n, "exists" if known else "does not exist", r.rc))
            if not known:
                rows[n] = Row(alias)
                counters[t] = max(counters.get(t, 0), int(n))
                announce(0, t, n, alias)
            ctx.distinct(("reg", known, alias is None, t.count("."), len(rows)))
        elif op in ("rem", "unreg"):
            if not rows:
                continue
            n = rng.choice(sorted(rows))
            ra = rows[n].alias
            name = (aliased(t) if rng.random() < 0.3 else t) + ("[%s]" % ra if ra and rng.random() < 0.5 else n)
            if rng.random() < 0.4:
                name += "."
            if op == "rem":
                rej = t not in nohandler and rng.random() < 0.15
                if t not in nohandler:
                    p.ok("cfg %s rem_rc %d" % (pct(name), 1 if rej else 0))
                r = a.call("remrow 0 %s" % pct(name))
                if t in nohandler:
                    ctx.check(r.rc != 0, "remove-nohandler", lambda: "removing %s, whose provider has no remove handler, returned %d" % (name, r.rc))
                    continue
                if rej:
                    ctx.check(r.rc == 1, "remove-reject", lambda: "a rejected removal of %s returned %d" % (name, r.rc))
                    p.ok("cfg %s rem_rc 0" % pct(name))
                    continue
            else:
                r = p.call("unregrow 0 %s" % pct(name))
            ctx.check(r.rc == 0, "remove", lambda: "%s %s returned %d" % (op, name, r.rc))
            del rows[n]
            removed.append((t, n, ra))
            announce(1, t, n, None)
            pre = "%s%s." % (t, n)
            for key in [x for x in subs if x[1].startswith(pre)]:
                # ended with its row; the consumer forgets it too
                key[0].call("unsub 0 %s" % key[1])
                del subs[key]
            ctx.distinct((op, actor, "[" in name, t.count("."), len(rows)))
        elif op == "names":
            via = aliased(t) if rng.random() < 0.3 else t
            r = a.call("rownames 0 %s" % pct(via))
            got = [(unpct(r.payload[i]), r.payload[i + 1], None if r.payload[i + 2] == "!" else unpct(r.payload[i + 2])) for i in range(0, len(r.payload) - 2, 3)]
            want = [("%s%s." % (via, n), n, x.alias) for n, x in rows.items()]
            ctx.check(r.rc == 0 and sorted(map(str, got)) == sorted(map(str, want)), "rows", lambda: "rows of %s are reported (%d) as %s, are %s" % (via, r.rc, got, want))
            ctx.distinct(("names", actor, "[" in via, t.count("."), len(rows)))
        elif op == "prop":
            base = t.rstrip(".").split(".")[-1]
            pn = {"T": "P", "U": "Q", "R": "P", "S": "P", "V": "Q"}[base]
            if rows and rng.random() < 0.75:
                n = rng.choice(sorted(rows))
                ra = rows[n].alias
                v = "i32:%d" % rng.randint(0, 10**6)
                name = "%s%s.%s" % (t, "[%s]" % ra if ra and rng.random() < 0.6 else n, pn)
                m = p.mark()
                r = a.call("set 0 %s %s 1" % (pct(name), v))
                r2 = a.call("get 0 %s" % pct(name))
                p.sync()
                hn = [unpct(e[1]) for e in p.evs("set", m)]
                ctx.check(r.rc == 0 and r2.rc == 0 and r2.payload[-1] == v and hn == [name], "row-property", lambda: "set and get of %s=%s returned %d, %d %s (handler saw %s)" % (name, v, r.rc, r2.rc, r2.payload, hn))
            else:
                c = [x for x in removed if x[0] == t and x[1] not in rows and (not x[2] or all(y.alias != x[2] for y in rows.values()))]
                gone = rng.choice(c) if c and rng.random() < 0.7 else (t, "99999", "no-such")
                name = "%s%s.%s" % (t, "[%s]" % gone[2] if gone[2] and rng.random() < 0.5 else gone[1], pn)
                m = p.mark()
                r = a.call("get 0 %s" % pct(name))
                r2 = a.call("set 0 %s i32:1 1" % pct(name))
                p.sync()
                ctx.check(r.rc != 0 and r2.rc != 0 and not p.evs("set", m) and not p.evs("get", m), "row-gone", lambda: "get and set of %s of a row that does not exist returned %d and %d" % (name, r.rc, r2.rc))
            ctx.distinct(("prop", actor, "[" in name, t.count("."), r.rc))
        elif op == "sub":
            c = rng.choice(cons)
            e = t if rng.random() < 0.8 or t in tops else ".".join("*" if w.isdigit() else w for w in t.split("."))
            if (c, e) in subs:
                continue
            ud[0] += 1
            c.ok("sub 0 %s %d 0" % (pct(e), ud[0]))
            subs[(c, e)] = ud[0]
            expect.setdefault((c, ud[0]), [])
            ctx.distinct(("sub", "*" in e, t.count(".")))
        elif op == "unsub" and subs:
            verify_events()
            key = rng.choice(sorted(subs, key=lambda x: (x[0].name, x[1])))
            key[0].ok("unsub 0 %s" % pct(key[1]))
            del subs[key]
        elif op == "bad":
            n = rng.choice(sorted(rows)) if rows else "1"
            what = rng.choice(["add-unknown", "add-nodot", "add-row", "add-prop", "rem-unknown", "rem-prop", "rem-table", "rem-template", "reg-unknown", "reg-prop", "unreg-unknown", "names-unknown", "names-row", "again"])
            cmd = {"add-unknown": "addrow 0 %sNo. !" % t, "add-nodot": "addrow 0 %s !" % t[:-1], "add-row": "addrow 0 %s%s. !" % (t, n), "add-prop": "addrow 0 %s.Obj.Prop. !" % t.split(".")[0],
                   "rem-unknown": "remrow 0 %s77777" % t, "rem-prop": "remrow 0 %s.Obj.Prop" % t.split(".")[0], "rem-table": "remrow 0 %s" % t, "rem-template": "remrow 0 %s{i}." % t,
                   "reg-unknown": "regrow 0 %sNo. 1 !" % t, "reg-prop": "regrow 0 %s.Obj. 1 !" % t.split(".")[0], "unreg-unknown": "unregrow 0 %s77777" % t,
                   "names-unknown": "rownames 0 %sNo." % t, "names-row": "rownames 0 %s%s." % (t, n), "again": None}[what]
            if what == "again":
                gone = [x for x in removed if x[0] == t and x[1] not in rows]
                if not gone or t in nohandler:
                    continue
                cmd = "remrow 0 %s%s" % (t, gone[-1][1])
            x = p if what.startswith(("reg", "unreg")) else a
            m = p.mark()
            r = x.call(cmd)
            p.sync()
            ctx.check(r.rc != 0 and not p.evs("addrow", m) and not p.evs("remrow", m), "refuse-" + what, lambda: "%s returned %d, must be refused without calling the provider's handler" % (cmd, r.rc))
            ctx.distinct(("bad", what, actor, t.count("."), r.rc))
        elif op == "events":
            verify_events()
        ctx.count("steps")
        if ctx.failed:
            return
    verify_events()
    for c in cons + provs:
        c.ok("close 0")


def conc(ctx, k, n):
    """Racing additions and removals."""
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    p.ok("reg 0 2 Cc.T.{i}. t are Cc.T.{i}.P p gs")
    cons = [ctx.comp("cons" + "123456"[:i]) for i in range(3)]
    w = ctx.comp("watch")
    w.ok("sub 0 Cc.T. 1 0")
    rows = set()
    made = {}
    lanes = [(c, i) for c in cons for i in range(2)]
    mine = {l: [] for l in lanes}
    created = deleted = 0
    for rnd in range(n):
        pend = []
        for l in lanes:
            c, wk = l
            if mine[l] and rng.random() < 0.45:
                r = mine[l].pop(rng.randrange(len(mine[l])))
                pend.append((l, "rem", r, c.send("remrow 0 Cc.T.%s" % r, worker=wk + 1)))
            else:
                pend.append((l, "add", None, c.send("addrow 0 Cc.T. !", worker=wk + 1)))
        for l, kind, row, tk in pend:
            r = tk.wait()
            ctx.check(r.rc == 0, "conc-" + kind, lambda: "%s %s returned %d" % (kind, row, r.rc))
            if kind == "add":
                ctx.check(r.payload[0] not in rows, "conc-same", lambda: "row %s was given to two additions" % r.payload[0])
                rows.add(r.payload[0])
                mine[l].append(r.payload[0])
                created += 1
            else:
                rows.discard(row)
                deleted += 1
        ctx.distinct(("conc", tuple(x[1] for x in pend)))
        if rnd % 3 == 2:
            r = rng.choice(cons).call("rownames 0 Cc.T.")
            got = [r.payload[i + 1] for i in range(0, len(r.payload) - 2, 3)]
            ctx.check(sorted(got) == sorted(rows), "conc-rows", lambda: "rows are %s, reported %s" % (sorted(rows), sorted(got)))
            w.wait_ev(lambda e: e.kind == "ev", created + deleted, 30)
            w.sync()
            ev = [(e[3], e[4]) for e in w.evs("ev")]
            ctx.check(len(ev) == created + deleted, "conc-events", lambda: "%d events for %d additions and %d removals" % (len(ev), created, deleted))
        if ctx.failed:
            return
    live = set()
    import re
    for ty, o in [(e[3], e[4]) for e in w.evs("ev")]:
        row = re.search(r"rowName=str:([^,)]*)", o).group(1)
        if ty == "0":
            ctx.check(row not in live, "conc-order", lambda: "row %s was announced as created twice" % row)
            live.add(row)
        else:
            ctx.check(row in live, "conc-order", lambda: "row %s was announced as deleted while it did not exist" % row)
            live.discard(row)
    ctx.count("events_seen", created + deleted)
    ctx.check(sorted(live) == sorted("Cc.T.%s" % r for r in rows), "conc-final", lambda: "events leave %s, rows are %s" % (sorted(live), sorted(rows)))
