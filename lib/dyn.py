"""Tables whose rows the provider brings up to date when they are asked for (sync handler), or answers for itself (get handler):
random histories against the rows the provider was told to have."""
from lib import gen
from lib.vlib import pct, unpct


def run(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    p = ctx.comp("prov")
    c, c2 = ctx.comp("cons"), ctx.comp("cons1")
    R = "Dy%d" % k
    S, V = R + ".S", R + ".V"
    late = rng.random() < 0.5      # the handler comes with the registration, or later
    y = "-" if late else "y"
    el = ["%s.{i}. t %s" % (S, y), "%s.{i}.A p gs" % S, "%s.{i}.O.X p g" % S, "%s.{i}.N.{i}. t %s" % (S, y), "%s.{i}.N.{i}.C p gs" % S,
          "%s.{i}. t g" % V, "%s.{i}.A p gs" % V, "%s.{i}.O.X p g" % V, "%s.{i}.W.{i}. t g" % V, "%s.{i}.W.{i}.D p gs" % V, R + ".P p gs"]
    if rng.random() < 0.5:
        # tables first, then in any order
        a, b = el[:1], el[1:]
        rng.shuffle(b)
        el = a + b
    p.ok("reg 0 %d %s" % (len(el), " ".join(el)))
    if late:
        p.ok("synctab 0 %s." % S)
        p.ok("synctab 0 %s.{i}.N." % S)
    p.ok("serve %s. 2 A O.X" % V)
    want = {S: set(), V: set()}        # table -> rows it is to have
    have = {S: set()}                  # what was seen to be registered
    val = {}
    # events of the synchronised table
    c2.ok("sub 0 %s. 1 5" % S)
    announced = []                     # expected (type, row) since the subscription

    def nested(t):
        return t == S or t.startswith(S + ".")

    def touch(t):
        """A request that brings the table up to date."""
        if not nested(t) or t not in want:
            return
        h = have.setdefault(t, set())
        for i in sorted(h - want[t]):
            if t == S:
                announced.append((1, i))
            for q in [q for q in have if q.startswith("%s.%d." % (t, i))]:
                del have[q]
        for i in sorted(want[t] - h):
            if t == S:
                announced.append((0, i))
        have[t] = set(want[t])

    def leaves(pre=""):
        out = [R + ".P"]
        for i in want[S]:
            out += ["%s.%d.A" % (S, i), "%s.%d.O.X" % (S, i)] + ["%s.%d.N.%d.C" % (S, i, j) for j in want.get("%s.%d.N" % (S, i), ())]
        for i in want[V]:
            out += ["%s.%d.A" % (V, i), "%s.%d.O.X" % (V, i)] + ["%s.%d.W.%d.D" % (V, i, j) for j in want.get("%s.%d.W" % (V, i), ())]
        return [n for n in out if n.startswith(pre)]

    def value(n):
        return val.get(n, "str:" + n)

    def getext(name, exp, code0=False):
        r = rng.choice([c, c2]).call("getext 0 1 " + name)
        got = sorted((unpct(r.payload[i]), r.payload[i + 1]) for i in range(1, len(r.payload) - 1, 2)) if r.payload else []
        w = sorted((n, value(n)) for n in exp)
        ctx.check(got == w, "dynamic-get", lambda: "get of %s (rc %d) has %s too many, %s missing" % (name, r.rc, [g for g in got if g not in w][:4], [g for g in w if g not in got][:4]))
        ctx.check(r.rc == 0 or not exp, "dynamic-rc", "get of %s returned %d, %d properties expected" % (name, r.rc, len(exp)))
        ctx.check(not r.payload or int(r.payload[0]) == len(got), "dynamic-count", "get of %s counts %s, returns %d" % (name, r.payload[:1], len(got)))
        ctx.distinct(("dyn", name.count("."), name.count("*"), min(len(exp), 6), r.rc))

    n = 0
    for step in range(steps):
        op = rng.choice(["rows", "rows", "get", "part", "part", "wild", "set", "names", "info", "row", "events", "absent"])
        ctx.count("dynamic_steps")
        if op == "rows":
            tabs = [S, V] + ["%s.%d.N" % (S, i) for i in want[S]] + ["%s.%d.W" % (V, i) for i in want[V]]
            t = rng.choice(tabs)
            new = set(want.get(t, ()))
            for _ in range(rng.randint(1, 3)):
                if new and rng.random() < 0.45:
                    new.discard(rng.choice(sorted(new)))
                elif len(new) < 6:
                    n += 1
                    new.add(rng.choice([rng.randint(1, 25), n, 4294967295 if rng.random() < 0.1 else n + 1]))
            for i in set(want.get(t, ())) - new:
                for q in [q for q in want if q.startswith("%s.%d." % (t, i))]:
                    del want[q]
                    p.ok("rows %s. 0" % q)
                for q in [q for q in val if q.startswith("%s.%d." % (t, i))]:
                    del val[q]
                    p.ok("store %s str:%s" % (q, q))
            want[t] = new
            p.ok("rows %s. %d %s" % (t, len(new), " ".join(map(str, sorted(new)))))
            if "." in t[len(R) + 1:] and t.endswith("W"):
                p.ok("serve %s. 1 D" % t) if t not in have else None
                have[t] = set()
        elif op == "get":
            l = leaves()
            name = rng.choice(l)
            if name.startswith(S):
                touch(S)
            r = c.call("get 0 " + name)
            ctx.check(r.rc == 0 and r.payload == [value(name)], "dynamic-get", "get of %s returned %d %s, expected %s" % (name, r.rc, r.payload[:1], value(name)))
            if name.startswith(S) and ".N." in name:
                touch(name.rsplit(".", 2)[0])
        elif op == "part":
            pre = rng.choice([R + ".", S + ".", V + "."] + ["%s.%d." % (S, i) for i in want[S]] + ["%s.%d." % (V, i) for i in want[V]] + ["%s.%d.N." % (S, i) for i in want[S]] + ["%s.%d.O." % (S, i) for i in want[S]] +
                             ["%s.%d.W." % (V, i) for i in want[V]] + ["%s.%d.O." % (V, i) for i in want[V]])
            if pre.startswith(S) or pre == R + ".":
                touch(S)
                for i in want[S]:
                    t = "%s.%d.N" % (S, i)
                    if t in want and (t + ".").startswith(pre):
                        touch(t)
            getext(pre, leaves(pre))
        elif op == "wild":
            touch(S)
            kind = rng.randrange(4)
            if kind == 0:
                getext(S + ".*.A", ["%s.%d.A" % (S, i) for i in want[S]])
            elif kind == 1:
                getext(S + ".*.", leaves(S + "."))
            elif kind == 2:
                getext(S + ".*.O.X", ["%s.%d.O.X" % (S, i) for i in want[S]])
            else:
                getext(S + ".*.N.*.C", [x for x in leaves(S + ".") if x.endswith(".C")])
            for i in want[S]:
                if kind in (1, 3):
                    touch("%s.%d.N" % (S, i))
        elif op == "set":
            l = [x for x in leaves() if x[-1] in "ACDP"]
            name = rng.choice(l)
            v = gen.value(rng, ["i32", "str", "u64"], 10, 0)
            if name.startswith(S):
                touch(S)
                if name.endswith(".C"):
                    touch(name.rsplit(".", 2)[0])
            r = c.call("set 0 %s %s" % (name, v))
            ctx.check(r.rc == 0, "dynamic-set", "set of %s returned %d" % (name, r.rc))
            val[name] = v
        elif op == "names":
            t = rng.choice([S] + ["%s.%d.N" % (S, i) for i in want[S]])
            touch(S)
            r = c.call("rownames 0 %s." % t)
            got = sorted(int(x) for x in r.payload[1::3])
            ctx.check(r.rc == 0 and got == sorted(want.get(t, ())), "dynamic-rows", "%s has rows %s (rc %d), expected %s" % (t, got, r.rc, sorted(want.get(t, ()))))
            touch(t)
        elif op == "info":
            touch(S)
            for i in want[S]:
                touch("%s.%d.N" % (S, i))
            r = c.call("info 0 %s. 5" % S)
            q = r.payload
            got = sorted((unpct(q[i]), int(q[i + 2]), int(q[i + 3])) for i in range(0, len(q) - 3, 4))
            w = [(S + ".", 2, 0)]
            for i in want[S]:
                w += [("%s.%d." % (S, i), 0, 3), ("%s.%d.A" % (S, i), 1, 3), ("%s.%d.O." % (S, i), 0, 0), ("%s.%d.O.X" % (S, i), 1, 1), ("%s.%d.N." % (S, i), 2, 0)]
                for j in want.get("%s.%d.N" % (S, i), ()):
                    w += [("%s.%d.N.%d." % (S, i, j), 0, 3), ("%s.%d.N.%d.C" % (S, i, j), 1, 3)]
            w.sort()
            ctx.check(r.rc == 0 and got == w, "dynamic-info", lambda: "element information of %s. (rc %d) has %s too many, %s missing" % (S, r.rc, [g for g in got if g not in w][:4], [g for g in w if g not in got][:4]))
        elif op == "absent":
            i = rng.randint(1, 40)
            t = rng.choice([S, V])
            if i in want[t]:
                continue
            if t == S:
                touch(S)
            r = c.call("get 0 %s.%d.A" % (t, i))
            ctx.check(r.rc != 0, "dynamic-absent", "get in row %d, which %s does not have, succeeded" % (i, t))
            getext("%s.%d." % (t, i), [])
        elif op == "events":
            p.sync()
            c2.wait_ev(lambda e: e.kind == "ev" and int(e[1]) == 1, len(announced), 10)
            c2.sync()
            evs = [(int(e[3]), int(gen_row(e[4]))) for e in c2.evs("ev") if int(e[1]) == 1]
            ctx.check(evs == announced or sorted(evs) == sorted(announced) and [e for e in evs] != announced and same_order(evs, announced), "dynamic-events", lambda: "row events %s, expected %s" % (evs[-12:], announced[-12:]))
            ctx.count("row_events", len(evs))
        if ctx.failed:
            return
    for e in p.evs("syncfail"):
        ctx.violation("dynamic-register", "a row of a synchronised table could not be registered or unregistered: %s" % e)


def gen_row(obj):
    return obj.split("rowName=str:")[1].split(",")[0].rstrip(")").split(".")[-1]


def same_order(a, b):
    """Same events, apart from the order within one synchronisation: per row the order is the same."""
    return all([x for x in a if x[1] == i] == [x for x in b if x[1] == i] for i in {x[1] for x in b})
