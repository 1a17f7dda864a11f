"""P12: several publishers and subscribers (own process or shared, several handles, plain, row and wildcard row events, plain/async/multi subscriptions) subscribe, unsubscribe and publish random data singly and in bursts, first one after the other against an exact reference model of who must receive what, then from concurrent threads judged per subscription interval: exactly once while subscribed, at most once around the edges, never outside, in publisher order, nothing to strangers."""
import threading, random, time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one bus call; distinct = (operation, kind of event, number of receivers, same process or other, burst size) combinations"
GENERAL = 3
NOSUB = 23


def plan(tier):
    n = 6 if tier == "quick" else 24
    return [{"fn": "seq", "args": {"k": i, "steps": 2000 if tier == "quick" else 8000}} for i in range(n)] + \
           [{"fn": "conc", "args": {"k": i, "rounds": 200 if tier == "quick" else 800}} for i in range(n)]


class Sub:
    def __init__(self, a, h, ev, ud):
        self.a, self.h, self.ev, self.ud = a, h, ev, ud


def matches(sub, ev, alias={}):
    x, y = sub.split("."), ev.split(".")
    return len(x) == len(y) and all(p == q or p == "*" or (p[0] == "[" and alias.get(".".join(y[:j + 1])) == p[1:-1]) for j, (p, q) in enumerate(zip(x, y)))


def forms(rng, ev, alias):
    """A name for the event: rows by number, alias or as any row."""
    w = ev.split(".")
    for j in range(len(w)):
        if w[j].isdigit():
            a = alias.get(".".join(w[:j + 1]))
            w[j] = rng.choice([w[j], "*", "[%s]" % a if a else w[j]])
    return ".".join(w)


def build(ctx, nprov, ncons):
    rng = ctx.rng
    ctx.start_broker()
    provs, evs, alias = [], {}, {}
    ctx.alias = alias       # row -> its alias

    def addrow(p, t):
        al = rng.choice(["!", "!", "al%d" % rng.randint(0, 10**6), "z", "zz", "zzz"])
        if any(x.rpartition(".")[0] + "." == t and v == al for x, v in alias.items()):
            al = "!"
        n = int(p.ok("addrow 0 %s %s" % (t, al)).payload[0])
        if al != "!":
            alias["%s%d" % (t, n)] = al
        return n
    for i in range(nprov):
        p = ctx.comp("prov" + "123456"[:i])
        plain = ["Ev%d.%s.E%d" % (i, gen.rname(rng), j) for j in range(3)]
        cmd = ["%s e %s" % (n, rng.choice(["-", "e"])) for n in plain]
        t = "Ev%d.Tab." % i
        cmd += ["%s{i}. t ar" % t, "%s{i}.E e %s" % (t, rng.choice(["-", "e"])), "%s{i}.Sub.{i}. t ar" % t, "%s{i}.Sub.{i}.F e -" % t]
        p.ok("reg 0 %d %s" % (len(cmd), " ".join(cmd)))
        for n in plain:
            evs[n] = p
        for r in range(rng.randint(1, 3)):
            n = addrow(p, t)
            evs["%s%d.E" % (t, n)] = p
            for q in range(rng.randint(0, 2)):
                m = addrow(p, "%s%d.Sub." % (t, n))
                evs["%s%d.Sub.%d.F" % (t, n, m)] = p
        provs.append(p)
    ctx.addrow = addrow
    handles = []
    for i in range(ncons):
        c = ctx.comp("cons" + "123456"[:i])
        handles.append((c, 0))
        if rng.random() < 0.5:
            c.ok("open 1 cons%db" % i)
            handles.append((c, 1))
    handles += [(p, 0) for p in provs if rng.random() < 0.5]
    return provs, evs, handles


def seq(ctx, k, steps):
    rng = ctx.rng
    provs, evs, handles = build(ctx, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]))
    names = list(evs)
    wild = sorted({".".join("*" if w.isdigit() else w for w in n.split(".")) for n in names if ".Tab." in n})
    wild += sorted({forms(rng, n, ctx.alias) for n in names * 3 if ".Tab." in n} - set(names) - set(wild))
    allnames = names + wild
    subs, udn, expected, stranger = [], [100], {}, 0

    def drain():
        """Everything sent so far must be in, exactly."""
        for a in {x.a for x in subs} | {h[0] for h in handles}:
            want = {u: l for (x, u), l in expected.items() if x is a}
            tot = sum(len(l) for l in want.values())
            a.wait_ev(lambda e: e.kind == "ev", tot, 30)
            got = {}
            for e in a.evs("ev"):
                got.setdefault(int(e[1]), []).append((unpct(e[2]), int(e[3]), e[4]))
            for u in set(got) | set(want):
                g, w = got.get(u, []), want.get(u, [])
                if g != w:
                    i = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
                    key = "lost" if len(g) < len(w) else "extra" if len(g) > len(w) else "content"
                    ctx.check(False, "event-" + key, "%s, subscription %d: got %d events, expected %d; first difference at %d: got %s expected %s" % (a.name, u, len(g), len(w), i, g[i:i + 1], w[i:i + 1]))
                    return
                ctx.count("oracle_checks", len(w))

    pending = 0
    for step in range(steps):
        op = rng.choices(["sub", "unsub", "pub", "burst", "multi", "unmulti", "row"], [14, 10, 40, 10, 3, 2, 2])[0]
        a, h = rng.choice(handles)
        if op == "sub":
            n = rng.choice(allnames)
            have = any(s.a is a and s.h == h and s.ev == n for s in subs)
            udn[0] += 1
            kind = rng.choice(["sub", "sub", "suba", "ex"])
            if kind == "suba" and not have:
                m = a.mark()
                r = a.call("suba %d %s %d 5" % (h, n, udn[0]))
                ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc))
                e = a.wait_ev(lambda e: e.kind == "subresp" and e[1] == str(udn[0]), 1, 30, m)
                ctx.check(len(e) == 1 and e[0][3] == "0", "sub-failed", lambda: "%s reported %s" % (r.cmd, e))
            elif kind == "ex":
                r = a.call("subex %d 0 5 1 %s ! 0 0 0 %d" % (h, n, udn[0]))
                ctx.check((r.rc == 0) != have, "sub-result", "%s returned %d, already subscribed: %s" % (r.cmd, r.rc, have))
            else:
                r = a.call("sub %d %s %d 5" % (h, n, udn[0]))
                ctx.check((r.rc == 0) != have, "sub-result", "%s returned %d, already subscribed: %s" % (r.cmd, r.rc, have))
            if not have:
                subs.append(Sub(a, h, n, udn[0]))
            ctx.distinct(("sub", kind, have, "*" in n, "[" in n, a.name[:4]))
        elif op == "multi":
            ns = [n for n in rng.sample(allnames, min(len(allnames), rng.randint(2, 4))) if not any(s.a is a and s.h == h and s.ev == n for s in subs)]
            if ns:
                us = [udn[0] + i + 1 for i in range(len(ns))]
                udn[0] += len(ns)
                r = a.call("subex %d 0 5 %d %s" % (h, len(ns), " ".join("%s ! 0 0 0 %d" % x for x in zip(ns, us))))
                ctx.check(r.rc == 0, "sub-failed", "%s returned %d" % (r.cmd, r.rc))
                subs += [Sub(a, h, n, u) for n, u in zip(ns, us)]
        elif op == "unmulti":
            drain()
            pending = 0
            mine = [s for s in subs if s.a is a and s.h == h][:3]
            if mine:
                r = a.call("unsubex %d 0 0 %d %s" % (h, len(mine), " ".join("%s ! 0 0 0 %d" % (s.ev, s.ud) for s in mine)))
                ctx.check(r.rc == 0, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
                subs = [s for s in subs if s not in mine]
        elif op == "unsub" and subs:
            drain()     # an event still under way may be dropped when its subscription ends
            pending = 0
            s = rng.choice(subs)
            r = s.a.call("unsub %d %s" % (s.h, s.ev) if rng.random() < 0.7 else "unsubex %d 0 0 1 %s ! 0 0 0 %d" % (s.h, s.ev, s.ud))
            ctx.check(r.rc == 0, "unsub-failed", "%s returned %d" % (r.cmd, r.rc))
            subs.remove(s)
        elif op == "row" and len(names) < 45:
            # a new row belongs to every wildcard subscription there is
            i = rng.randrange(len(provs))
            t = "Ev%d.Tab." % i
            deep = [n[:-1] + "Sub." for n in names if n.startswith(t) and n.endswith(".E")]
            if deep and rng.random() < 0.5:
                t = rng.choice(deep)
            new = "%s%d.%s" % (t, ctx.addrow(provs[i], t), "F" if t.endswith("Sub.") else "E")
            evs[new] = provs[i]
            names.append(new)
            allnames.append(new)
            ctx.distinct(("row", t.count("."), min(5, sum(matches(s.ev, new, ctx.alias) for s in subs))))
        elif op in ("pub", "burst"):
            n = rng.choice(names[-4:] if rng.random() < 0.2 else names)
            p = evs[n]
            to = [s for s in subs if matches(s.ev, n, ctx.alias)]
            cnt = 1 if op == "pub" else rng.randint(2, 8)
            perproc = max([sum(1 for s in to if s.a is x) for x in {s.a for s in to}] or [0])
            if perproc:
                cnt = max(1, min(cnt, 12 // perproc))
            if pending + cnt * perproc > 18:
                drain()
                pending = 0
                if ctx.failed:
                    return
            pending += cnt * perproc
            if op == "pub":
                o = rng.choice(["!"] + [gen.obj(rng, big=gen.size(rng, [10, 60, 2000], 0.02))] * 6)
                r = p.call("pub 0 %s %d %s" % (n, GENERAL, o))
                msgs = [o]
            else:
                r = p.call("pubn 0 %s %d %d %d t%d 0" % (n, GENERAL, step, cnt, step))
                msgs = ["~(n=i32:%d,tag=str:t%d)" % (step + i, step) for i in range(cnt)]
            if to:
                ctx.check(r.rc == 0, "publish-failed", "%s returned %d with %d subscribers" % (r.cmd, r.rc, len(to)))
            else:
                ctx.check(r.rc == NOSUB, "absence-not-reported", "%s returned %d without any subscriber" % (r.cmd, r.rc))
            for s in to:
                for m in msgs:
                    expected.setdefault((s.a, s.ud), []).append((n, GENERAL, m))
            ctx.count("events_published", cnt)
            ctx.count("deliveries_expected", cnt * len(to))
            ctx.distinct((op, len(n.split(".")), min(len(to), 6), any(s.a is p for s in to), sum("*" in s.ev for s in to) > 0, cnt))
        if rng.random() < 0.15:
            drain()
            pending = 0
        if ctx.failed:
            return
        if step == 40:
            ctx.sample("%d subscriptions after 40 steps: %s" % (len(subs), [(s.a.name, s.h, s.ev) for s in subs][:8]))
    drain()
    # a sentinel round: anything published before must not turn up late or twice
    time.sleep(0.3)
    for a in {h[0] for h in handles}:
        a.sync()
    drain()
    for a, h in handles:
        a.ok("close %d" % h)


def conc(ctx, k, rounds):
    """Publisher threads and subscriber threads at the same time."""
    rng = ctx.rng
    provs, evs, handles = build(ctx, rng.choice([1, 2]), rng.choice([2, 3]))
    names = [n for n in evs]
    rng.shuffle(names)
    names = names[:5]
    pubs = [(evs[n], n, 10 + i) for i, n in enumerate(names)][:4]
    pubs.append((pubs[0][0], pubs[0][1], 20))      # two threads publish one event
    hs = handles[:4]
    seqno = {w: 0 for _, _, w in pubs}
    log = []        # (tag worker, n, event name, t0, t1)
    subs = []       # dict: agent, ud, ev, s0, s1 (subscribe call), u0, u1 (unsubscribe call, None while alive)
    ud = [1000]
    churn = [random.Random("%s/%d/%d" % (ctx.seed, k, i)) for i in range(len(hs))]

    def toggler(i, stop):
        a, h = hs[i]
        r2 = churn[i]
        mine = [s for s in subs if s["a"] is a and s["h"] == h and s["u0"] is None]
        while not stop.is_set():
            alive = [s for s in mine if s["u0"] is None]
            if alive and (len(alive) > 1 or r2.random() < 0.4):
                s = r2.choice(alive)
                s["u0"] = 0
                r = a.call("unsub %d %s" % (h, s["ev"]), 30 + i)
                s["u0"], s["u1"] = r.t0, r.t1
                ctx.check(r.rc == 0, "unsub-failed", "%s: %s returned %d" % (a.name, r.cmd, r.rc))
            else:
                free = [n for n in names if not any(s["ev"] == n for s in alive)]
                if not free:
                    break
                n = r2.choice(free)
                with lock:
                    ud[0] += 1
                    u = ud[0]
                s = {"a": a, "h": h, "ud": u, "ev": n, "u0": None, "u1": None}
                r = a.call("sub %d %s %d 10" % (h, n, u), 30 + i)
                s["s0"], s["s1"] = r.t0, r.t1
                ctx.check(r.rc == 0, "sub-failed", "%s: %s returned %d" % (a.name, r.cmd, r.rc))
                with lock:
                    subs.append(s)
                mine.append(s)
            time.sleep(r2.random() * 0.01)
    lock = threading.Lock()
    for rnd in range(rounds):
        stop = threading.Event()
        # at most ~20 messages to one process per round
        perproc = 1
        for a in {x[0] for x in hs}:
            perproc = max(perproc, sum(2 for x in hs if x[0] is a))
        per = max(1, min(4, 18 // (len(pubs) * perproc)))
        ts = [threading.Thread(target=toggler, args=(i, stop)) for i in range(len(hs))] if rnd % 3 != 0 else []
        [t.start() for t in ts]
        futs = []
        for p, n, w in pubs:
            for j in range(per):
                futs.append((w, seqno[w], n, p.send("pubn 0 %s %d %d 1 w%d 0" % (n, GENERAL, seqno[w], w), w)))
                seqno[w] += 1
        for w, q, n, f in futs:
            r = f.wait()
            log.append((w, q, n, r.t0, r.t1, r.rc))
            ctx.check(r.rc in (0, NOSUB), "publish-failed", "%s returned %d" % (r.cmd, r.rc))
        stop.set()
        [t.join() for t in ts]
        ctx.count("events_published", len(futs))
        # wait for the deliveries that are certain
        for s in subs:
            if s.get("done"):
                continue
            must = [(w, q) for w, q, n, t0, t1, rc in log if n == s["ev"] and t0 > s["s1"] and (s["u0"] is None or (w, q) in s.get("was", ()))]
            if s["u0"] is None:
                s["was"] = set(must)    # events still under way may be dropped when the subscription ends
            s["must"] = must
            ms = set(must)
            got = s["a"].wait_ev(lambda e: e.kind == "ev" and e[1] == str(s["ud"]) and tagof(e) in ms, len(ms), 30)
            ctx.count("deliveries_expected", len(ms) - s.get("seen", 0))
            s["seen"] = len(ms)
            if not ctx.check(len({tagof(e) for e in got}) == len(ms), "event-lost", lambda: "%s, subscription %d to %s (%s) misses %s" % (s["a"].name, s["ud"], s["ev"], s, sorted(ms - {tagof(e) for e in got}))):
                return
            if s["u0"] is not None:
                s["done"] = True
        # forget old history to keep the rounds cheap
        low = min([s["s0"] for s in subs if not s.get("done")] or [0])
    time.sleep(0.2)
    t_of = {(w, q): (n, t0, t1) for w, q, n, t0, t1, rc in log}
    for a in {h[0] for h in hs}:
        a.sync()
        by = {}
        for e in a.evs("ev"):
            by.setdefault(int(e[1]), []).append(e)
        known = {s["ud"]: s for s in subs if s["a"] is a}
        for u, l in by.items():
            if not ctx.check(u in known, "event-stranger", "%s got events for subscription %d it never made" % (a.name, u)):
                continue
            s = known[u]
            tags = [tagof(e) for e in l]
            ctx.check(len(tags) == len(set(tags)), "event-duplicate", lambda: "%s, subscription %d to %s got an event twice: %s" % (a.name, u, s["ev"], [t for t in tags if tags.count(t) > 1][:4]))
            last = {}
            for w, q in tags:
                ctx.check(q > last.get(w, -1), "event-order", lambda: "%s, subscription %d: event %d of %s after %d" % (a.name, u, q, w, last.get(w)))
                last[w] = q
                n, t0, t1 = t_of.get((w, q), (None, 0, 0))
                ctx.check(n == s["ev"], "event-wrong", lambda: "%s, subscription to %s got event of %s" % (a.name, s["ev"], n))
                ctx.check(t1 > s["s0"], "event-early", lambda: "%s, subscription %d got an event published before it was made" % (a.name, u))
                if s["u1"]:
                    ctx.check(t0 < s["u1"], "event-after-unsubscribe", lambda: "%s, subscription %d to %s got event %s published after unsubscribe returned" % (a.name, u, s["ev"], (w, q)))
            for e in l:
                if s["u1"]:
                    ctx.check(True, "", "")
            ctx.distinct(("conc", len(l) > 3, s["u0"] is not None, s["a"].name[:4]))
    ctx.count("subscriptions", len(subs))
    for a, h in handles:
        a.ok("close %d" % h)


def tagof(e):
    # ~(n=i32:5,tag=str:w10)
    o = e[4]
    i = o.index("n=i32:") + 6
    j = o.index(",", i)
    return (int(o[o.index("tag=str:w") + 9:-1]), int(o[i:j]))
