"""P28: random histories over the core interface: several processes register objects, methods (singly and as tables), elements and events, take them back, die and come back, while all of them call objects, elements and methods with random payloads (also nested, deferred, unanswered and failing ones), push and pull, subscribe to, publish and unsubscribe from events; every call is compared with a reference model of who serves which name (handler log, answer, code), every published event with the subscribers of that moment. A concurrent part publishes, subscribes, calls and registers from many threads at once and checks exactly-once and order of the deliveries that are certain."""
import random, threading, time
from lib import gen
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one call of the core interface; distinct = (call, who, state of the name, outcome, payload shape) combinations"
OK, GENERAL, INVALID, TIMEOUT, UNSUP, NOTFOUND = 0, 1, 2, 7, 9, 17


def plan(tier):
    n, s, r = (8, 2500, 30) if tier == "quick" else (24, 6000, 30)
    return [{"fn": "hist", "args": {"k": i, "steps": s}} for i in range(n)] + [{"fn": "conc", "args": {"k": i, "rounds": r}} for i in range(n // 2)] + [{"fn": "cycle", "args": {"rounds": 30 if tier == "quick" else 300}}]


def items(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])):
        t = rng.choice("silidb")
        if t == "s":
            out.append("s:" + pct(gen.rstr(rng, gen.size(rng, [0, 1, 5, 40, 300, 3000], 0.02)).replace("!", "_")))
        elif t == "i":
            out.append("i:%d" % rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1)]))
        elif t == "l":
            out.append("l:%d" % rng.choice([0, -1, 2**63 - 1, -2**63, rng.randint(-2**63, 2**63 - 1)]))
        elif t == "d":
            out.append("d:" + gen.f64hex(rng.choice([0.0, -1.5, 1e300, rng.uniform(-1e9, 1e9)])))
        else:
            out.append("b:" + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 200]))).hex())
    return out


class Obj:
    def __init__(self, a, name, tag):
        self.a, self.name, self.tag = a, name, tag
        self.meth, self.el, self.ev = {}, set(), {}


def hist(ctx, k, steps):
    rng = ctx.rng
    ctx.start_broker()
    n = rng.choice([2, 3, 4])
    ag = []
    for i in range(n):
        a = ctx.agent("core" + "abcdef"[:i + 1])
        a.ok("c_open core%d" % i)
        ag.append(a)
    objs, uniq = {}, [0]
    subs = {}       # (agent, object, event) -> ud, what the subscriber's process holds
    names = ["Co%d.%s" % (k, x) for x in ("A", "Ab", "A.b", "obj", "Q.R.S", "long." + "x" * 90, "z1", "z12", "last")]
    mnames = ["m", "mm", "method_%d" % k, "M", "x" * 60] + ["g%d" % i for i in range(36)]
    expect = {}     # agent -> list of (ud, object, event, items) to be received

    def target():
        """A name to call and the object it reaches (or None)."""
        x = rng.random()
        if objs and x < 0.9:
            o = rng.choice(list(objs.values()))
            els = sorted(o.el)
            if els and rng.random() < 0.35:
                return rng.choice(els), o
            return o.name, o
        free = [q for q in names if q not in objs] + ["Co%d.Nobody" % k]
        return rng.choice(free), None

    def who(o, m):
        return o.meth.get(m, o.tag)

    def calls(marks, want, what):
        for a in ag:
            a.sync()
            got = [_toks(e) for e in a.evs("ccall", marks[a])]
            w = [x[1] for x in want if x[0] is a]
            ctx.check(got == w, "handler", lambda: "%s: handlers of %s ran %s, expected %s" % (what, a.name, str(got)[:400], str(w)[:400]))

    def drain():
        for a in ag:
            w = expect.get(a, [])
            a.wait_ev(lambda e: e.kind == "cev", len(w), 20)
            a.sync()
            got = [_toks(e) for e in a.evs("cev")]
            ctx.check(got == w, "events", lambda: "%s received %d events, expected %d; first difference %s" % (a.name, len(got), len(w), next(((i, g, x) for i, (g, x) in enumerate(zip(got + [None], w + [None])) if g != x), None)))

    def pubsub_check(a, o, ev, added, m, what, listener=None):
        """The provider's subscription callback."""
        o.a.sync()
        got = [_toks(e) for e in o.a.evs("csub", m)]
        ok = len(got) == (1 if added is not None else 0) and all(unpct(g[0]) == o.ev[ev]["tag"] and unpct(g[1]) == o.name and unpct(g[2]) == evname(ev) and g[4] == str(added) for g in got)
        ctx.check(ok or o.ev[ev]["tag"] is None and not got, "subscribe-callback", lambda: "%s: provider's callback ran %s" % (what, got))

    def evname(ev):
        return "" if ev == "!" else ev
    since_drain = 0
    for step in range(steps):
        op = rng.choices(["obj", "unobj", "meth", "unmeth", "tab", "el", "unel", "call", "nest", "push", "pull", "ev", "unev", "sub", "unsub", "pub", "disc", "die"],
                         [5, 1, 7, 3, 2, 5, 3, 22, 3, 4, 4, 6, 0.7, 14, 4, 22, 4, 0.3])[0]
        a = rng.choice(ag)
        if objs and op in ("meth", "unmeth", "tab", "el", "unel", "ev", "unev", "pub"):
            a = rng.choice(list(objs.values())).a
        own = [o for o in objs.values() if o.a is a]
        if op == "obj":
            nm = rng.choice(names)
            if nm in objs and objs[nm].a is not a:
                continue    # two processes with one object name aren't told apart by the broker
            t = _tag(uniq)
            r = a.call("c_obj %s %s" % (nm, t))
            ctx.check(r.rc == (INVALID if nm in objs else OK), "register-object", lambda: "registering %s (%s) returned %d" % (nm, "there already" if nm in objs else "new", r.rc))
            if nm not in objs:
                objs[nm] = Obj(a, nm, t)
        elif op == "unobj":
            nm = rng.choice(names)
            o = objs.get(nm)
            if o:
                drain()
                r = o.a.call("c_unobj " + nm)
                ctx.check(r.rc == OK, "unregister-object", "unregistering %s returned %d" % (nm, r.rc))
                del objs[nm]
                for key in [q for q in subs if q[1] == nm]:
                    # the subscriber knows nothing about it; it takes its own subscription back
                    key[0].call("c_unsub %s %s" % (nm, pct(key[2]) if key[2] != "!" else "!"))
                    del subs[key]
            else:
                r = a.call("c_unobj " + nm)
                ctx.check(r.rc != OK, "unregister-object", "unregistering %s, which nobody has, returned success" % nm)
            o = None
        elif op == "meth" and own:
            o = rng.choice(own)
            m, t = rng.choice(mnames), _tag(uniq)
            r = a.call("c_meth %s %s %s" % (o.name, m, t))
            full = len(o.meth) + (2 if o.ev or getattr(o, "had_ev", False) else 0) >= 32
            want = [INVALID] if m in o.meth else [OK]
            if full:
                want = [11, INVALID]
            ctx.check(r.rc in want, "register-method", lambda: "registering %s of %s (%d methods) returned %d" % (m, o.name, len(o.meth), r.rc))
            if r.rc == OK and m not in o.meth:
                o.meth[m] = t
        elif op == "unmeth" and own:
            o = rng.choice(own)
            m = rng.choice(mnames + sorted(o.meth) * 3)
            r = a.call("c_unmeth %s %s" % (o.name, m))
            ctx.check((r.rc == OK) == (m in o.meth), "unregister-method", lambda: "unregistering %s of %s, which has %s, returned %d" % (m, o.name, sorted(o.meth), r.rc))
            o.meth.pop(m, None)
        elif op == "tab" and own:
            o = rng.choice(own)
            if rng.random() < 0.6:
                l = [(m, _tag(uniq)) for m in rng.sample(mnames, rng.randint(1, 5))]
                if len(o.meth) > 22:
                    continue
                r = a.call("c_tab %s %d %s" % (o.name, len(l), " ".join("%s %s" % x for x in l)))
                bad = next((i for i, x in enumerate(l) if x[0] in o.meth), None)
                ctx.check((r.rc == OK) == (bad is None), "method-table", lambda: "table %s of %s returned %d" % (l, o.name, r.rc))
                o.meth.update(dict(l[:bad]))     # those before the refused one stay
            elif o.meth:
                l = rng.sample(sorted(o.meth), rng.randint(1, min(5, len(o.meth))))
                r = a.call("c_untab %s %d %s" % (o.name, len(l), " ".join("%s x" % x for x in l)))
                ctx.check(r.rc == OK, "method-table", lambda: "removing table %s of %s returned %d" % (l, o.name, r.rc))
                for m in l:
                    del o.meth[m]
        elif op == "el" and own:
            o = rng.choice(own)
            e = "Co%d.el.%s" % (k, rng.choice("abcdefgh") * rng.choice([1, 2]))
            holder = next((q for q in objs.values() if e in q.el), None)
            r = a.call("c_el %s %s" % (o.name, e))
            ctx.check((r.rc == OK) == (holder is None) and (holder is None or r.rc == 16), "add-element", lambda: "adding %s to %s returned %d, held by %s" % (e, o.name, r.rc, holder and holder.name))
            if holder is None:
                o.el.add(e)
        elif op == "unel" and own:
            o = rng.choice(own)
            if o.el:
                e = rng.choice(sorted(o.el))
                a.ok("c_unel %s %s" % (o.name, e))
                o.el.discard(e)
                _settle(a, k)
        elif op in ("call", "nest"):
            nm, o = target()
            m = rng.choice(mnames[:6]) if o is None or rng.random() < 0.3 or not o.meth else rng.choice(sorted(o.meth))
            its = items(rng)
            marks = {x: x.mark() for x in ag}
            x, exp, want = rng.random(), [], []
            if op == "nest" and o is not None:
                # the handler itself calls another object while its caller waits
                n2, o2 = target()
                if o2 is None or o2.a is o.a:
                    continue
                ins = "s:" + pct("!nest=" + n2)
            else:
                ins = None
                if x < 0.08:
                    ins = "s:" + pct("!rc=%d" % rng.choice([1, 5, 1000]))
                elif x < 0.13:
                    ins = "s:" + pct("!none")
                elif x < 0.2:
                    ins = "s:" + pct("!ms=%d" % rng.choice([1, 20]))
                elif x < 0.26 and o is not None and m not in o.meth:
                    ins = "s:" + pct("!late=%d" % rng.choice([0, 5, 40]))
            allits = its + ([ins] if ins else [])
            r = a.call("c_inv %s %s 8000 %s" % (nm, m, " ".join(allits)))
            what = "%s calls %s of %s" % (a.name, m, nm)
            if o is None:
                ctx.check(r.rc == NOTFOUND, "nobody", lambda: what + ", which nobody has, returned %d %s" % (r.rc, r.payload[:3]))
            else:
                want.append((o.a, (who(o, m), nm, m) + tuple(allits)))
                ctx.check(r.rc == OK, "call-failed", lambda: what + " returned %d" % r.rc)
                if ins and "!none" in unpct(ins[2:]):
                    ctx.check(r.payload[:1] == [str(UNSUP)], "no-answer", lambda: what + ": handler gave no answer, caller got %s" % r.payload[:3])
                else:
                    code = unpct(ins[2:]).split("=")[1] if ins and "!rc" in unpct(ins[2:]) else "0"
                    exp = [code, "s:" + who(o, m), "s:" + pct(nm), "s:" + m] + allits
                    if op == "nest":
                        exp += ["i:0", "s:" + who(o2, "nested"), "s:" + pct(n2), "s:nested", "s:nested"]
                        want.append((o2.a, (who(o2, "nested"), n2, "nested", "s:nested")))
                    ctx.check(list(r.payload) == exp, "answer", lambda: what + ": got %s, expected %s" % (str(r.payload)[:300], str(exp)[:300]))
            calls(marks, want, what)
            ctx.distinct((op, o is not None and m in o.meth, o is not None and nm != o.name, len(its), unpct(ins[2:]).split("=")[0] if ins else None, a is (o and o.a), r.rc))
        elif op == "push":
            nm, o = target()
            its = items(rng)
            rc = rng.choice([0, 0, 0, 4, 8])
            if rc:
                its.append("s:" + pct("!rc=%d" % rc))
            marks = {x: x.mark() for x in ag}
            r = a.call("c_push %s %s %s" % (nm, rng.choice(["-", "5000"]), " ".join(its)))
            ctx.check(r.rc == (NOTFOUND if o is None else rc), "push", lambda: "%s pushes to %s: returned %d" % (a.name, nm, r.rc))
            calls(marks, [(o.a, (who(o, SET), nm, SET) + tuple(its))] if o else [], "push to " + nm)
            ctx.distinct(("push", o is None, rc, len(its)))
        elif op == "pull":
            nm, o = target()
            marks = {x: x.mark() for x in ag}
            r = a.call("c_pull %s 5000" % nm)
            ctx.check(r.rc == (NOTFOUND if o is None else OK), "pull", lambda: "%s pulls %s: returned %d" % (a.name, nm, r.rc))
            if o:
                ctx.check(list(r.payload) == ["s:" + o.tag, "s:" + pct(nm), "s:" + GET], "pull", lambda: "%s pulls %s: got %s" % (a.name, nm, r.payload))
            calls(marks, [(o.a, (o.tag, nm, GET))] if o else [], "pull of " + nm)
        elif op == "ev" and own:
            o = rng.choice(own)
            ev = rng.choice(["!", "e1", "e2", "Ev." + "y" * 40])
            t = rng.choice([_tag(uniq), "-"])
            if len(o.meth) > 28:
                continue
            r = a.call("c_ev %s %s %s" % (o.name, ev, t))
            ctx.check(r.rc == OK, "register-event", "registering event %s of %s returned %d" % (ev, o.name, r.rc))
            o.had_ev = True
            if ev not in o.ev:
                o.ev[ev] = {"tag": None if t == "-" else t, "subs": []}
        elif op == "unev" and own:
            o = rng.choice(own)
            ev = rng.choice(["!", "e1", "e2"])
            drain()
            r = a.call("c_unev %s %s" % (o.name, ev))
            ctx.check((r.rc == OK) == (ev in o.ev), "unregister-event", "unregistering event %s of %s returned %d" % (ev, o.name, r.rc))
            if ev in o.ev:
                for key in [q for q in subs if q[1] == o.name and q[2] == ev]:
                    key[0].call("c_unsub %s %s" % (o.name, ev))
                    del subs[key]
                del o.ev[ev]
        elif op == "sub":
            nm, o = target()
            if o is not None:
                nm = o.name
            ev = rng.choice(sorted(o.ev)) if o is not None and o.ev and rng.random() < 0.85 else rng.choice(["!", "e1", "nope"])
            key = (a, nm, ev)
            there = o is not None and ev in o.ev
            ud = _tag(uniq)
            m = o.a.mark() if o else None
            r = a.call("c_sub %s %s %s 5000" % (nm, ev, ud))
            if key in subs:
                ctx.check(r.rc == OK, "subscribe-again", "subscribing to %s of %s again returned %d" % (ev, nm, r.rc))
                continue
            ctx.check((r.rc == OK) == there, "subscribe", lambda: "%s subscribes to %s of %s (%s): returned %d" % (a.name, ev, nm, "there" if there else "not there", r.rc))
            if there:
                subs[key] = ud
                o.ev[ev]["subs"].append((a, ud))
                pubsub_check(a, o, ev, 1, m, "subscribe to %s of %s" % (ev, nm))
            ctx.distinct(("sub", there, o is None, ev == "!", o is not None and o.a is a))
        elif op == "unsub" and subs:
            key = rng.choice(sorted(subs, key=lambda q: (q[0].name, q[1], q[2])))
            drain()
            o = objs[key[1]]
            m = o.a.mark()
            r = key[0].call("c_unsub %s %s" % (key[1], key[2]))
            ctx.check(r.rc == OK, "unsubscribe", "%s unsubscribes from %s of %s: returned %d" % (key[0].name, key[2], key[1], r.rc))
            pubsub_check(key[0], o, key[2], 0, m, "unsubscribe from %s of %s" % (key[2], key[1]))
            o.ev[key[2]]["subs"] = [x for x in o.ev[key[2]]["subs"] if x[0] is not key[0]]
            del subs[key]
        elif op == "pub" and own:
            o = rng.choice(own)
            ev = rng.choice(sorted(o.ev) * 6 + ["!", "nope"]) if o.ev else "e1"
            its = items(rng)
            r = a.call("c_pub %s %s %s" % (o.name, ev, " ".join(its)))
            ctx.check((r.rc == OK) == (ev in o.ev), "publish", lambda: "publishing %s of %s, which has %s, returned %d" % (ev, o.name, sorted(o.ev), r.rc))
            if ev in o.ev:
                for s, ud in o.ev[ev]["subs"]:
                    expect.setdefault(s, []).append((ud, o.name, pct(evname_real(ctx, ev))) + tuple(its))
                since_drain += 1
                ctx.count("published")
                ctx.count("deliveries", len(o.ev[ev]["subs"]))
                ctx.distinct(("pub", len(o.ev[ev]["subs"]), any(s is a for s, _ in o.ev[ev]["subs"]), ev == "!", len(its)))
            if since_drain >= 15:
                since_drain = 0
                drain()
        elif op == "disc":
            x = rng.random()
            if x < 0.5 and objs:
                o = rng.choice(list(objs.values()))
                r = a.ok("c_elems " + o.name)
                ctx.check(sorted(unpct(q) for q in r.payload) == sorted({o.name} | o.el), "elements", lambda: "elements of %s: %s, expected %s" % (o.name, r.payload, sorted({o.name} | o.el)))
            elif x < 0.75 and objs:
                nm, o = target()
                r = a.call("c_owner " + nm)
                got = [unpct(q) for q in r.payload]
                ctx.check(got == [o.name] if o else [q for q in got if q] == [], "owner", lambda: "owner of %s: rc %d %s, expected %s" % (nm, r.rc, got, o and o.name))
            else:
                r = a.ok("c_comps")
                got = [unpct(q) for q in r.payload]
                ours = sorted(q for q in got if q.startswith("Co%d." % k))
                ctx.check(ours == sorted(objs), "registered", lambda: "registered objects %s, expected %s" % (ours, sorted(objs)))
        elif op == "die" and len(ag) > 1:
            drain()
            i = ag.index(a)
            for key in [q for q in subs if q[0] is a or objs[q[1]].a is a]:
                if key[0] is not a:
                    pass
                o = objs[key[1]]
                o.ev[key[2]]["subs"] = [x for x in o.ev[key[2]]["subs"] if x[0] is not key[0]]
                if key[0] is not a:
                    key[0].call("c_unsub %s %s" % (key[1], key[2]))
                elif rng.random() < 0.5:
                    pass
                del subs[key]
            if rng.random() < 0.5:
                a.ok("c_close")
                a.expected_death = True
                a.p.stdin.close()
                a.p.wait(30)
            else:
                a.kill()
            for nm in [q for q in objs if objs[q].a is a]:
                del objs[nm]
            expect.pop(a, None)
            ag[i] = ctx.agent("core%s%d" % ("abcdef"[:i + 1], step))
            ag[i].ok("c_open core%d" % i)
            time.sleep(0.3)
        if ctx.failed:
            return
    drain()
    for a in ag:
        for o in [o for o in objs.values() if o.a is a]:
            a.ok("c_unobj " + o.name)
        a.ok("c_close")


def conc(ctx, k, rounds):
    """One provider whose objects are published on, called, subscribed to and rebuilt by many threads at once."""
    rng = ctx.rng
    ctx.start_broker()
    p, q, r = ctx.agent("cprov"), ctx.agent("csub"), ctx.agent("csub2")
    for i, a in enumerate((p, q, r)):
        a.ok("c_open conc%d" % i)
    S, V, W = "Cc.stable", "Cc.vary", "Cc.gone"
    for o in (S, V):
        p.ok("c_obj %s %s" % (o, o))
        for e in ("!", "e1", "e2"):
            p.ok("c_ev %s %s %s" % (o, e, rng.choice(["-", o + "cb"])))
    p.ok("c_meth %s fix F" % S)
    evs = ["!", "e1", "e2"]
    for i, a in enumerate((q, r)):
        for e in evs:
            a.ok("c_sub %s %s st%d%s 5000" % (S, e, i, pct(evname_real(ctx, e)).strip("~")))
    stop = threading.Event()
    bad = []

    def loop(a, w, f):
        def run():
            i = 0
            while not stop.is_set() and not ctx.failed:
                f(a, w, i)
                i += 1
        t = threading.Thread(target=run)
        t.start()
        return t

    def meths(a, w, i):
        m = "v%d" % (i % 3)
        x = [a.call("c_meth %s %s M%s" % (V, m, m), w).rc, a.call("c_unmeth %s %s" % (V, m), w).rc]
        if x != [OK, OK]:
            bad.append("registering and unregistering %s returned %s" % (m, x))
        ctx.count("rebuilt_methods")

    def objs(a, w, i):
        x = [a.call("c_obj %s W" % W, w).rc, a.call("c_meth %s m Wm" % W, w).rc, a.call("c_ev %s e1 -" % W, w).rc, a.call("c_unobj " + W, w).rc]
        if x != [OK] * 4:
            bad.append("building and removing %s returned %s" % (W, x))
        ctx.count("rebuilt_objects")

    def events(a, w, i):
        x = [a.call("c_ev %s n%d -" % (V, w), w).rc, a.call("c_pub %s n%d i:1" % (V, w), w).rc, a.call("c_unev %s n%d" % (V, w), w).rc]
        if x != [OK] * 3:
            bad.append("registering, publishing and unregistering event n%d returned %s" % (w, x))

    def subs(a, w, i):
        e = evs[w % 3]
        ud = "v%d.%d" % (w, i)
        x = [a.call("c_sub %s %s %s 5000" % (V, e, ud), w).rc, p.call("c_pub %s %s i:%d" % (V, e, i), 20 + w).rc, a.call("c_unsub %s %s" % (V, e), w).rc]
        if x != [OK] * 3:
            bad.append("subscribing, publishing, unsubscribing %s returned %s" % (e, x))
        ctx.count("resubscribed")

    def call(a, w, i):
        x = (w + i) % 4
        its = "i:%d s:%s" % (i, "z" * (1 + i % 50))
        if x < 2:
            m = ["fix", "other"][x]
            z = a.call("c_inv %s %s 20000 %s" % (S, m, its), w)
            if z.rc != OK or list(z.payload[:2]) != ["0", "s:F" if m == "fix" else "s:" + S] or list(z.payload[4:]) != its.split():
                bad.append("calling %s of %s returned %d %s" % (m, S, z.rc, z.payload))
        elif x == 2:
            m = "v%d" % (i % 3)
            z = a.call("c_inv %s %s 20000 %s" % (V, m, its), w)
            if z.rc != OK or z.payload[0] != "0" or z.payload[1] not in ("s:M" + m, "s:" + V) or list(z.payload[4:]) != its.split():
                bad.append("calling %s of %s returned %d %s" % (m, V, z.rc, z.payload))
            ctx.distinct(("call-varying", z.payload[1:2]))
        else:
            # an object that comes and goes: answered, or not found, or nobody left to answer
            z = a.call("c_inv %s m 100 %s" % (W, its), w)
            if not (z.rc in (NOTFOUND, TIMEOUT, GENERAL) or z.rc == OK and z.payload[1] in ("s:W", "s:Wm")):
                bad.append("calling m of %s returned %d %s" % (W, z.rc, z.payload))
            ctx.distinct(("call-coming-and-going", z.rc, z.payload[1:2]))
        ctx.count("calls_meanwhile")

    def disc(a, w, i):
        a.ok("c_comps", w)
        a.ok("c_elems " + V, w)

    ths = [loop(p, 1, meths), loop(p, 2, objs), loop(p, 3, events), loop(p, 4, events), loop(q, 1, subs), loop(r, 2, subs), loop(q, 5, call), loop(r, 6, call), loop(p, 7, call), loop(q, 8, call), loop(r, 9, disc)]
    seq = {e: 0 for e in evs}
    try:
        for rd in range(rounds * 40):
            n = {e: rng.randint(1, 4) for e in evs}
            m = {a: a.mark() for a in (q, r)}
            fs = [p.send("c_pubn %s %s %d %d %d" % (S, e, seq[e], n[e], rng.choice([0, 0, 50])), 10 + j) for j, e in enumerate(evs)]
            for f in fs:
                ctx.check(f.wait().rc == OK, "publish", "publishing returned %d" % f.wait().rc)
            for i, a in enumerate((q, r)):
                isst = lambda e: e.kind == "cev" and unpct(e[1]) == S
                a.wait_ev(isst, sum(n.values()), 20, since=m[a])
                got = {}
                for e in a.evs("cev", m[a]):
                    if isst(e):
                        got.setdefault(unpct(e[2]), []).append((e[0], e[3]))
                want = {evname_real(ctx, e): [("st%d%s" % (i, evname_real(ctx, e)), "i:%d" % (seq[e] + j)) for j in range(n[e])] for e in evs}
                ctx.check(got == want, "delivery", lambda: "subscriber %d received %s, expected %s" % (i, str(got)[:300], str(want)[:300]))
            for e in evs:
                seq[e] += n[e]
                ctx.count("published", n[e])
            if ctx.failed or bad:
                break
    finally:
        stop.set()
        for t in ths:
            t.join(120)
    ctx.check(not bad, "meanwhile", lambda: bad[0])
    # what the coming and going subscribers got: nothing twice, in order
    for a in (q, r):
        seen = {}
        for e in a.evs("cev"):
            if unpct(e[1]) == V and e[0].startswith("v"):
                w, i = e[0][1:].split(".")
                seen.setdefault((w, e[0]), []).append(e[3])
        for key, l in seen.items():
            ctx.check(len(l) == len(set(l)), "twice", lambda: "subscription %s received %s" % (key, l))
        ctx.count("deliveries_meanwhile", sum(map(len, seen.values())))
    for o in (S, V):
        p.ok("c_unobj " + o)
    for a in (q, r, p):
        a.ok("c_close")


def _stat(a):
    a.sync()
    return [int(x) for x in a.ok("stat").payload[:3]]


def cycle(ctx, rounds):
    """Whatever is done and undone, refused or failed leaves nothing behind, on either side."""
    ctx.start_broker()
    p, c = ctx.agent("cprov"), ctx.agent("ccons")
    p.ok("c_open cprov")
    c.ok("c_open ccons")
    p.ok("c_obj Cy.O T")
    p.ok("c_meth Cy.O m M")
    p.ok("c_ev Cy.O e1 S")
    p.ok("c_ev Cy.O ! -")
    long = "L" * 300

    def fails(a, *cmds):
        for x in cmds:
            r = a.call(x)
            ctx.check(r.rc != OK, "accepted", lambda: "'%s' succeeded" % x[:80])

    def cyc(w):
        if w == "object":
            for x in ("c_obj Cy.N t", "c_meth Cy.N m M", "c_tab Cy.N 2 a A b B", "c_ev Cy.N e1 S", "c_ev Cy.N ! -", "c_el Cy.N Cy.el", "c_unel Cy.N Cy.el", "c_unev Cy.N e1", "c_untab Cy.N 2 a x b x", "c_unmeth Cy.N m", "c_unobj Cy.N"):
                p.ok(x)
        elif w == "object-whole":
            for x in ("c_obj Cy.N t", "c_meth Cy.N m M", "c_ev Cy.N e1 S", "c_el Cy.N Cy.el"):
                p.ok(x)
            c.ok("c_sub Cy.N e1 U 5000")
            m = c.mark()
            p.ok("c_pub Cy.N e1 i:1")
            c.wait_ev(lambda e: e.kind == "cev", 1, 20, since=m)
            p.ok("c_unobj Cy.N")
            c.call("c_unsub Cy.N e1")
        elif w == "calls":
            for x in ("m i:1 s:abc", "other l:5 d:4000000000000000 b:00ff", "m s:%21rc%3D5", "m s:%21none", "other s:%21late%3D1", "m"):
                c.ok("c_inv Cy.O %s 8000 %s" % (x.partition(" ")[0], x.partition(" ")[2]))
            c.ok("c_push Cy.O - s:x")
            c.ok("c_pull Cy.O 5000")
        elif w == "events":
            for e in ("e1", "!"):
                c.ok("c_sub Cy.O %s U 5000" % e)
                c.ok("c_sub Cy.O %s U 5000" % e)
            m = c.mark()
            for e in ("e1", "!"):
                p.ok("c_pub Cy.O %s s:%s" % (e, "x" * 300))
            c.wait_ev(lambda e: e.kind == "cev", 2, 20, since=m)
            for e in ("e1", "!"):
                c.ok("c_unsub Cy.O " + e)
        elif w == "refused":
            fails(c, "c_inv Cy.None m 500 i:1", "c_inv %s m 500 i:1" % long, "c_push Cy.None - s:x", "c_push %s 500 s:x" % long, "c_pull Cy.None 500", "c_pull %s 500" % long, "c_sub Cy.None e1 U 500", "c_sub Cy.O nope U 500", "c_sub %s e1 U 500" % long,
                  "c_sub Cy.O %s U 500" % long, "c_unsub Cy.None e1", "c_pub Cy.O e1 i:1", "c_push Cy.O - s:%21rc%3D4")
            fails(p, "c_obj Cy.O T", "c_obj ~ T", "c_obj %s T" % long, "c_unobj Cy.None", "c_meth Cy.O m M", "c_meth Cy.O %s M" % ("x" * 64), "c_meth Cy.None m M", "c_unmeth Cy.O n", "c_unmeth Cy.None m", "c_tab Cy.None 1 a A", "c_tab Cy.O 1 m M", "c_ev Cy.None e S", "c_ev Cy.O %s S" % long,
                  "c_unev Cy.O nope", "c_unev Cy.None e1", "c_pub Cy.O nope i:1", "c_pub Cy.None e1 i:1", "c_el Cy.O Cy.O")
        elif w == "discovery":
            for x in ("c_comps", "c_elems Cy.O", "c_owner Cy.O", "c_elems Cy.None"):
                c.ok(x)
            c.call("c_owner Cy.None")
            c.call("c_wild Cy.")
        elif w == "connection":
            c.ok("c_close")
            fails(c, "c_inv Cy.O m 500 i:1", "c_push Cy.O - s:x", "c_pull Cy.O 500", "c_close", "c_pub Cy.O e1 i:1")
            c.ok("c_open ccons")
            c.ok("c_obj Cy.Mine t")
            c.ok("c_inv Cy.O m 8000 i:1")
            c.ok("c_close")
            c.ok("c_open ccons")
        elif w == "dies":
            x = ctx.agent("victim")
            x.ok("c_open victim")
            x.ok("c_obj Cy.V t")
            x.ok("c_sub Cy.O e1 U 5000")
            c.ok("c_inv Cy.V m 8000 i:1")
            x.ok("c_unsub Cy.O e1")
            x.kill()
        ctx.count("cycles")
    for w in ("object", "object-whole", "calls", "events", "refused", "discovery", "connection", "dies"):
        for i in range(3):
            cyc(w)
        n, bad = rounds if w != "dies" else 6, []
        for again in range(4):      # growth counts if it goes on
            time.sleep(0.2)
            b = [_stat(p), _stat(c)]
            for i in range(n):
                cyc(w)
            lim = time.monotonic() + 4
            while True:
                bad = ["%s: heap %+d, descriptors %+d, threads %+d in %d cycles of %s" % (who, y[0] - x[0], y[1] - x[1], y[2] - x[2], n, w) for who, x, y in (("provider", b[0], _stat(p)), ("consumer", b[1], _stat(c))) if y[0] - x[0] > 24 * n or y[1] - x[1] > n // 3 or y[2] - x[2] > n // 3]
                if not bad or time.monotonic() > lim:
                    break
                time.sleep(0.3)
            if not bad or ctx.failed:
                break
        ctx.check(not bad, "leak", lambda: "; ".join(bad))
        ctx.distinct(("cycle", w))


SET, GET = "METHOD_SETPARAMETERVALUES", "METHOD_GETPARAMETERVALUES"


def _toks(e):
    l = [e[i] for i in range(len(e))]
    while l and l[-1] == "":
        l.pop()
    return tuple(l)


def evname_real(ctx, ev):
    return "" if ev == "!" else ev


def _tag(u):
    u[0] += 1
    return "t%d" % u[0]


def _settle(a, k):
    """A request of the same process after a fire-and-forget message: the broker has handled it."""
    a.call("c_elems Co%d.x" % k)
