"""P23: (a) about eighty operation cycles (every public call, successful and failing, with the handlers, replies, timeouts and deaths that go with it) are repeated while live heap bytes, open descriptors and threads of consumer, provider and broker are counted: nothing may grow with the repetitions; (b) random histories of opening, registering, subscribing, calling and closing many handles from several threads of several processes, where every open handle must go on working and every close end; (c) handles are closed while requests, events, replies and subscriptions for them are under way; (d) every call is made on null and on closed handles; (e) processes with more than a thousand open files, with the handle table full, without a broker and with refused names."""
import os
import socket
import time
from lib.vlib import pct, unpct
from lib import vlib
VARIANTS, AGENT = ["asan"], True
TECHNIQUE = "runtime monitoring: growth of live heap, descriptors and threads per repeated operation cycle; online checks that every other handle still works; ASan+UBSan"
RULE = "a case is one repetition of an operation cycle, one step of a random history of handles, or one call on an invalid handle; distinct = cycles, (step kind, handles open, threads) and (call, handle state) combinations"


def prepare():
    vlib.Variant("asan").preload("heapmon.c")


def reg(h, p):
    return ("reg %d 12 {P}.A p gs {P}.B p gse {P}.Bad p gs {P}.Slow p gs {P}.T.{i}. t are {P}.T.{i}.V p gse {P}.T.{i}.W p gs {P}.E! e e {P}.F! e - {P}.M() m m {P}.NoSet p g {P}.Dl p gs" % h).replace("{P}", p)


def unreg(h, p):
    return "un" + reg(h, p)


# (name, [(who, line)...]); c: consumer, q: provider of Q.*, a '+' before the line: the repetition also waits for one callback of this kind
CYC = [
    ("get", ["c get 0 Q.A", "c getT 0 i Q.A", "c getT 0 s Q.B", "c getT 0 b Q.A"]),
    ("get-fails", ["c get 0 Q.Bad", "c get 0 Q.None", "c get 0 Nobody.X", "c get 0 Q.M()", "c getT 0 s Q.Bad", "c get 0 ~"]),
    ("get-object", ["q store Q.B obj:o(a=str:1,b=obj:p(c=bytes:0011),d=prop:(x=i32:1,y=str:z))", "c get 0 Q.B", "q store Q.B prop:(x=i32:1,y=str:z)", "c get 0 Q.B", "q store Q.B i32:1"]),
    ("getext", ["c getext 0 3 Q.A Q.B Q.T.", "c getext 0 1 Q.", "c getext 0 1 Q.T.*.V", "c getext 0 2 Q.A Q.B"]),
    ("getext-fails", ["c getext 0 3 Q.A Q.Bad Q.B", "c getext 0 2 Q.A Nobody.X", "c getext 0 1 Nobody.", "c getext 0 1 Q.Nope.", "c getext 0 1 Q.T.*.Nope", "c getext 0 0"]),
    ("set", ["c set 0 Q.A i32:4", "c set 0 Q.A str:text 1 0", "c set 0 Q.A obj:x(a=str:1) 0 0", "c setT 0 i Q.A 5", "c setT 0 s Q.A abc", "c set 0 Q.A i32:1"]),
    ("set-fails", ["c set 0 Q.Bad i32:4", "c set 0 Q.None i32:4", "c set 0 Nobody.X i32:4", "c set 0 Q.NoSet i32:4", "c set 0 Q.A none", "c setT 0 s Q.Bad abc"]),
    ("set-late-commit", ["c set 0 Q.A i32:1 0 7", "c set 0 Q.B i32:2 0 7", "c setcommit 0 Q.A 7"]),
    ("setmulti", ["c setmulti 0 0 0 2 Q.A i32:1 Q.B i32:2", "c setmulti 0 1 3000 2 Q.A i32:1 Q.B i32:2", "c setmulti 0 0 0 2 Q.A i32:1 R.A i32:2"]),
    ("setmulti-fails", ["c setmulti 0 0 0 2 Q.A i32:1 Q.Bad i32:2", "c setmulti 0 1 3000 3 R.A i32:1 Q.A i32:1 Q.None i32:2", "c setmulti 0 0 0 2 Q.A i32:1 R.Bad i32:2", "c setmulti 0 0 0 2 Q.A i32:1 Nobody.X i32:2", "c setmulti 0 0 0 0"]),
    ("method", ["c inv 0 Q.M() ~(a=i32:1,mode=i32:0)", "c inv 0 Q.M() !", "c inv 0 Q.M() ~(mode=i32:1)"]),
    ("method-fails", ["c inv 0 Q.M() ~(mode=i32:3,rc=i32:7)", "c inv 0 Q.M() ~(mode=i32:1,rc=i32:9)", "c inv 0 Q.None() ~(a=i32:1)", "c inv 0 Nobody() ~(a=i32:1)", "c inv 0 Q.A ~(a=i32:1)"]),
    ("method-deferred", ["c inv 0 Q.M() ~(mode=i32:2,a=str:x)", "c inv 0 Q.M() ~(mode=i32:4)", "c inv 0 Q.M() ~(mode=i32:2,rc=i32:7,ms=i32:1)"]),
    ("method-async", ["c+invcb inva 0 Q.M() ~(mode=i32:0,a=str:x) 5", "c+invcb inva 0 Q.M() ~(mode=i32:2) 5", "c+invcb inva 0 Q.None() ~(a=i32:0) 5", "c+invcb inva 0 Q.M() ~(mode=i32:3,rc=i32:7) 5"]),
    ("rows", ["c addrow 0 Q.T. al", "c rownames 0 Q.T.", "c get 0 Q.T.[al].V", "c set 0 Q.T.[al].W i32:3", "c remrow 0 Q.T.[al]"]),
    ("rows-fail", ["c addrow 0 Q.None. !", "c addrow 0 Nobody.T. !", "c remrow 0 Q.T.99", "c remrow 0 Nobody.T.1", "c rownames 0 Q.None.", "c rownames 0 Nobody.T.", "q cfg Q.T. add_rc 7", "c addrow 0 Q.T. !", "q cfg Q.T. add_rc 0", "c addrow 0 Q.T. al7", "q cfg Q.T.[al7] rem_rc 7", "c remrow 0 Q.T.[al7]", "q cfg Q.T.[al7] rem_rc 0", "c remrow 0 Q.T.[al7]"]),
    ("own-rows", ["q regrow 0 Q.T. 50 fifty", "c get 0 Q.T.50.V", "q unregrow 0 Q.T.50", "q regrow 0 Q.None. 5 !", "q unregrow 0 Q.T.51"]),
    ("info", ["c info 0 Q. 5", "c info 0 Q.T.1.V 1", "c info 0 Q.None 1", "c info 0 Nobody. 2", "c info 0 Q. -3"]),
    ("discover", ["c disccomp 0 2 Q.A R.A", "c disccomp 0 1 Nobody.X", "c discelem 0 Q 0", "c discelem 0 Q.A 1", "c discelem 0 Nobody 0", "c reglist 0"]),
    ("sub", ["c sub 0 Q.E! 1 0", "q pub 0 Q.E! 3 ev:(n=i32:1,s=str:abc)", "c unsub 0 Q.E!"]),
    ("sub-fails", ["c unsub 0 Q.E!", "c sub 0 Q.A 1 0", "c sub 0 Q.A 1 0", "c unsub 0 Q.A", "q cfg Q.E! sub_rc 7", "c sub 0 Q.E! 1 0", "q cfg Q.E! sub_rc 0", "c subex 0 0 0 2 Q.E! ! 0 0 0 1 Q.T.99.V ! 0 0 0 1"]),
    ("sub-filter", ["c subex 0 0 0 1 Q.B L0(R0(i32:5),L2(R4(str:a),!)) 0 0 1 2", "c unsubex 0 0 0 1 Q.B L0(R0(i32:5),L2(R4(str:a),!)) 0 0 1 2"]),
    ("sub-valuechange", ["c sub 0 Q.B 1 0", "q store Q.B i32:5", "q store Q.B i32:6", "c unsub 0 Q.B"]),
    ("sub-interval", ["c subex 0 0 0 1 Q.B ! 100 0 0 2", "c unsubex 0 0 0 1 Q.B ! 100 0 0 2"]),
    ("sub-duration", ["c subex 0 0 0 1 Q.E! ! 0 100 0 2", "c unsubex 0 0 0 1 Q.E! ! 0 100 0 2"]),
    ("sub-table", ["c sub 0 Q.T. 4 0", "c addrow 0 Q.T. x", "c remrow 0 Q.T.[x]", "c unsub 0 Q.T."]),
    ("sub-wildcard", ["c sub 0 Q.T.*.V 4 0", "c addrow 0 Q.T. x", "c remrow 0 Q.T.[x]", "c unsub 0 Q.T.*.V"]),
    ("sub-row", ["c addrow 0 Q.T. x", "c sub 0 Q.T.[x].V 4 0", "c remrow 0 Q.T.[x]", "c unsub 0 Q.T.[x].V"]),
    ("sub-raw", ["c subraw 0 Q.F! 1 0", "q pubraw 0 Q.F! 001122", "c unsubraw 0 Q.F!", "c unsubraw 0 Q.F!"]),
    ("sub-async", ["c+subresp suba 0 Q.E! 1 0", "c unsub 0 Q.E!", "c+subresp subex 0 2 0 1 Q.F! ! 0 0 0 9", "c unsub 0 Q.F!"]),
    ("sub-twice", ["c sub 0 Q.E! 1 0", "c sub 0 Q.E! 1 0", "c issub 0 9 0 1 Q.E! ! 0 0 0 0", "c unsub 0 Q.E!"]),
    ("publish-alone", ["q pub 0 Q.E! 3 ev:(n=i32:1)", "q pub 0 Q.None! 3 ev:(n=i32:1)", "q pubraw 0 Q.F! 00", "c pub 0 Q.E! 3 ev:(n=i32:1)", "q pub 0 Q.E! 3 !"]),
    ("register", [("c", reg(0, "X")), "q get 0 X.A", "c addrow 0 X.T. a", "q set 0 X.A i32:3", "c remrow 0 X.T.[a]", ("c", unreg(0, "X"))]),
    ("register-rows", [("c", reg(0, "X")), "c addrow 0 X.T. a", ("c", unreg(0, "X"))]),
    ("register-fails", ["c reg 0 2 Y.New p g Q.A p g", "c reg 0 1 Y2.{i}.A x g", "c unreg 0 1 Nope.Nope p g", "c reg 0 0"]),
    ("open-close", ["c open 3 other", "c close 3"]),
    ("open-use-close", ["c open 3 other", ("c", reg(3, "Z")), "c get 0 Z.A", "q get 0 Z.B", "q inv 0 Z.M() ~(a=i32:1)", "c addrow 3 Z.T. z", "q set 0 Z.T.[z].V i32:5", "q sub 0 Z.E! 1 0", "c pub 3 Z.E! 3 ev:(n=i32:1)", "q unsub 0 Z.E!", "c close 3"]),
    ("close-with-everything", ["c open 3 other", ("c", reg(3, "Z")), "c sub 3 Q.E! 5 0", "c subex 3 0 0 1 Q.B R0(i32:3) 0 0 0 5", "c subex 3 0 0 1 Q.B ! 100 0 0 6", "c subex 3 0 0 1 Q.E! ! 0 100 0 7", "c subraw 3 Q.F! 6 0", "c mlisten 3 msg.x 1 3", "c trace 3 set abc def", "c sub 3 Z.B 7 0", "c subex 3 0 0 1 Z.B ! 100 0 0 8", "c addrow 3 Z.T. z", "c close 3"]),
    ("reopen-same-name", ["c open 3 again", "c sub 3 Q.E! 5 0", "c open 3 again", "c close 3"]),
    ("close-with-pending", ["c open 3 other", "c suba 3 Nobody.E! 5 30", "c inva 3 Q.M() ~(mode=i32:2,ms=i32:5) 5", "c close 3"]),
    ("last-close", ["o open 0 lone", "o get 0 Q.A", "o sub 0 Q.E! 1 0", "o close 0"]),
    ("last-close-provider", ["o open 0 lone", ("o", reg(0, "L")), "c get 0 L.A", "o sub 0 L.B 1 0", "o mlisten 0 some.topic 1 1", "o close 0"]),
    ("open-refused", ["c open 0x ~"]),
    ("messages", ["c mlisten 0 msg.a 1 21", "q+ msend 0 msg.a 0011 0", "c mhas 0 msg.a", "c munlisten 0 msg.a 21", "c mlisten 0 msg.b 1 22", "c mlisten 0 msg.b 1 23", "c mremall 0", "q msend 0 msg.nobody 00 1"]),
    ("session", ["c sess 0 create", "c sess 0 cur", "c sess 0 close 1", "c sess 0 close 9", "c sess 0 cur"]),
    ("trace", ["c trace 0 set 00-aaaa some=thing", "c get 0 Q.A", "c trace 0 get 200 200", "c trace 0 clear"]),
    ("timeout-get", ["c timeouts 0 60 60 60 60 60", "c get 0 Q.Slow", "c set 0 Q.Slow i32:3", "q.sync", "c timeouts 0 8000 8000 8000 8000 8000"]),
    ("direct", ["c opendirect 0 5 Q.A", "c get 0 Q.A", "c set 0 Q.A i32:1", "c closedirect 5"]),
    ("refused", ["c get 40 Q.A", "c set 40 Q.A i32:1", "c sub 40 Q.E! 1 0"]),
    ("status", ["c status", "c loglevel 5"]),
]
HEAVY = {"direct", "timeout-get", "last-close", "last-close-provider", "close-with-pending", "sub-interval", "sub-duration", "close-with-everything"}
SKIP = {"open-refused"}
EXCL = {"direct"}         # judged by P22's own cycle


def plan(tier):
    t = tier != "quick"
    names = [c[0] for c in CYC if c[0] not in SKIP | EXCL]
    parts = 5 if not t else 8
    return [{"fn": "cycles", "args": {"names": names[i::parts], "n": 200 if t else 24, "rounds": 3 if t else 1}} for i in range(parts)] + \
           [{"fn": "history", "args": {"k": i, "steps": 25000 if t else 2500}} for i in range(16 if t else 4)] + \
           [{"fn": "busy", "args": {"k": i, "rounds": 250 if t else 25}} for i in range(16 if t else 4)] + \
           [{"fn": "refused", "args": {}}, {"fn": "crowd", "args": {"fds": 1100}}, {"fn": "full", "args": {}}, {"fn": "nobroker", "args": {}}, {"fn": "samename", "args": {"k": 0, "rounds": 150 if t else 20}},
            {"fn": "asyncclose", "args": {"rounds": 300 if t else 40}}]


def stats(ctx, agents):
    """Settled figures: bytes, descriptors and threads per process."""
    out = {}
    for n, a in agents.items():
        best = None
        for _ in range(6):
            a.sync()
            b, f, t = (int(x) for x in a.ok("stat").payload)
            best = (b, f, t) if best is None else tuple(min(x, y) for x, y in zip(best, (b, f, t)))
            time.sleep(0.02)
        out[n] = best
    time.sleep(0.1)
    p = ctx.broker.pid
    out["broker"] = (int(open("/tmp/broker.heap").read().split()[1]), len(os.listdir("/proc/%d/fd" % p)), len(os.listdir("/proc/%d/task" % p)))
    return out


def cycles(ctx, names, n, rounds):
    ctx.start_broker(env={"LD_PRELOAD": os.path.join(vlib.BUILD, "asan-heapmon.so"), "HEAPMON": "/tmp/broker.heap"}, asan="verify_asan_link_order=0")
    ctx.start_session_mgr()
    q, c, o, r = ctx.comp("Q"), ctx.comp("C"), ctx.agent("O"), ctx.comp("R")
    ag = {"q": q, "c": c, "o": o}
    q.ok(reg(0, "Q"))
    r.ok(reg(0, "R"))
    for a in (q, c, r):
        a.ok("timeouts 0 8000 8000 8000 8000 8000")
        a.ok("handlelog 0")
    for x in ("Q", "R"):
        a = q if x == "Q" else r
        for e in ("get_rc", "set_rc"):
            a.ok("cfg %s.Bad %s 1" % (x, e))
        for e in ("A", "B", "NoSet", "T.1.V", "T.1.W"):
            a.ok("store %s.%s i32:1" % (x, e))
    q.ok("cfg Q.Slow get_ms 120")
    q.ok("cfg Q.Slow set_ms 120")
    q.ok("addrow 0 Q.T. one")
    table = {x[0]: x[1] for x in CYC}

    def once(lines):
        for l in lines:
            if isinstance(l, tuple):
                who, l, want = l[0], l[1], None
            else:
                who, l = l.split(" ", 1) if " " in l else (l, "")
                who, want = who.split("+") if "+" in who else (who, None)
            if who.endswith(".sync"):
                time.sleep(0.25)
                continue
            a = ag[who]
            m = a.mark()
            x = a.call(l)
            ctx.count("calls")
            if want:
                a.wait_ev(lambda e: e.kind == want, 1, 30, m)
    for name in names:
        reps = max(4, n // 4) if name in HEAVY else n
        for _ in range(4):
            once(table[name])
        prev = stats(ctx, ag)
        grew = None
        for w in range(2 + rounds):
            for _ in range(reps):
                once(table[name])
                ctx.count("repetitions")
            cur = stats(ctx, ag)
            g = {}
            for who in cur:
                b, f, t = (x - y for x, y in zip(cur[who], prev[who]))
                if b >= 8 * reps:
                    g[who, "bytes"] = b
                if f >= max(2, reps // 3):
                    g[who, "descriptors"] = f
                if t >= max(2, reps // 3):
                    g[who, "threads"] = t
            grew = g if grew is None else {k: v for k, v in g.items() if k in grew}
            prev = cur
            if not grew:
                break
        ctx.distinct(name)
        for (who, what), v in grew.items():
            ctx.check(False, "grows:%s:%s:%s" % (name, who, what), "repeating '%s' %d times adds %d %s to the %s process, again and again" % (name, reps, v, what, {"q": "providing", "c": "calling", "o": "reopening", "broker": "broker's"}[who]))
        ctx.count("oracle_checks", 12)
        if ctx.failed and ctx.limited(8) if hasattr(ctx, "limited") else False:
            return
    ctx.sample("%d cycles, %d to %d repetitions per window" % (len(names), max(4, n // 4), n))


class Slot:
    """One handle of one process as the history sees it."""
    def __init__(self, a, ai, i):
        self.a, self.ai, self.i, self.w, self.open, self.reg, self.n, self.subs = a, ai, i, i + 1, False, False, 0, set()
        self.name = "cp%d_%d" % (ai, i)
        self.pre = "H%d%d" % (ai, i)


def history(ctx, k, steps):
    r = ctx.rng
    ctx.start_broker()
    ags = [ctx.agent("A%d" % i) for i in range(3)]
    slots = [Slot(a, i, j) for i, a in enumerate(ags) for j in range(6)]
    ctx.ended = 0

    def do(s, line):
        x = s.a.call(line, s.w)
        ctx.count("calls")
        return x

    def work(s):
        """An open handle works: its own elements answer to another handle and it can call others."""
        others = [o for o in slots if o.open and o.reg]
        if others:
            o = r.choice(others)
            g = do(s, "get %d %s.A" % (s.i, o.pre))
            ctx.check(g.rc == 0 and g.payload == ["i32:%d" % o.n], "handle-broken", "with %d handles open %s reads %s.A: rc %d %s, expected i32:%d" % (sum(x.open for x in slots), s.name, o.pre, g.rc, g.payload, o.n))
            g = do(s, "inv %d %s.M() ~(tag=i32:%d)" % (s.i, o.pre, s.ai))
            ctx.check(g.rc == 0 and "tag=i32:%d" % s.ai in " ".join(g.payload), "handle-broken", "%s invokes %s.M(): rc %d %s" % (s.name, o.pre, g.rc, g.payload))

    for st in range(steps):
        if ctx.failed:
            return
        # several handles act at the same time, one step each
        pick = r.sample(slots, r.choice([1, 1, 2, 4]))
        futs = []
        for s in pick:
            if not s.open:
                futs.append((s, "open", s.a.send("open %d %s" % (s.i, s.name), s.w)))
            else:
                u = r.random()
                if u < 0.3:
                    futs.append((s, "close", s.a.send("close %d" % s.i, s.w)))
                elif u < 0.55 and not s.reg:
                    futs.append((s, "reg", s.a.send(reg(s.i, s.pre), s.w)))
                elif u < 0.65 and s.reg:
                    futs.append((s, "unreg", s.a.send(unreg(s.i, s.pre), s.w)))
                elif u < 0.85:
                    c = [o for o in slots if o.open and o.reg and o not in pick and o.pre not in s.subs]
                    if c:
                        o = r.choice(c)
                        kind = r.choice(["sub %d %s.E! %d 0", "sub %d %s.E! %d 0", "sub %d %s.B %d 0", "subex %d 0 0 1 %s.B ! 100 0 0 %d"])
                        futs.append((s, ("sub", o, kind), s.a.send(kind % (s.i, o.pre, o.ai * 10 + o.i), s.w)))
                elif s.subs:
                    pass
            ctx.count("steps")
        for s, what, f in futs:
            x = f.wait(60)
            ms = (x.t1 - x.t0) / 1e6
            if what == "open":
                ctx.check(x.rc == 0, "open-fails", "open of %s: rc %d" % (s.name, x.rc))
                s.open = True
                s.subs = set()
            elif what == "close":
                ctx.check(x.rc == 0, "close-fails", "close of %s: rc %d" % (s.name, x.rc))
                ctx.check(ms < 20000, "close-slow", "closing %s took %.0f ms" % (s.name, ms))
                s.open = s.reg = False
                s.subs = set()
                for o in slots:
                    o.subs.discard(s.pre)
            elif what == "reg":
                ctx.check(x.rc == 0, "reg-fails", "registering %s.* : rc %d" % (s.pre, x.rc))
                s.reg = True
                s.n = r.randrange(10**6)
                s.a.ok("store %s.A i32:%d" % (s.pre, s.n))
                s.a.ok("store %s.B i32:%d" % (s.pre, s.n))
            elif what == "unreg":
                s.reg = False
                for o in slots:
                    o.subs.discard(s.pre)
            else:
                if x.rc == 0 and what[1].open and what[1].reg and "E!" in what[2]:
                    s.subs.add(what[1].pre)
            ctx.distinct("%s/%d/%d" % (what if isinstance(what, str) else what[2][:6], sum(o.open for o in slots), len(futs)))
        live = [s for s in slots if s.open]
        if live:
            work(r.choice(live))
        if st % 3 == 0:
            pub = [o for o in slots if o.open and o.reg and any(o.pre in s.subs for s in slots)]
            if pub:
                o = r.choice(pub)
                want = [s for s in slots if s.open and o.pre in s.subs]
                marks = {s: s.a.mark() for s in want}
                x = do(o, "pub %d %s.E! 3 ev:(n=i32:%d)" % (o.i, o.pre, st))
                ctx.check(x.rc == 0, "publish-fails", "%s publishes to %d subscribers: rc %d" % (o.name, len(want), x.rc))
                for s in want:
                    got = s.a.wait_ev(lambda e: e.kind == "ev" and e[0] == str(s.i) and unpct(e[2]) == o.pre + ".E!" and "n=i32:%d" % st in e[4], 1, 20, marks[s])
                    ctx.check(bool(got), "event-lost", "%s subscribed to %s.E! and no longer hears of it" % (s.name, o.pre))
    for s in slots:
        if s.open:
            x = s.a.call("close %d" % s.i, s.w)
            ctx.check(x.rc == 0, "close-fails", "final close of %s: rc %d" % (s.name, x.rc))
    for a in ags:
        b, f, t = (int(z) for z in a.ok("stat").payload)
        ctx.check(not any(l.startswith("socket:") for l in [os.readlink("/proc/%d/fd/%s" % (a.p.pid, x)) for x in os.listdir("/proc/%d/fd" % a.p.pid) if os.path.lexists("/proc/%d/fd/%s" % (a.p.pid, x))]), "socket-left", "a process with all handles closed still holds a socket")
    ctx.check(not [f for f in os.listdir("/tmp/.rbus")] if os.path.isdir("/tmp/.rbus") else True, "marker-left", "marker files of closed handles are left in /tmp/.rbus")
    ctx.broker_alive()


def busy(ctx, k, rounds):
    """Close handles while everything that can be under way for them is."""
    r = ctx.rng
    ctx.start_broker()
    p, c = ctx.comp("keepP", h=0), ctx.comp("keepC", h=0)
    p.ok(reg(0, "K"))
    c.ok("sub 0 K.E! 9 0")
    for a in (p, c):
        a.ok("timeouts 0 1200 1200 1200 1200 1200")
        a.ok("handlelog 0")
    for i in range(rounds):
        if ctx.failed:
            return
        # a provider handle and a consumer handle in each of the two processes
        p.ok("open 1 victimP")
        p.ok(reg(1, "V"))
        p.ok("store V.A i32:7")
        p.ok("store V.B i32:7")
        c.ok("open 1 victimC")
        p.ok("open 2 inproc")
        for l in ("subex 1 0 0 1 V.E! ! 0 0 0 1", "subex 1 0 0 1 K.E! ! 0 0 0 2", "subex 1 0 0 1 V.B ! 0 0 0 3", "subex 1 0 0 1 V.B ! 1 0 0 4", "subraw 1 K.F! 5 0"):
            c.ok(l)
        p.ok("sub 2 V.E! 6 0")
        for n in ("V.A", "V.M()", "V.T."):
            p.ok("cfg %s get_ms %d" % (n, r.choice([0, 0, 30])))
        futs = []
        for w in range(5, 13):
            a, h = r.choice([(c, 0), (c, 1), (p, 0), (p, 2)]), None
            a, h = a
            kind = r.randrange(8)
            for _ in range(r.choice([1, 4, 8])):
                l = ["get %d V.A" % h, "set %d V.A i32:3" % h, "inv %d V.M() ~(mode=i32:%d,ms=i32:%d)" % (h, r.choice([0, 2, 2, 4]), r.choice([0, 10, 60])), "inva %d V.M() ~(mode=i32:%d,ms=i32:%d) 5" % (h, r.choice([0, 2]), r.choice([0, 20])),
                     "addrow %d V.T. !" % h, "getext %d 1 V." % h, "subex %d 0 0 1 V.E! ! 0 %d 0 8" % (h, 50 + w), "info %d V. 3" % h][kind]
                # calls on a handle that is being closed are the caller's mistake: only the kept ones call on through the close
                if h in (1, 2):
                    continue
                futs.append(a.send(l, w))
        futs.append(p.send("pubn 0 K.E! 3 0 12 x 200", 14))
        pf = None
        which = r.choice([[("p", 1)], [("c", 1)], [("p", 2)], [("p", 1), ("c", 1)], [("c", 1), ("p", 1), ("p", 2)]])
        if ("p", 1) not in which:
            pf = p.send("pubn 1 V.E! 3 0 12 x 200", 15)
        time.sleep(r.choice([0, 0.001, 0.003, 0.01, 0.03, 0.08]))
        cl = [({"p": p, "c": c}[a].send("close %d" % h, 20 + h), a, h) for a, h in which]
        for f, a, h in cl:
            x = f.wait(60)
            ms = (x.t1 - x.t0) / 1e6
            ctx.check(x.rc == 0, "close-fails", "closing handle %s%d in use: rc %d" % (a, h, x.rc))
            ctx.check(ms < 20000, "close-slow", "closing %s%d took %.0f ms" % (a, h, ms))
            ctx.distinct("%s%d/%d" % (a, h, min(int(ms / 20), 20)))
            ctx.count("closed_in_use")
        for f in futs + ([pf] if pf else []):
            f.wait(60)
            ctx.count("calls")
        g = c.call("get 0 K.NoSet")
        ctx.check(g.rc == 0, "others-broken", "after closing %s the kept handles' get gives rc %d" % (which, g.rc))
        m = c.mark()
        p.ok("pub 0 K.E! 3 ev:(n=i32:%d)" % (1000 + i))
        ctx.check(bool(c.wait_ev(lambda e: e.kind == "ev" and e[1] == "9" and "n=i32:%d" % (1000 + i) in e[4], 1, 20, m)), "event-lost", "after closing %s the kept subscriber no longer gets events" % (which,))
        for a, h in (("p", 1), ("c", 1), ("p", 2)):
            if (a, h) not in which:
                x = {"p": p, "c": c}[a].call("close %d" % h)
                ctx.check(x.rc == 0, "close-fails", "closing %s%d: rc %d" % (a, h, x.rc))
    ctx.broker_alive()


CALLS = ["close {h} keep", "get {h} Q.A", "getT {h} i Q.A", "getT {h} s Q.A", "getT {h} b Q.A", "getT {h} u Q.A", "getext {h} 2 Q.A Q.B", "getext {h} 1 Q.", "set {h} Q.A i32:5", "setT {h} i Q.A 1", "setT {h} s Q.A a", "setT {h} b Q.A 1", "setT {h} u Q.A 1",
         "setcommit {h} Q.A 3", "setmulti {h} 0 0 2 Q.A i32:1 Q.B i32:2", "setmulti {h} 1 100 2 Q.A i32:1 Q.B i32:2", "sub {h} Q.E! 1 0", "subraw {h} Q.F! 1 0", "suba {h} Q.E! 1 0", "unsub {h} Q.E!", "unsubraw {h} Q.F!",
         "subex {h} 0 0 1 Q.E! ! 0 0 0 1", "subex {h} 1 0 1 Q.F! ! 0 0 0 1", "subex {h} 2 0 1 Q.E! ! 0 0 0 1", "unsubex {h} 0 0 1 Q.E! ! 0 0 0 1", "unsubex {h} 1 0 1 Q.F! ! 0 0 0 1", "pub {h} Q.E! 3 ev:(n=i32:1)", "pubraw {h} Q.F! 00",
         "addrow {h} Q.T. !", "remrow {h} Q.T.1", "regrow {h} Q.T. 9 !", "unregrow {h} Q.T.9", "rownames {h} Q.T.", "info {h} Q. 2", "disccomp {h} 1 Q.A", "discelem {h} Q 0", "inv {h} Q.M() ~(a=i32:1)", "inva {h} Q.M() ~(a=i32:1) 2",
         "sess {h} create", "sess {h} cur", "sess {h} close 1", "mlisten {h} some.x 1 3", "munlisten {h} some.x 3", "mremall {h}", "msend {h} some.x 00 0", "trace {h} set a b", "trace {h} get 100 100", "trace {h} clear", "timeouts {h} 1 1 1 1 1",
         "timeout1 {h} s 5", "timeout1 {h} g 5", "timeout1 {h} S 5", "timeout1 {h} G 5", "timeout1 {h} sub 5", "reg {h} 1 Q9.A p g", "unreg {h} 1 Q9.A p g", "opendirect {h} 30 Q.A"]


def refused(ctx):
    ctx.start_broker()
    ctx.start_session_mgr()
    q, c = ctx.comp("Q"), ctx.comp("C")
    q.ok(reg(0, "Q"))
    q.ok("store Q.A i32:1")
    c.ok("open 1 gone")
    c.ok("close 1 keep")
    o = ctx.agent("O")       # never opened anything
    l = ctx.agent("L")       # opened and closed its only handle
    l.ok("open 0 lone")
    l.ok("close 0 keep")
    for a, h, state in ((c, 1, "closed"), (c, 40, "null"), (o, 40, "null-nothing-open"), (l, 0, "closed-nothing-open"), (l, 40, "null-after-close")):
        m = q.mark()
        for cmd in CALLS:
            x = a.call(cmd.replace("{h}", str(h)))
            ctx.count("calls")
            ctx.distinct("%s/%s" % (" ".join(cmd.split()[:1]), state))
            ctx.check(x.rc != 0, "accepted:" + cmd.split()[0], "'%s' on a %s handle returns success" % (cmd, state))
            ctx.check((x.t1 - x.t0) < 5e9, "slow:" + cmd.split()[0], "'%s' on a %s handle takes %.1f s to be refused" % (cmd, state, (x.t1 - x.t0) / 1e9))
            if ctx.failed:
                return
        ctx.check(not q.evs(None, m), "reached", "calls on a %s handle reached the provider: %s" % (state, q.evs(None, m)[:2]))
    g = c.call("get 0 Q.A")
    ctx.check(g.rc == 0 and g.payload == ["i32:1"], "others-broken", "after calls on closed handles a good one's get gives rc %d %s" % (g.rc, g.payload))
    ctx.sample("%d calls on closed and null handles refused" % len(CALLS))


def crowd(ctx, fds):
    """A consumer and a provider with more than a thousand open files."""
    ctx.start_broker()
    q, c = ctx.agent("Q"), ctx.agent("C")
    for a in (q, c):
        a.ok("fds %d" % fds)
        a.ok("open 0 %s" % a.name)
    q.ok(reg(0, "Q"))
    q.ok("store Q.A i32:5")
    for i in range(20):
        g = c.call("get 0 Q.A")
        ctx.check(g.rc == 0 and g.payload == ["i32:5"], "crowded", "with %d files open get gives rc %d %s" % (fds, g.rc, g.payload))
        m = c.mark()
        ctx.check(c.call("sub 0 Q.E! 1 0").rc == 0, "crowded", "subscribing fails")
        q.ok("pub 0 Q.E! 3 ev:(n=i32:%d)" % i)
        ctx.check(bool(c.wait_ev(lambda e: e.kind == "ev", 1, 20, m)), "crowded", "with %d files open no event arrives" % fds)
        ctx.check(c.call("unsub 0 Q.E!").rc == 0, "crowded", "unsubscribing fails")
        x = c.call("close 0")
        ctx.check(x.rc == 0, "crowded", "close rc %d" % x.rc)
        x = c.call("open 0 C")
        ctx.check(x.rc == 0, "crowded", "open rc %d" % x.rc)
        ctx.count("calls", 6)
        ctx.distinct("crowd")
        if ctx.failed:
            return


def full(ctx):
    """The handle table fills up, the next open is refused and leaves nothing behind; names that cannot be registered likewise."""
    ctx.start_broker()
    q, c = ctx.comp("Q"), ctx.agent("C")
    q.ok(reg(0, "Q"))
    n = 0
    for i in range(40):
        x = c.call("open %d full%d" % (i, i))
        if x.rc:
            break
        n += 1
    ctx.check(8 <= n < 40, "table", "%d handles could be opened" % n)
    base = None
    for w in range(3):
        for i in range(30):
            x = c.call("open 45 over%d" % (i % 3))
            ctx.check(x.rc != 0, "table", "a handle beyond the limit was opened")
            x = c.call("open 45 %s" % r"x" * 1 if i % 2 else "open 45 %s" % ("n" * 300))
            ctx.check(x.rc != 0, "table", "a handle with an impossible name was opened while full")
        s = stats2(c)
        if base is not None and w == 2:
            ctx.check(s[0] - base[0] < 8 * 30 and s[1] <= base[1] and s[2] <= base[2], "grows:open-refused", "refused opens grow the process: %s -> %s" % (base, s))
        base = s
    for i in range(n):
        g = c.call("get %d Q.M2" % i)
        ctx.check(g.rc != 0, "table", "get of nothing succeeds")
        ctx.check(c.call("disccomp %d 1 Q.A" % i).payload == ["1", "Q"], "table", "handle %d of %d does not work" % (i, n))
    c.ok("close 3")
    ctx.check(c.call("open 3 again").rc == 0, "table", "a freed place cannot be used again")
    for i in r_order(ctx, n):
        ctx.check(c.call("close %d" % i).rc == 0, "table", "close %d" % i)
    # names
    for w in range(3):
        for i in range(20):
            for nm in ("n" * 300, "n" * 5000, "~"):
                x = c.call("open 45 %s" % nm)
                ctx.count("calls")
                if x.rc == 0:
                    c.ok("close 45")
                ctx.distinct("name/%d/%d" % (len(nm), x.rc))
        s = stats2(c)
        if w == 2:
            ctx.check(s[0] - base[0] < 8 * 20 and s[1] <= base[1] and s[2] <= base[2], "grows:open-refused", "refused opens grow the process: %s -> %s" % (base, s))
        base = s
    ctx.check(c.call("open 0 fine").rc == 0 and c.call("disccomp 0 1 Q.A").payload == ["1", "Q"], "after-refused", "after refused names a good one cannot be opened or used")


def r_order(ctx, n):
    l = list(range(n))
    ctx.rng.shuffle(l)
    return l


def stats2(a):
    best = None
    for _ in range(6):
        a.sync()
        s = tuple(int(x) for x in a.ok("stat").payload)
        best = s if best is None else tuple(min(x, y) for x, y in zip(best, s))
        time.sleep(0.03)
    return best


def nobroker(ctx):
    """Without a broker open fails in bounded time and leaves nothing; when the broker comes the same process can open."""
    a = ctx.agent("A")
    base = None
    for w in range(3):
        for i in range(2):
            x = a.call("open 0 lonely")
            ctx.check(x.rc != 0, "no-broker", "open without a broker succeeds")
            ctx.check(x.t1 - x.t0 < 60e9, "no-broker-slow", "open without a broker took %.0f s" % ((x.t1 - x.t0) / 1e9))
            ctx.count("calls")
        s = stats2(a)
        if w == 2:
            ctx.check(s[0] - base[0] < 8 * 2 and s[1] <= base[1] and s[2] <= base[2], "grows:no-broker", "failing opens grow the process: %s -> %s" % (base, s))
        base = s
    ctx.start_broker()
    ctx.check(a.call("open 0 lonely").rc == 0, "no-broker", "open fails although the broker is there now")
    a.ok(reg(0, "N"))
    b = ctx.comp("B")
    b.ok("timeouts 0 3000 3000 3000 3000 3000")
    ctx.check(b.call("disccomp 0 1 N.A").payload == ["1", "lonely"], "no-broker", "its elements are unknown")
    ctx.distinct("nobroker")


def samename(ctx, k, rounds):
    """Threads open and close components of the same name at the same time."""
    ctx.start_broker()
    q, c = ctx.comp("Q"), ctx.comp("C")
    q.ok(reg(0, "Q"))
    q.ok("store Q.A i32:5")
    for i in range(rounds):
        fs = [c.send("open %d twin" % w, w) for w in range(1, 1 + ctx.rng.choice([2, 3, 5]))]
        for f in fs:
            f.wait(60)
            ctx.count("calls")
        g = [c.call("disccomp %d 1 Q.A" % w) for w in range(1, 1 + len(fs))]
        ok = [w for w in range(len(g)) if g[w].rc == 0 and g[w].payload == ["1", "Q"]]
        ctx.check(len(ok) == 1, "twins", "after %d threads opened the same name, %d handles are usable" % (len(fs), len(ok)))
        for w in range(1, 1 + len(fs)):
            c.call("close %d" % w)
        g = c.call("get 0 Q.A")
        ctx.check(g.rc == 0 and g.payload == ["i32:5"], "others-broken", "another handle's get gives rc %d %s" % (g.rc, g.payload))
        ctx.distinct("twins/%d" % len(fs))
        if ctx.failed:
            return


def asyncclose(ctx, rounds):
    """A handle, at times the process's only one, is closed while asynchronous calls are under way for it: each callback is called once, before close returns."""
    r = ctx.rng
    ctx.start_broker()
    q = ctx.comp("Q")
    q.ok(reg(0, "Q"))
    q.ok("handlelog 0")
    c = ctx.agent("C")
    for i in range(rounds):
        other = r.random() < 0.5
        if other:
            c.ok("open 5 keeper")
        c.ok("open 0 C")
        c.ok("timeouts 0 5000 5000 5000 5000 5000")
        m = c.mark()
        n = r.choice([1, 2, 6])
        fs = []
        for j in range(n):
            mode, ms = r.choice([0, 2, 3]), r.choice([0, 0, 2, 20, 150])
            x = c.ok("inva 0 Q.%s ~(mode=i32:%d,ms=i32:%d) 5" % (r.choice(["M()", "M()", "None()"]), mode, ms))
            ctx.count("calls")
        time.sleep(r.choice([0, 0, 0.001, 0.005, 0.03]))
        x = c.call("close 0")
        ctx.check(x.rc == 0, "close-fails", "closing with %d asynchronous calls: rc %d" % (n, x.rc))
        c.sync()
        cb = c.evs("invcb", m)
        ctx.check(len(cb) == n and all(e.t <= x.t1 for e in cb), "async-callbacks", "%d asynchronous calls, %d callbacks by the time close had returned (%s)" % (n, len(cb), [e.t - x.t1 for e in cb]))
        ctx.distinct("async/%d/%d/%d" % (n, other, min(int((x.t1 - x.t0) / 2e7), 10)))
        if other:
            c.ok("close 5")
        if ctx.failed:
            return
    ctx.broker_alive()
