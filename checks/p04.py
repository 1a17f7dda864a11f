"""P04: every decoder (message items, values, properties, objects, filters, events, meta section, debug text, TLV buffers, text forms, JSON messages, frame headers, base64, stored subscription file) fed with valid encodings cut at every byte, mutated, spliced, nested too deep, and random bytes, from memory that ends where the data ends, under ASan+UBSan and under memcheck; cut input must be reported as failure, whatever is accepted must survive being encoded and decoded again, nothing may be left on the heap, CPU time is bounded.; and live: everything components say to each other is captured off the wire, and mutated requests, replies and events are then thrown at running providers and consumers (also by a lying provider, and by a line that damages what the broker sends), which must stay up, end every call, and go on serving."""
import os, random, select, socket, threading, time
from lib import vlib, wire
VARIANTS, AGENT = ["asan", "plain"], True
EVAL = "inputs_decoded"
RULE = "a case is one byte string handed to one decoder; distinct = (decoder, kind of damage, size class) combinations"


def prepare():
    for v in VARIANTS:
        vlib.Variant(v).driver("u_decode.cpp", cflags=["-fpermissive"])


def plan(tier):
    q = tier == "quick"
    out = [{"fn": "unit", "args": {"first": i * c, "count": c, "mode": m}} for m, c in (("msg", 60 if q else 3000), ("tlv", 60 if q else 3000), ("wire", 60 if q else 3000), ("cache", 30 if q else 600)) for i in range(3 if q else 16)]
    out += [{"fn": "live", "args": {"k": i, "waves": 30 if q else 900}} for i in range(3 if q else 16)]
    out += [{"fn": "line", "args": {"k": i, "secs": 8 if q else 120}} for i in range(2 if q else 8)]
    return out + [{"fn": "memcheck", "args": {"first": 900000 + i * c, "count": c, "mode": m}} for m, c in (("msg", 4 if q else 100), ("tlv", 3 if q else 60), ("wire", 3 if q else 60), ("cache", 3 if q else 60)) for i in range(1 if q else 6)]


def unit(ctx, first, count, mode):
    ctx.unit(vlib.BUILD + "/asan-u_decode", [ctx.seed, count, first, mode])


def memcheck(ctx, first, count, mode):
    ctx.unit("/usr/bin/valgrind", ["-q", "--error-exitcode=99", "--main-stacksize=67108864", vlib.BUILD + "/plain-u_decode", ctx.seed, count, first, mode], timeout=800, variant="plain")


HOT = [0x00, 0x01, 0x7f, 0x80, 0xff, 0xc0, 0xc4, 0xc6, 0xd2, 0xd3, 0xda, 0xdb, 0xdc, 0xdd, 0xdf, 0xcb, 0xca, 0xce, 0x90, 0xa0, 0xa1, 0xbf, 0xc9, 0xd9]


def mutate(r, s, others=()):
    s = bytearray(s)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        n = len(s)
        k = r.randrange(10)
        if k == 0 and n:
            s[r.randrange(n)] = r.randrange(256)
        elif k == 1 and n:
            s[r.randrange(n)] ^= 1 << r.randrange(8)
        elif k == 2 and n:
            s[r.randrange(n)] = r.choice(HOT)
        elif k == 3:
            i = r.randrange(n + 1)
            s[i:i] = bytes([r.choice(HOT + [r.randrange(256)])]) * r.randrange(1, 5)
        elif k == 4 and n:
            i = r.randrange(n)
            del s[i:i + r.randrange(1, 8)]
        elif k == 5 and n:
            i = r.randrange(n)
            j = r.randrange(n + 1)
            s[j:j] = s[i:i + r.randrange(1, 40)]
        elif k == 6 and n:
            del s[r.randrange(n):]
        elif k == 7 and n >= 5:          # an integer of the message (0xd2 and four bytes) replaced
            at = [i for i in range(n - 4) if s[i] == 0xd2] or [r.randrange(n - 4)]
            i = r.choice(at)
            s[i + 1:i + 5] = r.choice([b"\0\0\0\0", b"\0\0\0\1", b"\x7f\xff\xff\xff", b"\x80\0\0\0", b"\xff\xff\xff\xff", b"\0\0\5\0", b"\0\1\0\0", bytes([0, 0, 5, r.randrange(0x20)]), bytes([0, 0, 0, r.randrange(20)])])
        elif k == 8 and others:
            o = r.choice(others)
            i = r.randrange(len(o) + 1)
            j = r.randrange(n + 1)
            s[j:] = o[i:]
        elif k == 9 and n > 6:           # the trailing pointer to the meta section
            s[n - r.randrange(1, 6)] = r.randrange(256)
    return bytes(s)


REG = "reg 0 11 %s.A p gs %s.B p gs %s.S p gse %s.T.{i}. t are %s.T.{i}.V p gs %s.T.{i}.W p gse %s.E! e e %s.F! e - %s.M() m m %s.N() m m %s.K p g"


def ops(r, pre, quick=False):
    l = ["get 0 %s.A" % pre, "set 0 %s.A i32:%d" % (pre, r.randrange(99)), "set 0 %s.B obj:x(a=str:1,b=obj:y(c=i32:4))" % pre, "setmulti 0 0 0 2 %s.A u32:7 %s.B str:abc" % (pre, pre), "getext 0 2 %s.A %s.T." % (pre, pre), "getext 0 1 %s." % pre, "getext 0 1 %s.T.*.V" % pre,
         "addrow 0 %s.T. al%d" % (pre, r.randrange(1000)), "addrow 0 %s.T. !" % pre, "rownames 0 %s.T." % pre, "info 0 %s. 3" % pre, "info 0 %s.T.1. 1" % pre, "inv 0 %s.M() ~(tag=str:q,mode=i32:0)" % pre, "inva 0 %s.N() ~(tag=i32:1) 5" % pre, "inv 0 %s.M() ~(mode=i32:3,rc=i32:7)" % pre,
         "subex 0 0 0 1 %s.E! ! 0 0 0 1" % pre, "subex 0 0 0 1 %s.S R4(i32:5) 0 30 0 2" % pre, "subex 0 0 0 1 %s.S ! 100 0 0 3" % pre, "subex 0 0 0 1 %s.T. ! 0 0 0 4" % pre, "subex 0 0 0 1 %s.F! L0(R0(i32:5),L2(R1(str:a),!)) 0 0 0 5" % pre, "subraw 0 %s.F! 6 0" % pre,
         "remrow 0 %s.T.1" % pre, "unsub 0 %s.E!" % pre, "unsubraw 0 %s.F!" % pre, "get 0 %s.Nope" % pre, "set 0 %s.T.2.V bool:true" % pre, "set 0 %s.T.2.V f64:400921fb54442d18 0 5" % pre]
    return l


def stir(p, pre, n):
    """The provider publishes."""
    p.call("pub 0 %s.E! 3 ev:(n=i32:%d,o=obj:z(k=bytes:00ff))" % (pre, n))
    p.call("pub 0 %s.F! 3 ev:(n=str:%d)" % (pre, n))
    p.call("pubraw 0 %s.F! 0011223344" % pre)


def live(ctx, k, waves):
    r = ctx.rng
    ctx.start_broker()
    p, c, q = ctx.comp("hp"), ctx.comp("hc"), ctx.comp("hq")
    pre, goodp = "Hp", "Hg"
    p.ok(REG % ((pre,) * 11))
    q.ok(REG % ((goodp,) * 11))
    for a in (p, c, q):
        a.call("timeouts 0 4000 4000 4000 4000 4000")
    s = wire.Client("sniff")
    names = ["%s.%s" % (pre, x) for x in ("A", "B", "S", "T.{i}.", "T.{i}.V", "T.{i}.W", "E!", "F!", "M()", "N()", "T.", "hp")] + ["hp", "hc"]
    for i, n in enumerate(names):
        s.subscribe(n, 100 + i)
    req, ans, evs = [], {}, []
    inbox = None
    for o in ops(r, pre):
        m = s.mark()
        c.call(o)
        time.sleep(0.01)
        fs = [f for f in s.since(m) if f.topic != wire.b(s.inbox)]
        got = [f for f in fs if f.flags & wire.REQ]
        req += got
        if inbox is None and got:
            inbox = got[0].reply.decode()
            s.subscribe(inbox, 99)
        a = [f for f in fs if f.flags & wire.RESP and f.payload]
        if a:
            ans.setdefault(o.split()[0], []).extend(f.payload for f in a)
    m = s.mark()
    for n in range(3):
        stir(p, pre, n)
    p.call("set 0 %s.S i32:5" % pre)
    time.sleep(0.3)
    evs = [f for f in s.since(m) if inbox and f.topic == wire.b(inbox) and not f.flags & wire.RESP and f.payload]
    if not req or not ans or not evs:
        raise vlib.HarnessError("captured %d requests, %d answers, %d events" % (len(req), len(ans), len(evs)))
    ctx.count("captured_frames", len(req) + len(evs) + sum(len(x) for x in ans.values()))
    allp = [f.payload for f in req] + [f.payload for f in evs] + [x for l in ans.values() for x in l]
    for i, n in enumerate(names):
        s.subscribe(n, 100 + i, add=0)
    s.subscribe(inbox, 99, add=0)
    qbox = "%s" % inbox
    for w in range(waves):
        kind = r.choice(["req", "req", "req", "ev", "wild"])
        for _ in range(15):
            if kind == "req":
                f = r.choice(req)
                pl, to, fl = mutate(r, f.payload, allp), f.topic, wire.REQ
            elif kind == "ev":
                f = r.choice(evs)
                pl, to, fl = mutate(r, f.payload, allp), f.topic, 0
            else:
                pl = mutate(r, r.choice(allp), allp) if r.random() < 0.8 else r.randbytes(r.randrange(200))
                to, fl = r.choice([f.topic for f in req] + [wire.b(inbox)] * 3 + [b"hp", b"hc", b"Hp.K"]), r.choice([0, wire.REQ, wire.RESP, wire.RESP, wire.REQ | wire.RESP, 4, 6, 8, 16, 32, 63])
            s.send(to, pl, flags=fl, seq=r.randrange(60) if fl & wire.RESP else r.randrange(1 << 31), reply=s.inbox if r.random() < 0.9 else r.choice(["", inbox, "no.such", "hp"]), control=r.choice([0, 0, 1, 2, 3, r.randrange(1 << 32)]))
            ctx.count("hostile_messages")
            ctx.distinct("%s/%d/%d" % (kind, fl, min(len(pl), 400) // 8))
        for t in range(12):        # a queue of more than 25 requests drops the next ones by design; wait until it is worked off
            g = c.call("get 0 %s.K" % pre)
            if g.rc != 20:
                break
            ctx.count("slow_waves")
        ctx.check(g.rc == 0 and g.payload == ["str:%s.K" % pre], "provider-stuck", "after malformed %s messages the provider answers a get with rc %s %s" % (kind, g.rc, g.payload[:2]))
        g = c.call("inv 0 %s.M() ~(tag=str:w%d)" % (goodp, w))
        ctx.check(g.rc == 0 and "tag=str:w%d" % w in " ".join(g.payload), "consumer-stuck", "after malformed %s messages the consumer's call gives rc %s %s" % (kind, g.rc, g.payload[:2]))
        if w % 5 == 4:
            p.sync(), c.sync()
            c.call("subex 0 0 0 1 %s.E! ! 0 0 0 77" % goodp)
            q.ok("pub 0 %s.E! 3 ev:(n=i32:%d)" % (goodp, w))
            stir(p, pre, w)
        if ctx.failed:
            return
    ctx.sample("mutations of %d requests, %d kinds of answers, %d events" % (len(req), len(ans), len(evs)))
    # ---- a lying provider: it owns the names and answers with mutated answers
    p.expected_death = True
    p.close_stdin() if hasattr(p, "close_stdin") else p.kill()
    time.sleep(0.2)
    for i, n in enumerate(names):
        if n not in ("hc", "hp"):
            s.subscribe(n, 100 + i)
    state = {"op": "get", "stop": False, "n": 0}
    lr = random.Random(r.random())

    def lie():
        k2 = s.mark()
        while not state["stop"]:
            with s.cv:
                if k2 >= len(s.got):
                    s.cv.wait(0.2)
                fs = s.got[k2:]
                k2 = len(s.got)
            for f in fs:
                if not f.flags & wire.REQ or f.topic == wire.b(s.inbox):
                    continue
                u = lr.random()
                pool = ans.get(state["op"]) or allp
                pl = lr.choice(pool) if u < 0.75 else lr.choice(allp)
                if lr.random() < 0.93:
                    pl = mutate(lr, pl, allp)
                for _ in range(1 if lr.random() < 0.95 else 2):
                    s.send(f.reply, pl, flags=wire.RESP if lr.random() < 0.97 else wire.RESP | wire.UNDELIV, seq=f.seq, control=f.control)
                state["n"] += 1
    th = threading.Thread(target=lie, daemon=True)
    th.start()
    c.call("timeouts 0 700 700 700 700 700")
    for w in range(waves * 4):
        o = r.choice(ops(r, pre))
        state["op"] = o.split()[0]
        t = time.monotonic()
        c.call(o)
        ctx.check(time.monotonic() - t < 60, "call-time", "%s against a provider giving malformed answers took %.0f s" % (o, time.monotonic() - t))
        if w % 10 == 9:
            c.call("timeouts 0 4000 4000 4000 4000 4000")
            g = c.call("get 0 %s.K" % goodp)
            ctx.check(g.rc == 0 and g.payload == ["str:%s.K" % goodp], "consumer-stuck", "after malformed answers a get from another provider gives rc %s %s" % (g.rc, g.payload[:2]))
            c.call("timeouts 0 700 700 700 700 700")
        if ctx.failed:
            break
    state["stop"] = True
    th.join(5)
    ctx.count("lies", state["n"])
    ctx.broker_alive()


class Line:
    """Between the clients and the broker: passes bytes on, damaging what the broker sends while .noise is set."""
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.noise = 0.0
        self.hits = 0
        os.rename("/tmp/rtrouted", "/tmp/rtrouted.real")
        self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind("/tmp/rtrouted")
        self.ls.listen(64)
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            a, _ = self.ls.accept()
            b = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            b.connect("/tmp/rtrouted.real")
            threading.Thread(target=self.pump, args=(a, b, False), daemon=True).start()
            threading.Thread(target=self.pump, args=(b, a, True), daemon=True).start()

    def pump(self, a, b, down):
        try:
            while True:
                d = a.recv(65536)
                if not d:
                    break
                if down and self.noise and self.r.random() < self.noise:
                    self.hits += 1
                    d = bytearray(d)
                    k = self.r.randrange(6)
                    if k == 0:
                        d = mutate(self.r, d)
                    elif k == 1:
                        d[self.r.randrange(min(len(d), 60))] ^= 1 << self.r.randrange(8)
                    elif k == 2:
                        d = d + self.r.randbytes(self.r.randrange(1, 100))
                    elif k == 3:
                        d = d + wire.frame("x", b"", flags=self.r.randrange(64), seq=self.r.randrange(50), control=self.r.randrange(5))
                    elif k == 4:
                        b.sendall(d[:self.r.randrange(len(d))])
                        break
                    else:
                        d[20 if len(d) > 20 else 0] = self.r.randrange(256)
                b.sendall(d)
        except OSError:
            pass
        for x in (a, b):
            try:
                x.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass


def line(ctx, k, secs):
    r = ctx.rng
    ctx.start_broker()
    ln = Line(r.random())
    p, c = ctx.comp("lp"), ctx.comp("lc")
    p.ok(REG % (("Lp",) * 11))
    for a in (p, c):
        a.call("timeouts 0 500 500 500 500 500")
    for o in ops(r, "Lp"):
        c.call(o)
    end = time.monotonic() + secs
    n = 0
    while time.monotonic() < end and not ctx.failed:
        ln.noise = r.choice([0.1, 0.5, 0.05])
        o = r.choice(ops(r, "Lp") * 3 + ["reg 1 1 Lp.Z%d p gs" % n])
        t = time.monotonic()
        c.call(o)
        if r.random() < 0.1:
            stir(p, "Lp", n)
        ctx.check(time.monotonic() - t < 60, "call-time", "%s over a damaged line took %.0f s" % (o, time.monotonic() - t))
        n += 1
    ctx.count("calls_over_damaged_line", n)
    ctx.count("damaged_chunks", ln.hits)
    ln.noise = 0
    for a in (p, c):
        a.sync()
    # whatever state the old connections are in, new components over the repaired line work
    x, y = ctx.comp("lx"), ctx.comp("ly")
    x.ok("reg 0 1 Lx.A p gs")
    g = y.call("get 0 Lx.A")
    ctx.check(g.rc == 0, "line-after", "new components over the repaired line: rc %s" % g.rc)
    ctx.broker_alive()
