"""P07: hostile raw clients feed a live broker random bytes, mutated, truncated, inconsistent and oversized frames, malformed requests and claims on other clients' names, split at any byte, and vanish at any point, also by the thousand and while memory runs out; well-behaved clients exchange numbered requests, replies and messages all the while. Every one of those must arrive once, in order and unchanged; the broker (ASan+UBSan) must stay up, and nothing of a departed client may remain."""
import hashlib, json, os, random, resource, select, socket, struct, threading, time, traceback
from lib import vlib, wire
VARIANTS, AGENT = ["asan"], False
RULE = "a case is one hostile byte stream (connection); distinct = (kinds of hostile input in it, how it was split, how it ended, whether it was cut mid-frame) combinations"
EVAL = "streams"
PARALLEL = 8


def plan(tier):
    q = tier == "quick"
    t = 7 if q else 60
    return [{"fn": "hostile", "args": {"k": i, "secs": t, "lowmem": i % 4 == 3}} for i in range(8 if q else 40)] + \
           [{"fn": "dribble", "args": {"k": i, "n": 12 if q else 80}} for i in range(2 if q else 8)] + \
           [{"fn": "crowd", "args": {"k": 0, "rounds": 1 if q else 4}}, {"fn": "noread", "args": {}}, {"fn": "stall", "args": {"k": 0}}]


class Good:
    """A well-behaved client: its topic 'good.N', numbered traffic to the others, requests answered by the others."""
    def __init__(self, i):
        self.i = i
        self.c = wire.Client("good%d" % i)
        self.topic = "good.G%d.x" % i
        self.sent, self.seqs, self.served = 0, {}, 0
        self.c.subscribe(self.topic, 5)
        # names as long as they may be
        self.topics = [self.topic, "good.L%d." % i + "t" * (127 - 8 - i)]
        self.boxes = [self.c.inbox, "good%d.long.inbox." % i + "b" * (127 - 17 - i)]
        for x, r in ((self.topics[1], 6), (self.boxes[1], 7)):
            if self.c.subscribe(x, r):
                raise vlib.HarnessError("%s refused" % x)


def body(src, dst, n, size, flags=0):
    r = random.Random("%d/%d/%d" % (src, dst, n)).randbytes(size)
    p = struct.pack(">4sIIIII", b"GOOD", src, dst, n, size, flags) + r
    return p + hashlib.md5(p).digest()


class Traffic:
    """Everything well-behaved: runs in its own threads until stop; complaints are kept for the end."""
    def __init__(self, ctx, n):
        self.ctx, self.n, self.stop = ctx, n, False
        self.bad = []
        self.g = [Good(i) for i in range(n)]
        self.expect = [[0] * n for _ in range(n)]      # next number expected at [dst][src]
        self.sent = [[0] * n for _ in range(n)]
        self.reqs = self.msgs = 0
        self.rng = random.Random(ctx.rng.random())
        self.th = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in range(n)]
        self.rx = [threading.Thread(target=self.receive, args=(i,), daemon=True) for i in range(n)]
        self.done = False
        for t in self.rx + self.th:
            t.start()

    def say(self, key, text):
        self.bad.append((key, text))

    def receive(self, i):
        g = self.g[i]
        k = 0
        while True:
            with g.c.cv:
                while k >= len(g.c.got):
                    if g.c.closed:
                        if not self.done:
                            self.say("good-cut", "well-behaved client %d was cut off or sent a malformed frame: %s" % (i, g.c.bad))
                        return
                    g.c.cv.wait(0.5)
                fs = g.c.got[k:]
                k = len(g.c.got)
            for f in fs:
                if f.payload[:4] == b"GOOD" and not f.flags & wire.RESP:
                    _, src, dst, n, size, flags = struct.unpack(">4sIIIII", f.payload[:24])
                    if f.payload != body(src, dst, n, size, flags) or dst != i or f.topic not in [wire.b(x) for x in g.topics]:
                        self.say("content", "message %d from %d to %d reached %d on topic %r with %d bytes, changed or misdirected" % (n, src, dst, i, f.topic[:40], len(f.payload)))
                    elif f.flags != flags:
                        self.say("flags", "message %d from %d to %d left with flags %d and arrived with %d" % (n, src, dst, flags, f.flags))
                    elif n != self.expect[i][src]:
                        self.say("order", "client %d received message %d of client %d where number %d was due" % (i, n, src, self.expect[i][src]))
                        self.expect[i][src] = n + 1
                    else:
                        self.expect[i][src] += 1
                    if f.flags & wire.REQ:
                        try:
                            g.c.send(f.reply, b"ANSW" + f.payload, flags=wire.RESP, seq=f.seq)
                        except OSError as e:
                            self.say("good-cut", "client %d cannot answer: %s" % (i, e))
                elif f.payload == b"" and f.flags & wire.REQ and f.reply:
                    try:
                        g.c.send(f.reply, b"ANSW", flags=wire.RESP, seq=f.seq)
                    except OSError as e:
                        self.say("good-cut", "client %d cannot answer: %s" % (i, e))

    def run(self, i):
        rng = random.Random("%d/%f" % (i, self.rng.random()))
        g = self.g[i]
        while not self.stop:
            j = rng.randrange(self.n)
            n = self.sent[j][i]
            fl = rng.choice([0, 0, 0, 8, 16, 24])
            to, box = rng.choice(self.g[j].topics), rng.choice(g.boxes)
            try:
                if rng.random() < 0.1:
                    f = g.c.request(to, b"", 30, reply=box)
                    self.reqs += 1
                    if f is None or f.payload != b"ANSW" or f.flags & wire.UNDELIV:
                        self.say("empty-request", "client %d got %r as the answer to a request without payload to %d within 30 s" % (i, f, j))
                        return
                    continue
                ask = rng.random() < 0.5
                p = body(i, j, n, rng.choice([0, 1, 10, 100, 1000, 1000, 9000, 70000]), fl | (wire.REQ if ask else 0))
                self.sent[j][i] += 1
                if ask:
                    f = g.c.request(to, p, 60, reply=box, flags=fl)
                    self.reqs += 1
                    if f is None:
                        self.say("request-lost", "client %d got no answer from client %d to request %d within 60 s" % (i, j, n))
                        return
                    if f.payload != b"ANSW" + p or f.flags & wire.UNDELIV:
                        self.say("reply", "client %d got a wrong answer to request %d to %d: %r" % (i, n, j, f))
                else:
                    g.c.send(to, p, flags=fl, reply=rng.choice(["", box]))
                    self.msgs += 1
            except OSError as e:
                self.say("good-cut", "client %d cannot send: %s" % (i, e))
                return
            if rng.random() < 0.2:
                time.sleep(rng.random() * 0.01)
            if len(g.c.got) > 20000:
                time.sleep(0.05)

    def finish(self):
        self.stop = True
        for t in self.th:
            t.join(90)
        end = time.monotonic() + 60
        while time.monotonic() < end and not self.bad and self.expect != self.sent:
            time.sleep(0.02)
        for d in range(self.n):
            for s in range(self.n):
                self.ctx.check(self.expect[d][s] == self.sent[d][s], "lost", "client %d received %d of %d messages client %d sent" % (d, self.expect[d][s], self.sent[d][s], s))
        for k, t in self.bad[:5]:
            self.ctx.check(False, k, t)
        self.ctx.count("good_messages", self.msgs)
        self.ctx.count("good_requests", self.reqs)

    def close(self):
        self.done = True
        for g in self.g:
            g.c.close()


BOUND = [0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 50, 51, 52, 53, 127, 128, 255, 256, 257, 511, 512, 563, 564, 565, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 0x7ffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
INTERNAL = [wire.SUBSCRIBE, wire.SUBSCRIBE, wire.SUBSCRIBE, wire.HELLO, wire.QUERY, wire.ELEMENTS, wire.ORIGIN, wire.COMPONENTS, wire.DIAG, "TransactionTime", wire.ADVISORY, "_RTROUTED.INBOX.", "_RTROUTED."]


def topics(rng, tr):
    return rng.choice([g.topic for g in tr.g] + [g.c.inbox for g in tr.g] + ["good.G1.", "good.", "good", "good.*.x", "", ".", "..", "nobody", "h.A", "h.A.1.B", "h.A.", "A" * 255, "h" + ".t" * 40, wire.ADVISORY, "\xff\xfe", "good.G0.x\0junk", "*", "1", "[x]"])


def jval(rng, tr, d=0):
    x = rng.randrange(14)
    if x < 3:
        return rng.choice([0, 1, -1, 2, 5, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 1e300, 1e-300, 0.5, -0.0, 99999999999999999999])
    if x < 8:
        return rng.choice([topics(rng, tr), "x" * rng.choice([1, 126, 127, 128, 129, 300, 5000]), "a.b.{i}.c", "h.A.{i}.B", "h.A.{i}.", "heartbeat", "no such command", "%s%n%d", "\u00e9", "."])
    if x == 8:
        return None
    if x == 9:
        return rng.choice([True, False])
    if x < 12 and d < 3:
        return [jval(rng, tr, d + 1) for _ in range(rng.choice([0, 1, 3, 40]))]
    if d < 3:
        return {rng.choice(["a", "add", "topic", "items", "count", ""]): jval(rng, tr, d + 1) for _ in range(rng.randrange(4))}
    return 7


def jbody(rng, tr, topic):
    """A request body for an internal name: right keys, any values; sometimes broken JSON."""
    g = rng.choice(tr.g)
    if topic == wire.SUBSCRIBE and rng.random() < 0.7:
        d = {"add": rng.choice([1, 1, 1, 0, 0, 2, -1]), "route_id": rng.choice([0, 1, 2, 3, 5, -1, 2 ** 31 - 1]), "topic": rng.choice(["h.A.{i}.B", "h.A.{i}.C", "h.A", "h.A.B", "h.A.1", "h.D.E.F.G", "h.%d" % rng.randrange(50), "x.INBOX.y", "X" * 127, "h" + ".t" * 31, g.topic, g.c.inbox, wire.ADVISORY, "good", "good.G0", "good.{i}.x", "good.", "_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX", "_enumerate_elements", "*", "[z]", "5", "", ".", "a..b"])}
    elif topic == wire.DIAG:
        d = {"_RTROUTED.INBOX.DIAG.KEY": rng.choice(["heartbeat", "nothing", "", "shutdow", 5, None, "logRoutingStats", "logRoutingTopics", "logRoutingRoutes", "resetBenchmarkData"]), "_RTROUTED.INBOX.DIAG.VALUE": jval(rng, tr)}
        if d["_RTROUTED.INBOX.DIAG.VALUE"] in ("shutdown",):
            d = {}
    elif topic == wire.ORIGIN:
        d = {"count": rng.choice([0, 1, 3, -1, 2 ** 31 - 1, "x"]), "items": [topics(rng, tr) for _ in range(rng.choice([0, 1, 3, 300]))]}
    elif topic in (wire.QUERY, wire.ELEMENTS):
        d = {"expression": topics(rng, tr)}
    elif topic == wire.HELLO:
        d = {"inbox": rng.choice([g.c.inbox, "h.INBOX.1", "h.x", wire.SUBSCRIBE, "X" * 200, "", g.topic])}
    elif topic == "TransactionTime":
        d = {"T1": 1, "T2": -5, "T3": 2 ** 31 - 1, "T4": "x", "topic": "%s%n" * rng.choice([1, 200]), "reply_topic": topics(rng, tr)}
    else:
        d = {}
    for k in list(d):
        if rng.random() < 0.12:
            d[k] = jval(rng, tr)
        if rng.random() < 0.04:
            del d[k]
    s = json.dumps(d).encode()
    x = rng.random()
    if x < 0.1:
        s = s[:rng.randrange(len(s) + 1)]
    elif x < 0.16:
        i = rng.randrange(max(1, len(s)))
        s = s[:i] + bytes([rng.randrange(256)]) + s[i + 1:]
    elif x < 0.18:
        s = b"[" * rng.choice([10, 999, 1001, 60000])
    elif x < 0.20:
        s = b'{"a":' * 5000
    elif x < 0.22:
        s = b""
    elif x < 0.25:
        s = rng.randbytes(rng.choice([1, 7, 300]))
    elif x < 0.30:
        s += b"\0"
    return s if b"GOOD" not in s and b'"shutdown"' not in s else b"{}"


def hostile_bytes(rng, tr, lowmem):
    """(kind, bytes)"""
    x = rng.random()
    if x < 0.10:
        return "random", rng.randbytes(rng.choice([1, 5, 6, 52, 300, 4000, 70000]))
    if x < 0.14:
        return "marks", rng.choice([b"\xaa", b"\xaa\xaa\x00\x02", b"\xaa\xaa\x00\x02\x00\x34", b"\xaa\xaa\x00\x02\xff\xff", b"\xaa\xaa\x00\x03\x00\x40"]) * rng.choice([1, 3, 200])
    req = rng.random() < 0.6
    reply = rng.choice([topics(rng, tr), "h.A", "h.A.{i}.B", "", "nobody", rng.choice(tr.g).c.inbox])
    if x < 0.50:
        t = rng.choice(INTERNAL)
        kind = "internal:" + t[-12:]
        f = wire.frame(t, jbody(rng, tr, t), reply=reply, flags=wire.REQ if req else rng.choice([0, 2, 4, 8, 16, 0xffffffdf]), seq=rng.randrange(1 << 30), t=[rng.choice(BOUND) for _ in range(5)])
    elif x < 0.7:
        kind = "to-others"
        f = wire.frame(topics(rng, tr), rng.randbytes(rng.choice([0, 1, 100, 5000])), reply=reply, flags=rng.choice([0, 1, 1, 2, 3, 6, 16, 0xffffffdf]), seq=rng.choice([x for x in BOUND if not 0x40000000 < x < 0x60000000]))
    else:
        # a frame whose fields disagree
        kind = "inconsistent"
        topic, rep, pay = wire.b(topics(rng, tr)), wire.b(reply), rng.randbytes(rng.choice([0, 3, 100]))
        v = {"mark": 0xAAAA, "ver": 2, "hl": wire.FIXED + len(topic) + len(rep), "seq": 1, "flags": 1, "ctl": 0, "pl": len(pay), "tl": len(topic), "rl": len(rep), "end": 0xAAAA}
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["mark", "ver", "hl", "hl", "pl", "tl", "tl", "rl", "rl", "end"])
            v[k] = rng.choice([rng.choice(BOUND), max(0, v[k] + rng.choice([-3, -2, -1, 1, 2, 3, 10]))])
        if not lowmem and 0x10000000 <= v["pl"] <= 0x7ffffff0:
            v["pl"] = 0x2000000
        kind += ":%s" % k
        f = struct.pack(">HHHIIIII", v["mark"] & 0xffff, v["ver"] & 0xffff, v["hl"] & 0xffff, v["seq"], v["flags"], v["ctl"], v["pl"] & 0xffffffff, v["tl"] & 0xffffffff) + topic
        f += struct.pack(">I", v["rl"] & 0xffffffff) + rep + struct.pack(">5I", 0, 0, 0, 0, 0) + struct.pack(">H", v["end"] & 0xffff) + pay
        if b"GOOD" in f:
            f = b"\xaa"
    if f and rng.random() < 0.08:
        i = rng.randrange(len(f))
        f = f[:i] + bytes([f[i] ^ (1 << rng.randrange(8))]) + f[i + 1:]
        kind += "+flip"
    return kind, f


def drain(s, over):
    """Reads what a hostile client is sent, so that it never stops the broker by not reading."""
    p = select.poll()
    p.register(s, select.POLLIN)
    try:
        while not over.is_set():
            if p.poll(50) and not s.recv(65536, socket.MSG_DONTWAIT):
                return
    except OSError:
        pass


def attack(ctx, rng, tr, lowmem, stop, lock):
    """One hostile connection after the other."""
    try:
        attack_(ctx, rng, tr, lowmem, stop, lock)
    except BaseException:
        tr.crash = traceback.format_exc()


def attack_(ctx, rng, tr, lowmem, stop, lock):
    while not stop():
        try:
            c = wire.Client("h", read=False, inbox=False)
        except OSError as e:
            if not stop():
                with lock:
                    ctx.check(False, "connect", "a client cannot connect to the broker: %s" % e)
            return
        c.s.settimeout(60)
        over = threading.Event()
        th = threading.Thread(target=drain, args=(c.s, over), daemon=True)
        th.start()
        kinds, split, cut = set(), "whole", False
        total = 0
        try:
            for _ in range(rng.choice([0, 1, 2, 6, 25])):
                k, f = hostile_bytes(rng, tr, lowmem)
                kinds.add(k)
                x = rng.random()
                if x < 0.12:
                    f = f[:rng.randrange(len(f) + 1)]
                    cut = True
                if x > 0.7 and len(f) < 2000:
                    split = "pieces"
                    i = 0
                    while i < len(f):
                        n = rng.choice([1, 1, 2, 3, 6, 30])
                        c.raw(f[i:i + n])
                        i += n
                        if rng.random() < 0.2:
                            time.sleep(0.001)
                else:
                    c.raw(f)
                total += len(f)
                if cut and rng.random() < 0.5:
                    break
        except OSError:
            pass        # the broker may end a connection whose stream makes no sense
        how = rng.choice(["close", "reset", "halfclose", "linger"])
        if how == "linger":
            time.sleep(rng.random() * 0.3)
        if how == "halfclose":
            try:
                c.s.shutdown(socket.SHUT_WR)
                time.sleep(0.02)
            except OSError:
                pass
        over.set()
        if how == "reset":      # leave with unread bytes in the socket
            th.join()
        c.close("close")
        th.join()
        with lock:
            ctx.count("streams")
            ctx.count("hostile_bytes", total)
            for k in kinds or ["none"]:
                ctx.distinct((k, split, how, cut))


def links(pid):
    r = []
    for f in sorted(os.listdir("/proc/%d/fd" % pid), key=int):
        try:
            r.append(f + ":" + os.readlink("/proc/%d/fd/%s" % (pid, f))[-24:])
        except OSError:
            pass
    return " ".join(r)


def settle(ctx, tr, base):
    """After the hostile clients have gone: no route and no descriptor of theirs remains."""
    end = time.monotonic() + 60
    want = sorted([x for g in tr.g for x in g.topics + g.boxes])
    items, fds = None, None
    while time.monotonic() < end:
        r = tr.g[0].c.ask(wire.COMPONENTS, {}, 60)
        if r is None:
            ctx.check(False, "silent", "the broker does not answer any more")
            return
        items = sorted(x for x in (r.get("items") or []))
        try:
            fds = links(ctx.broker.pid).count("socket:")
        except OSError:
            fds = None
        if items == want and (fds is None or fds <= base):
            return
        time.sleep(0.05)
    ctx.check(items == want, "left-routes", "60 s after the hostile clients left, the broker lists %s beyond the living clients' and lacks %s" % (sorted(set(items) - set(want))[:6], sorted(set(want) - set(items))[:6]))
    ctx.check(fds is None or fds <= base, "left-fds", "the broker holds %s descriptors, %s before: %s; here: %s" % (fds, base, links(ctx.broker.pid), links(os.getpid())))


def start(ctx, lowmem):
    env0 = ctx.env
    if lowmem:
        def env(variant, name):
            e = env0(variant, name)
            e["ASAN_OPTIONS"] += ":max_allocation_size_mb=48"
            return e
        ctx.env = env
    ctx.start_broker()
    ctx.env = env0


def hostile(ctx, k, secs, lowmem):
    rng = ctx.rng
    start(ctx, lowmem)
    tr = Traffic(ctx, rng.choice([2, 3, 5]))
    try:
        base = links(ctx.broker.pid).count("socket:")
    except OSError:
        base = None
    end = time.monotonic() + secs
    lock = threading.Lock()
    stop = lambda: time.monotonic() > end or bool(tr.bad) or ctx.broker.poll() is not None
    ths = [threading.Thread(target=attack, args=(ctx, random.Random(rng.random()), tr, lowmem, stop, lock), daemon=True) for _ in range(rng.choice([1, 3, 6]))]
    for t in ths:
        t.start()
    for t in ths:
        t.join(secs + 120)
        if getattr(tr, "crash", None):
            raise vlib.HarnessError(tr.crash)
        ctx.check(not t.is_alive(), "hostile-stuck", "the broker stopped reading a client's bytes for 60 s")
    ctx.broker_alive()
    tr.finish()
    if not ctx.failed:
        settle(ctx, tr, base if base is not None else 10 ** 9)
    ctx.sample("%d clients exchanged %d requests and %d messages beside the hostile streams" % (tr.n, tr.reqs, tr.msgs))
    tr.close()
    ctx.broker_alive()


def dribble(ctx, k, n):
    """Correct requests of several clients, sent in pieces cut at every position and interleaved with each other, are answered as if sent whole."""
    rng = ctx.rng
    ctx.start_broker()
    tr = Traffic(ctx, 2)
    cs = [wire.Client("d%d" % i) for i in range(4)]
    for i, c in enumerate(cs):
        ctx.check(c.subscribe("drib.D%d" % i, 3) == 0, "dribble-add", "a new client's route was refused")
    for r in range(n):
        streams = []
        for i, c in enumerate(cs):
            data, want = b"", []
            for j in range(rng.choice([1, 2, 5])):
                c.seq += 1
                s = 0x50000000 + c.seq
                t, p, res = rng.choice([(wire.ORIGIN, {"count": 1, "items": ["drib.D%d" % i]}, {"items": "drib.D%d" % i, "count": 1}), (wire.ELEMENTS, {"expression": "drib.D%d" % i}, {"items": "drib.D%d" % i, "count": 1}), (wire.QUERY, {"expression": "nothing.here"}, {"count": 0})])
                data += wire.frame(t, json.dumps(p), reply=c.inbox, flags=wire.REQ, seq=s)
                want.append((s, res))
            streams.append([c, data, 0, want, rng.choice([1, 2, 5, 6, 7, 51, 52, 53, 90, 10 ** 6])])
        live = list(streams)
        while live:
            st = rng.choice(live)
            m = st[4] if rng.random() < 0.8 else rng.choice([1, 3, 60])
            st[0].raw(st[1][st[2]:st[2] + m])
            st[2] += m
            if st[2] >= len(st[1]):
                live.remove(st)
            if rng.random() < 0.05:
                time.sleep(0.001)
        for c, data, _, want, m in streams:
            for s, res in want:
                f = c.wait(lambda f: f.seq == s, 30)
                ctx.count("cases")
                if not ctx.check(f is not None, "dribble-lost", "a request sent in pieces of %d bytes was not answered within 30 s" % m):
                    return
                d = json.loads(f.payload.rstrip(b"\0"))
                it = d.get("items")
                it = it[0] if isinstance(it, list) and len(it) == 1 else it
                ctx.check(d.get("count") == res["count"] and (it == res.get("items") or not res["count"]), "dribble-answer", "a request sent in pieces of %d bytes was answered with %s, expected %s" % (m, d, res))
            ctx.count("streams")
            ctx.distinct(("dribble", m, len(want)))
    for c in cs:
        c.close()
    tr.finish()
    tr.close()


def crowd(ctx, k, rounds):
    """More connections than the broker can have: those beyond are turned away, the others stay served."""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    lim = min(hard if hard > 0 else 4096, 4096)
    resource.setrlimit(resource.RLIMIT_NOFILE, (lim, hard))
    ctx.start_broker()
    tr = Traffic(ctx, 2)
    base = links(ctx.broker.pid).count("socket:")
    n = min(1300, lim - 200)
    for r in range(rounds):
        ss = []
        for i in range(n):
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.settimeout(20)
            try:
                for _ in range(1000):
                    try:
                        s.connect("/tmp/rtrouted")
                        break
                    except BlockingIOError:     # the queue of the listening socket is full
                        time.sleep(0.01)
                else:
                    ctx.check(False, "crowd-queue", "with %d connections open the broker takes no more connections from its queue for 10 s" % len(ss))
                ss.append(s)
                if i % 7 == 0:
                    s.sendall(wire.frame(wire.SUBSCRIBE, json.dumps({"add": 1, "topic": "crowd.C%d" % i, "route_id": 1})))
            except OSError:
                s.close()
                ctx.count("turned_away")
            if ctx.failed:
                break
            if i % 200 == 199:
                f = tr.g[0].c.ask(wire.ORIGIN, {"count": 1, "items": [tr.g[1].topic]}, 60)
                if not ctx.check(f is not None and f.get("count") == 1, "crowd-silent", "with %d connections open the broker answers a client with %r" % (i + 1, f)):
                    break
        ctx.count("connections", len(ss))
        ctx.count("streams", len(ss))
        ctx.distinct(("crowd", len(ss) // 100))
        # the last of the crowd may have been turned away, but those served are served properly
        time.sleep(0.3)
        for s in ss:
            s.close()
        if ctx.failed or not ctx.broker_alive():
            break
        settle(ctx, tr, base)
    tr.finish()
    tr.close()
    resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))


def noread(ctx):
    """A client that is sent messages and does not read them must not keep the others from being served."""
    ctx.start_broker()
    a, h = wire.Client("a"), wire.Client("h", read=False, inbox=False)
    h.raw(wire.frame(wire.SUBSCRIBE, json.dumps({"add": 1, "topic": "lazy.x", "route_id": 1})))
    ctx.check(a.subscribe("a.x", 1) == 0, "noread-add", "a new client's route was refused")
    end = time.monotonic() + 10
    while time.monotonic() < end and (a.ask(wire.ORIGIN, {"count": 1, "items": ["lazy.x"]}) or {}).get("count") != 1:
        time.sleep(0.02)
    a.s.settimeout(5)
    served = True
    try:
        for i in range(600):
            a.send("lazy.x", b"z" * 4000)
        served = a.ask(wire.ORIGIN, {"count": 1, "items": ["a.x"]}, 8) is not None
    except OSError:
        served = False
    ctx.count("streams")
    ctx.distinct(("noread", served))
    ctx.check(served, "client-that-does-not-read", "one client that does not read the messages it subscribed to stops the broker from serving anybody once its socket is full")
    h.close()
    a.close()


def stall(ctx, k):
    """A client announces a message there is no memory for and sends it by drops, or never: the others are served meanwhile, and its next message is understood."""
    rng = ctx.rng
    start(ctx, True)
    tr = Traffic(ctx, 3)
    h = wire.Client("h")
    ctx.check(h.subscribe("stall.x", 1) == 0, "stall-add", "a new client's route was refused")
    for r in range(3):
        n = rng.choice([50, 60, 100, 700]) << 20
        f = wire.frame(tr.g[0].topic, b"", seq=1)
        h.raw(f[:18] + struct.pack(">I", n) + f[22:])
        end = time.monotonic() + 1.0
        while time.monotonic() < end and not tr.bad:
            h.raw(bytes(rng.choice([1, 7, 1000])))
            ans = tr.g[1].c.ask(wire.ORIGIN, {"count": 1, "items": ["stall.x"]}, 20)
            if not ctx.check(ans is not None and ans.get("count") == 1, "stall-silent", "while one client is sending a message of %d MB the broker does not answer another within 20 s" % (n >> 20)):
                h.close()
                return
            ctx.count("asked")
        ctx.count("streams")
        ctx.distinct(("stall", n >> 20))
        h.close()
        h = wire.Client("h")
        ctx.check(h.subscribe("stall.x", 1) == 0, "stall-again", "a new client's route was refused")
    # a dropped message that comes to its end leaves the stream in step
    n = 50 << 20
    f = wire.frame(tr.g[0].topic, b"", seq=1)
    h.raw(f[:18] + struct.pack(">I", n) + f[22:])
    h.s.settimeout(120)
    h.raw(bytes(n))
    ctx.check((h.ask(wire.ORIGIN, {"count": 1, "items": ["stall.x"]}, 60) or {}).get("count") == 1, "stall-step", "after a message that was too large the same client is not understood")
    h.close()
    ctx.broker_alive()
    tr.finish()
    tr.close()
