"""The broker's wire format, independently of the library: frames, raw clients."""
import json, os, select, socket, struct, threading, time

MARK, VER = 0xAAAA, 2
REQ, RESP, UNDELIV = 0x01, 0x02, 0x04
FIXED = 52          # header bytes without the two names (with the five time fields the default build carries)
SUBSCRIBE, HELLO, QUERY = "_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX.HELLO", "_RTROUTED.INBOX.QUERY"
ELEMENTS, ORIGIN, COMPONENTS, DIAG, ADVISORY, TIMING = "_enumerate_elements", "_trace_origin_object", "_registered_components", "_RTROUTED.INBOX.DIAG", "_RTROUTED.ADVISORY", "_RTROUTED.INBOX.TRANSACTION_TIME_INFO"


def b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def frame(topic, payload=b"", reply="", flags=0, seq=0, control=0, t=(0, 0, 0, 0, 0)):
    topic, reply, payload = b(topic), b(reply), b(payload)
    h = struct.pack(">HHHIIIII", MARK, VER, FIXED + len(topic) + len(reply), seq & 0xffffffff, flags, control, len(payload), len(topic)) + topic
    h += struct.pack(">I", len(reply)) + reply + struct.pack(">5I", *t) + struct.pack(">H", MARK)
    return h + payload


class Frame:
    __slots__ = ("topic", "reply", "seq", "flags", "control", "payload", "when")

    def __repr__(self):
        return "<%s<-%s seq %d flags %x ctl %d %d bytes>" % (self.topic, self.reply, self.seq, self.flags, self.control, len(self.payload))


class BadFrame(Exception):
    pass


def parse(buf):
    """(frame, bytes used) or (None, 0) when more bytes are needed."""
    if len(buf) < 6:
        return None, 0
    m, v, hl = struct.unpack(">HHH", buf[:6])
    if m != MARK or v != VER or hl < FIXED or hl > 4096:
        raise BadFrame("preamble %s" % bytes(buf[:6]).hex())
    if len(buf) < hl:
        return None, 0
    f = Frame()
    f.seq, f.flags, f.control, pl, tl = struct.unpack(">IIIII", buf[6:26])
    if FIXED + tl > hl:
        raise BadFrame("name length %d in header of %d" % (tl, hl))
    f.topic = bytes(buf[26:26 + tl])
    rl = struct.unpack(">I", buf[26 + tl:30 + tl])[0]
    if FIXED + tl + rl > hl:
        raise BadFrame("reply name length %d in header of %d" % (rl, hl))
    f.reply = bytes(buf[30 + tl:30 + tl + rl])
    if struct.unpack(">H", buf[50 + tl + rl:52 + tl + rl])[0] != MARK:
        raise BadFrame("no end mark")
    if len(buf) < hl + pl:
        return None, 0
    f.payload = bytes(buf[hl:hl + pl])
    f.when = time.monotonic()
    return f, hl + pl


class Client:
    """A raw client; everything it receives is parsed strictly and kept in .got."""
    N = 0

    def __init__(self, name=None, path="/tmp/rtrouted", read=True, inbox=True):
        Client.N += 1
        self.name = name or "raw%d" % Client.N
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.settimeout(30)
        for i in range(3000):
            try:
                self.s.connect(path)
                break
            except BlockingIOError:     # the queue of the listening socket is full
                if i == 2999:
                    raise
                time.sleep(0.01)
        self.inbox = "%s.INBOX.%d.%d" % (self.name, os.getpid(), Client.N)
        self.got, self.cv, self.seq, self.closed, self.bad = [], threading.Condition(), 0, False, None
        self.tx = threading.Lock()
        self.th = None
        if read:
            self.th = threading.Thread(target=self._reader, daemon=True)
            self.th.start()
        if inbox:
            self.subscribe(self.inbox, 0, wait=False)

    def _reader(self):
        buf = bytearray()
        while True:
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                continue
            except OSError:
                d = b""
            if not d:
                with self.cv:
                    self.closed = True
                    self.cv.notify_all()
                return
            buf += d
            try:
                while True:
                    f, n = parse(buf)
                    if f is None:
                        break
                    del buf[:n]
                    with self.cv:
                        self.got.append(f)
                        self.cv.notify_all()
            except BadFrame as e:
                with self.cv:
                    self.bad = str(e)
                    self.closed = True
                    self.cv.notify_all()
                return

    def raw(self, data):
        with self.tx:
            self.s.sendall(data)

    def send(self, topic, payload=b"", **kw):
        self.raw(frame(topic, payload, **kw))

    def request(self, topic, payload, timeout=20, js=True, reply=None, flags=0):
        """The reply frame, or None."""
        with self.tx:
            self.seq += 1
            n = self.seq | 0x40000000
        if not isinstance(payload, (bytes, bytearray)):
            payload = json.dumps(payload).encode()
        reply = reply or self.inbox
        self.send(topic, payload, reply=reply, flags=REQ | flags, seq=n)
        return self.wait(lambda f: f.seq == n and f.topic == b(reply) and f.flags & RESP, timeout)

    def wait(self, pred, timeout=20):
        end = time.monotonic() + timeout
        k = 0
        with self.cv:
            while True:
                while k < len(self.got):
                    if pred(self.got[k]):
                        return self.got[k]
                    k += 1
                if self.closed or time.monotonic() > end:
                    return None
                self.cv.wait(0.5)

    def ask(self, topic, payload, timeout=20):
        f = self.request(topic, payload, timeout)
        if f is None or not f.payload:
            return None
        try:
            return json.loads(f.payload.rstrip(b"\0"))
        except ValueError:
            return {"unreadable": f.payload[:200].hex()}

    def subscribe(self, topic, rid, add=1, wait=True, timeout=20):
        p = {"add": add, "topic": topic, "route_id": rid}
        if not wait:
            self.send(SUBSCRIBE, json.dumps(p), reply="", flags=0)
            return None
        r = self.ask(SUBSCRIBE, p, timeout)
        return None if r is None else r.get("result")

    def since(self, k):
        with self.cv:
            return list(self.got[k:])

    def mark(self):
        with self.cv:
            return len(self.got)

    def close(self, how="close"):
        try:
            if how == "reset":
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            if how == "halfclose":
                self.s.shutdown(socket.SHUT_WR)
                time.sleep(0.02)
            else:
                try:
                    self.s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
            self.s.close()
        except OSError:
            pass
