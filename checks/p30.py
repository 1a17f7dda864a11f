"""P30: programs that use the messaging layer alone: several connections per process, over Unix and TCP sockets (from the command line, a configuration file or added while running), listeners with own and given numbers, aliases, default listeners, messages and binary data with and without a reply name, requests answered at once, late, never, after the time limit, without content or by way of another request, by many threads at once, while listeners come and go, receivers die and the router is restarted. Every delivery must be explained by a listener that matches and carry what was sent, each listener gets each message once and in order per sending thread, each request gets its own answer, a time-out or the news that nobody listens."""
import json
import os
import socket
import subprocess
import time
from lib.vlib import HarnessError, pct, unpct
from checks.p27 import match, EXPRS, TOPICS, payload
VARIANTS, AGENT = ["asan"], True
RULE = "a case is one message or request; distinct = (kind, transport, listeners matching, size class, outcome) combinations"
CAP = 16                   # messages and requests under way to one connection: one with more than 25 waiting drops them, by design


def plan(tier):
    n = 4 if tier == "quick" else 16
    r = 60 if tier == "quick" else 900
    return [{"fn": "mix", "args": {"k": i, "rounds": r}} for i in range(n)] + \
           [{"fn": "restart", "args": {"k": i, "rounds": r // 12}} for i in range(2 if tier == "quick" else 8)] + \
           [{"fn": "churn", "args": {"k": i, "rounds": r}} for i in range(2 if tier == "quick" else 8)] + \
           [{"fn": "addresses", "args": {}}]


EXPRS_ = [e for e in EXPRS]


class C:
    """One connection; wants = its listeners, alias -> listener, default listener."""
    def __init__(self, a, i, app, addr):
        self.a, self.i, self.app, self.addr = a, i, app, addr
        self.lst, self.alias, self.default, self.inbox = [], {}, None, None

    def __repr__(self):
        return "%s/%d" % (self.a.name, self.i)


class L:
    def __init__(self, c, expr, ud, id_):
        self.c, self.expr, self.ud, self.id = c, expr, ud, id_


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def connect(ctx, a, i, app, addr, cfg=False):
    c = C(a, i, app, addr)
    if cfg:
        r = a.call("r_newcfg %d %s" % (i, pct(json.dumps({"appname": app, "uri": addr, "start_router": 0}))))
    else:
        r = a.call("r_new %d %s %s" % (i, app, addr))
    ctx.check(r.rc == 0, "connect", lambda: "%s: connecting to %s returned %d" % (a.name, addr, r.rc))
    r = a.call("r_addr %d" % i)
    c.inbox = unpct(r.payload[0])
    ctx.check(c.inbox.startswith(app + ".") and ".INBOX." in c.inbox, "return-address", lambda: "%s: return address %r of %s" % (a.name, c.inbox, app))
    return c


def receivers(cons, topic):
    out = []
    for c in cons:
        out += [(c, l.ud) for l in c.lst if match(l.expr, topic)]
        out += [(c, l.ud) for t, l in c.alias.items() if t == topic]
        if c.inbox == topic and c.default is not None:
            out.append((c, c.default))
    return out


def listens(cons, topic):
    return bool(receivers(cons, topic)) or any(c.inbox == topic for c in cons)


def settle(cons):
    """What a connection sent to the router before is done when the router has answered it."""
    for c in cons:
        c.a.call("r_reqb %d Nobody.Here 00 5000" % c.i, 0)


def jmsg(rng, tag, n):
    d = {"tag": tag, "n": rng.randrange(-2**31, 2**31), "text": "".join(rng.choice("abc \\\"/\n\t\u00e9\u20ac{}[]:,") for _ in range(n))}
    if rng.random() < 0.3:
        d["sub"] = {"x": [rng.randrange(100) for _ in range(3)], "y": {"z": rng.random() < 0.5}}
    return d


def change(ctx, rng, cons, st):
    c = rng.choice(cons)
    x = rng.random()
    if c.lst and x < 0.3:
        l = rng.choice(c.lst)
        same = [m for m in c.lst if m.expr == l.expr]
        if any(v is l for v in c.alias.values()):
            return
        r = c.a.call("r_unlis %d %s %s" % (c.i, pct(l.expr), "!" if len(same) == 1 and rng.random() < 0.6 or l.id is None else l.id))
        ctx.check(r.rc == 0, "unlisten", lambda: "%s returned %d" % (r.cmd, r.rc))
        if l.id is None and len(same) > 1:
            # without a number, whichever was found first is removed: ask all of them to go
            for _ in same[1:]:
                r = c.a.call("r_unlis %d %s !" % (c.i, pct(l.expr)))
                ctx.check(r.rc == 0, "unlisten", lambda: "%s returned %d" % (r.cmd, r.rc))
            c.lst = [m for m in c.lst if m.expr != l.expr]
            c.alias = {t: v for t, v in c.alias.items() if v in c.lst}
        else:
            c.lst.remove(l)
    elif x < 0.35:
        e = rng.choice(EXPRS_)
        if not [m for m in c.lst if m.expr == e]:
            r = c.a.call("r_unlis %d %s !" % (c.i, pct(e)))
            ctx.check(r.rc != 0, "removed-nothing", lambda: "%s returned 0" % r.cmd)
    elif x < 0.45:
        own = [l for l in c.lst if "{" not in l.expr and [m.expr for m in c.lst].count(l.expr) == 1]
        if c.alias and rng.random() < 0.5:
            t, l = rng.choice(sorted(c.alias.items(), key=lambda q: q[0]))
            r = c.a.call("r_unalias %d %s %s" % (c.i, pct(l.expr), pct(t)))
            ctx.check(r.rc == 0, "unalias", lambda: "%s returned %d" % (r.cmd, r.rc))
            del c.alias[t]
        elif own:
            l = rng.choice(own)
            st["n"] += 1
            free = rng.random() < 0.7
            used = [t for d in cons for t in d.alias]
            if not free and not used:
                return
            t = "Al.N%d" % st["n"] if free else rng.choice(used)
            r = c.a.call("r_alias %d %s %s" % (c.i, pct(l.expr), pct(t)))
            ctx.check((r.rc == 0) == free, "alias", lambda: "%s returned %d, the name was %s" % (r.cmd, r.rc, "free" if free else "taken"))
            if r.rc == 0:
                c.alias[t] = l
    elif x < 0.5:
        st["ud"] += 1
        c.default = st["ud"] if rng.random() < 0.8 else None
        c.a.ok("r_default %d %d" % (c.i, c.default if c.default is not None else -1))
    elif len(c.lst) < 14:
        st["ud"] += 1
        e = rng.choice(EXPRS_)
        if any(v.expr == e for v in c.alias.values()):
            return
        id_ = st["ud"] + 100 if rng.random() < 0.5 else None
        if len([m for m in c.lst if m.expr == e]) >= 3 or (id_ is None) != all(m.id is None for m in c.lst if m.expr == e) and [m for m in c.lst if m.expr == e]:
            return
        r = c.a.call("r_lis %d %s %d %s" % (c.i, pct(e), st["ud"], "!" if id_ is None else id_))
        ctx.check(r.rc == 0, "listen", lambda: "%s returned %d" % (r.cmd, r.rc))
        c.lst.append(L(c, e, st["ud"], id_))


class M:
    pass


def wave(ctx, rng, cons, st, n, leaf=None, extra=()):
    """n messages and requests at once; who got what, and what the requests brought."""
    left = {c: CAP for c in cons}
    lanes = [(c, c.i * 5 + w) for c in cons for w in range(4)]
    msgs = []
    names = [t for t in TOPICS if len(t) < 200] + [t for c in cons for t in c.alias] * 3 + [c.inbox for c in cons]
    live = [t for t in names if receivers(cons, t)]
    for _ in range(n):
        m = M()
        m.topic = rng.choice(names if rng.random() < 0.4 or not live else live)
        m.to = receivers(cons, m.topic)
        m.heard = listens(cons, m.topic)
        m.c, m.w = rng.choice(lanes)
        need = {}
        for c, ud in m.to:
            need[c] = need.get(c, 0) + 1
        if any(left[c] < k for c, k in need.items()):
            continue
        m.kind = rng.choice(["send", "sendb", "req", "reqb"])
        m.do, m.reply = "", None
        if m.kind[:3] == "req":
            x = rng.random()
            if x < 0.5:
                pass
            elif x < 0.62:
                m.do = "!none"
            elif x < 0.72:
                m.do = "!ms=%d" % rng.choice([1, 20])
            elif x < 0.84:
                m.do = "!late=%d" % rng.choice([0, 5, 30, 900])
            elif x < 0.92:
                m.do = "!empty" if m.kind == "reqb" else ""
            elif leaf and m.c is not leaf and leaf not in need and left[leaf] >= len(m.to):
                m.do = "!nest=" + leaf.lst[0].expr
                left[leaf] -= len(m.to)
        elif rng.random() < 0.4:
            m.reply = rng.choice(["Some.Body", rng.choice(cons).inbox, "x"])
        for c, k in need.items():
            left[c] -= k
        st["n"] += 1
        m.no = st["n"]
        m.tag = "%s-%d-%d" % (m.c.app, m.w, m.no)
        if m.kind in ("send", "req"):
            m.obj = jmsg(rng, m.tag, rng.choice([0, 3, 30, 500, 30000]))
            if m.do:
                m.obj["do"] = m.do
            m.text = json.dumps(m.obj, ensure_ascii=rng.random() < 0.5)
        else:
            m.data = (m.do + "|" if m.do else "").encode() + payload(rng, m.tag, 100000)
        msgs.append(m)
    marks = {c.a: c.a.mark() for c in cons}
    for m in msgs:
        if m.kind in ("send", "sendb"):
            m.f = m.c.a.send("r_%s %d %s %s %s" % (m.kind, m.c.i, pct(m.topic), pct(m.text.encode()) if m.kind == "send" else m.data.hex(), pct(m.reply) if m.reply else "!"), m.w)
        else:
            m.limit = 300 if m.do == "!none" or m.do == "!late=900" else 20000
            if not m.to and m.heard:
                m.limit = 100
            m.f = m.c.a.send("r_%s %d %s %s %d" % (m.kind, m.c.i, pct(m.topic), pct(m.text.encode()) if m.kind == "req" else m.data.hex(), m.limit), m.w)
    nested = 0
    for m in msgs:
        r = m.f.wait()
        ctx.count("requests" if m.kind[:3] == "req" else "messages")
        tcp = m.c.addr[:3] == "tcp"
        size = len(m.text if m.kind in ("send", "req") else m.data)
        ctx.distinct((m.kind, tcp, min(3, len(m.to)), min(3, size // 20000), m.do[:3], r.rc))
        what = lambda: "%r: %s of %d bytes to %s (%d listeners, %s)" % (m.c, m.kind, size, m.topic, len(m.to), m.do)
        if m.kind in ("send", "sendb"):
            ctx.check(r.rc == 0, "send-failed", lambda: "%s returned %d" % (what(), r.rc))
            continue
        if not m.heard:
            ctx.check(r.rc == st["nobody"], "request-nobody", lambda: "%s returned %d, though nobody listens" % (what(), r.rc))
            continue
        if not m.to or m.do == "!none" or m.do == "!late=900":
            ctx.check(r.rc == st["timeout"], "request-timeout", lambda: "%s returned %d, though it isn't answered in time" % (what(), r.rc))
            took = (r.t1 - r.t0) / 1e6
            ctx.check(m.limit - 5 <= took <= m.limit + 8000, "request-limit", lambda: "%s with limit %d ms ended after %.0f ms" % (what(), m.limit, took))
            continue
        if m.do[:5] == "!nest":
            nested += len(m.to)
        if not ctx.check(r.rc == 0, "request-failed", lambda: "%s returned %d after %.0f ms" % (what(), r.rc, (r.t1 - r.t0) / 1e6)):
            continue
        uds = {ud for c, ud in m.to}
        inner = "%d|%s" % (leaf.lst[0].ud, "renni") if m.do[:5] == "!nest" else None
        if m.kind == "req":
            try:
                o = json.loads(unpct(r.payload[0]).encode("latin-1"))
            except ValueError:      # not JSON, or not UTF-8
                o = {}
            by = o.pop("by", None)
            want = dict(m.obj)
            if inner is not None:
                want["inner"] = inner
            ctx.check(by in uds and o == want, "answer", lambda: "%s: the answer, from %s, is %s" % (what(), by, str(o)[:200]))
        else:
            b = bytes.fromhex(r.payload[0].replace("~", ""))
            if m.do == "!empty":
                ok = b == b""
            else:
                ok = b in [b"%d|" % u + m.data[::-1] + (inner or "").encode() for u in uds]
            ctx.check(ok, "answer", lambda: "%s: the answer is %d bytes, %r" % (what(), len(b), b[:60]))
    if ctx.failed:
        return False
    want = {a: {} for a in marks}
    for m in msgs:
        for c, ud in m.to:
            want[c.a][(c.i, ud, m.no)] = m
    for a in marks:
        k = want[a]
        inner = lambda e: e[5] == b"inner".hex()
        pred = lambda e: e.kind == "rt" and not inner(e) and int(e[1]) not in extra
        a.wait_ev(pred, len(k), 20, since=marks[a])
        a.sync()
        last, seen = {}, set()
        for e in [e for e in a.evs("rt", marks[a]) if pred(e)]:
            raw = bytes.fromhex(e[5].replace("~", ""))
            ci, ud, topic = int(e[0]), int(e[1]), unpct(e[2])
            m, good = None, False
            for cand in msgs:
                if (ci, ud, cand.no) in k and (ci, ud, cand.no) not in seen and cand.topic == topic and e[3] == "%d%d" % (cand.kind[:3] == "req", cand.kind in ("send", "req")):
                    if cand.kind in ("sendb", "reqb"):
                        good = raw == cand.data
                    elif cand.tag.encode() in raw:
                        try:
                            good = json.loads(raw.rstrip(b"\0").decode()) == cand.obj
                        except ValueError:
                            good = False
                    if good:
                        m = cand
                        break
            if not ctx.check(m is not None, "unexplained-delivery", lambda: "%s: listener %d of connection %d got %d bytes, %r, to %s: not sent to it, or twice, or with other content" % (a.name, ud, ci, len(raw), raw[:60], topic)):
                return False
            seen.add((ci, ud, m.no))
            reply = m.c.inbox if m.kind[:3] == "req" else m.reply or ""
            ctx.check(unpct(e[4]) == reply, "reply-name", lambda: "%s: %s to %s came with the reply name %r, sent with %r" % (a.name, m.kind, topic, unpct(e[4]), reply))
            o = last.get((ci, ud, m.c.i, m.c.a, m.w), 0)
            ctx.check(m.no > o, "out-of-order", lambda: "%s: listener %d got message %d of a thread of %r after %d" % (a.name, ud, m.no, m.c, o))
            last[(ci, ud, m.c.i, m.c.a, m.w)] = m.no
            ctx.count("deliveries")
        miss = [k[x] for x in k if x not in seen]
        if not ctx.check(not miss, "lost-message", lambda: "%s: %d of %d deliveries missing, e.g. %s to %s" % (a.name, len(miss), len(k), miss[0].kind, miss[0].topic)):
            return False
    time.sleep(0.95 if any(m.do == "!late=900" for m in msgs) and rng.random() < 0.3 else 0)
    return not ctx.failed


def codes(ctx, c, st):
    """The codes for nobody and time-out, from the library's own names for them."""
    st["nobody"] = c.a.call("r_reqb %d No.Such.Name 00 5000" % c.i).rc
    ctx.check(st["nobody"] not in (0, -999), "request-nobody", lambda: "a request to nobody returned %d" % st["nobody"])
    t = time.monotonic()
    st["timeout"] = c.a.call("r_reqb %d %s 00 150" % (c.i, c.inbox)).rc
    ctx.check(st["timeout"] not in (0, st["nobody"]) and time.monotonic() - t > 0.14, "request-timeout", lambda: "a request nobody answers returned %d after %.3f s" % (st["timeout"], time.monotonic() - t))


def build(ctx, rng, k):
    """A router that listens on a Unix and a TCP socket, whichever way it was told so; three processes with two connections each."""
    p = port()
    tcp = "tcp://127.0.0.1:%d" % p
    how = k % 3
    if how == 0:
        ctx.start_broker(args=["-s", tcp])
    elif how == 1:
        f = "/tmp/router.conf"
        with open(f, "w") as o:
            json.dump({"listeners": [{"uri": "unix:///tmp/rtrouted"}, {"uri": tcp}]}, o)
        ctx.start_broker(args=["-c", f])
    else:
        ctx.start_broker()
    ags = [ctx.agent("rt%d" % i) for i in range(3)]
    u = "unix:///tmp/rtrouted"
    c0 = connect(ctx, ags[0], 0, "app0a", u)
    if how == 2:
        ags[0].ok("r_send 0 _RTROUTED.INBOX.DIAG %s !" % pct(json.dumps({"_RTROUTED.INBOX.DIAG.KEY": "addNewListener", "_RTROUTED.INBOX.DIAG.VALUE": tcp})))
        settle([c0])
    cons = [c0, connect(ctx, ags[0], 1, "app0b", tcp, True), connect(ctx, ags[1], 0, "app1a", tcp), connect(ctx, ags[1], 1, "app1b", u, True),
            connect(ctx, ags[2], 0, "app2a", u)]
    leaf = connect(ctx, ags[2], 1, "leaf", tcp)
    st = {"n": 0, "ud": 10}
    codes(ctx, c0, st)
    ags[2].ok("r_lis 1 Leaf.Only 5 !")
    leaf.lst.append(L(leaf, "Leaf.Only", 5, None))
    settle([leaf])
    return ags, cons, leaf, st, (u, tcp)


def mix(ctx, k, rounds):
    rng = ctx.rng
    ags, cons, leaf, st, addr = build(ctx, rng, k)
    for rnd in range(rounds):
        for _ in range(rng.choice([1, 3, 6])):
            change(ctx, rng, cons, st)
        settle(cons)
        if ctx.failed or not wave(ctx, rng, cons + [leaf], st, rng.choice([1, 8, 30, 50]), leaf):
            return
        if rnd % 7 == 6:           # a connection ends, the others stay
            c = rng.choice(cons)
            c.a.ok("r_free %d" % c.i)
            cons.remove(c)
            settle(cons)
            if not wave(ctx, rng, cons + [leaf], st, 12, leaf):
                return
            cons.append(connect(ctx, c.a, c.i, c.app, rng.choice(addr), rng.random() < 0.5))
        if rnd % 11 == 10:         # a process dies
            i = rng.randrange(2)
            ags[i].kill()
            old = [c for c in cons if c.a is ags[i]]
            cons = [c for c in cons if c.a is not ags[i]]
            ags[i] = ctx.agent("rt%d" % i)
            cons += [connect(ctx, ags[i], c.i, c.app, c.addr) for c in old]
    for c in cons + [leaf]:
        c.a.ok("r_free %d" % c.i)
    ctx.check(ctx.broker_alive(), "router-died", "the router ended")


def churn(ctx, k, rounds):
    """Listeners come and go while messages to the same names are under way; connections are made and ended beside."""
    rng = ctx.rng
    ags, cons, leaf, st, addr = build(ctx, rng, k)
    for c in cons:
        for _ in range(2):
            st["ud"] += 1
            e = rng.choice(EXPRS_[:9])
            if [l for l in c.lst if l.expr == e]:
                continue
            c.a.ok("r_lis %d %s %d %d" % (c.i, pct(e), st["ud"], st["ud"] + 100))
            c.lst.append(L(c, e, st["ud"], st["ud"] + 100))
    settle(cons)
    extra = set()
    for rnd in range(rounds):
        ch = []
        for c in cons:
            if rng.random() < 0.5:
                ud = 100000 + rnd * 10 + c.i
                extra.add(ud)
                e = rng.choice([l.expr for d in cons for l in d.lst])
                for j in range(rng.choice([1, 3])):
                    ch.append(c.a.send("r_lis %d %s %d %d" % (c.i, pct(e), ud, ud), 30 + c.i))
                    ch.append(c.a.send("r_unlis %d %s %d" % (c.i, pct(e), ud), 30 + c.i))
        for a in ags[:2]:
            if rng.random() < 0.4:
                ch.append(a.send("r_new 9 brief %s" % rng.choice(addr), 40))
                ch.append(a.send("r_free 9", 40))
        # a churned listener may answer too, or be gone before it could: only messages, no requests, are compared meanwhile
        if not wave_messages(ctx, rng, cons + [leaf], st, rng.choice([4, 10]), extra):
            return
        for f in ch:
            r = f.wait()
            ctx.check(r.rc == 0, "listen-failed", lambda: "%s returned %d" % (r.cmd, r.rc))
        settle(cons)
        time.sleep(0.01)
        marks = {a: a.mark() for a in ags}
        if not wave(ctx, rng, cons + [leaf], st, rng.choice([4, 10]), leaf, extra):
            return
        for a in ags:
            late = [e for e in a.evs("rt", marks[a]) if int(e[1]) in extra]
            ctx.check(not late, "removed-listener-called", lambda: "%s: listener %s, removed before, got a message to %s" % (a.name, late[0][1], late[0][2]))
        ctx.count("churned", len(ch))
    for c in cons + [leaf]:
        c.a.ok("r_free %d" % c.i)


def wave_messages(ctx, rng, cons, st, n, extra):
    class R:
        def __getattr__(self, x):
            return getattr(rng, x)

        def choice(self, s):
            return rng.choice([x for x in s if x not in ("req", "reqb")]) if "send" in s and len(s) == 4 else rng.choice(s)
    return wave(ctx, R(), cons, st, n, None, extra)


def restart(ctx, k, rounds):
    """The router is killed and started again: the connections come back by themselves with all their listeners."""
    rng = ctx.rng
    ags, cons, leaf, st, addr = build(ctx, rng, 0)
    p = addr[1]
    for rnd in range(rounds):
        for _ in range(6):
            change(ctx, rng, cons, st)
        for c in cons:                      # aliases belong to the router's present life
            for t, l in sorted(c.alias.items(), key=lambda q: q[0]):
                c.a.ok("r_unalias %d %s %s" % (c.i, pct(l.expr), pct(t)))
            c.alias = {}
        settle(cons)
        if not wave(ctx, rng, cons + [leaf], st, 20, leaf):
            return
        ctx.broker.kill()
        ctx.broker.wait()
        if rng.random() < 0.5:
            time.sleep(rng.choice([0.01, 0.3, 1.2]))
        ctx.start_broker(args=["-s", p])
        end = time.monotonic() + 40
        for c in cons + [leaf]:
            while time.monotonic() < end:
                m = c.a.mark()
                r = c.a.call("r_reqb %d %s 00 200" % (c.i, c.inbox), 0)
                if r.rc == st["timeout"] or r.rc == 0:
                    break
                time.sleep(0.1)
            ctx.check(time.monotonic() < end, "reconnect", lambda: "%r isn't back 40 s after the router" % c)
        if ctx.failed:
            return
        settle(cons + [leaf])
        time.sleep(0.3)
        settle(cons + [leaf])
        ctx.count("restarts")
        if not wave(ctx, rng, cons + [leaf], st, 40, leaf):
            return
    for c in cons + [leaf]:
        c.a.ok("r_free %d" % c.i)


BAD = ["tcp://", "tcp://:10", "tcp://10", "tcp://999.1.1.1:10", "tcp://1.2.3:10", "tcp://1.2.3.4.5:10", "tcp://nosuchif0:10", "tcp://" + "1" * 90 + ":7", "tcp://" + "1" * 127 + ":7", "tcp://" + "1" * 128 + ":7",
       "tcp://" + "9" * 500 + ":7", "tcp://" + "x" * 3000 + ":7", "udp://127.0.0.1:10", "", "x", "unix:/tmp/rtrouted", "//", "tcp://1..2:x"]


def addresses(ctx):
    """What is no address is refused, by connections and by the router, without harm."""
    for how in range(8):
        b = ctx.rng.choice(BAD)
        f = "/tmp/router.conf"
        with open(f, "w") as o:
            json.dump({"listeners": [{"uri": "unix:///tmp/rtrouted"}, {"uri": b if how > 1 else how * 7}]}, o)
        many = [x for i in range(ctx.rng.choice([5, 6, 40])) for x in ("-s", "unix:///tmp/other%d" % i)]
        try:
            b_ = ctx.start_broker(args=[["-c", f], ["-s", b], many][how % 3])
            b_.wait(5)
            raise HarnessError("ended with %s" % b_.returncode)
        except HarnessError as e:
            ctx.check("rc=1" in str(e), "bad-address", lambda: "a router told to listen on %r: %s" % (b[:60], e))
        except subprocess.TimeoutExpired:
            b_.kill()
            ctx.check(False, "bad-address", "a router told to listen on %r stays" % b[:60])
        ctx.count("routers_refused")
    ctx.start_broker()
    a = ctx.agent("adr")
    for b in BAD:
        t0 = time.monotonic()
        r = a.call("r_new 3 bad %s" % pct(b))
        ctx.count("addresses")
        ctx.distinct(("bad", b[:8], len(b)))
        ctx.check(r.rc != 0, "bad-address", lambda: "connecting to %r succeeded" % b[:60])
        ctx.check(time.monotonic() - t0 < 20, "bad-address-slow", lambda: "connecting to %r took %.1f s" % (b[:60], time.monotonic() - t0))
    c = connect(ctx, a, 0, "good", "unix:///tmp/rtrouted")
    for b in BAD:
        a.ok("r_send 0 _RTROUTED.INBOX.DIAG %s !" % pct(json.dumps({"_RTROUTED.INBOX.DIAG.KEY": "addNewListener", "_RTROUTED.INBOX.DIAG.VALUE": b})))
    settle([c])
    ctx.check(ctx.broker_alive(), "router-died", "the router ended when told to listen on what is no address")
    a.ok("r_free 0")
