"""P20: several threads of several components create, query and close sessions at the same time, with right, wrong, stale and malformed session numbers, through the API and through the session manager's methods, while some die and the session manager is restarted. The log of calls (start and end times) must be explainable by one order of a session automaton (linearizability search per burst), the session signal must be published once per request and in an order that automaton allows."""
import time
from lib.vlib import pct, unpct
VARIANTS, AGENT = ["asan"], True
TECHNIQUE = "runtime monitoring: linearizability check of the call log against a session automaton, ASan+UBSan"
RULE = "a case is one call; distinct = (operation, way, outcome, calls at the same time, state before) combinations"
EXISTS, INVALID = 12, 2
SIG = "currentSessionIDSignal"


def plan(tier):
    n = 6 if tier == "quick" else 24
    return [{"fn": "mix", "args": {"k": i, "rounds": 300 if tier == "quick" else 5000}} for i in range(n)] + \
           [{"fn": "restart", "args": {"k": i, "rounds": 2 if tier == "quick" else 25}} for i in range(2)]


class Op:
    """kind c(reate) q(uery) x (close); arg = number given to close; out = what the caller saw."""
    def __init__(self, kind, arg, way):
        self.kind, self.arg, self.way = kind, arg, way

    def __repr__(self):
        return "%s%s%s -> %s [%d..%d]" % (self.kind, "" if self.arg is None else "(%s)" % self.arg, "/m" if self.way else "", self.out, self.t0 // 1000 % 10**8, self.t1 // 1000 % 10**8)


def step(s, o):
    """State after operation o in state s (0 or the active number), None when its outcome is impossible."""
    if o.kind == "q":
        return s if o.out == s else None
    if o.kind == "c":
        if o.out == "refused":
            return s if s else None
        return o.out if s == 0 and o.out else None
    if o.arg == 0 or not isinstance(o.arg, int):            # closes nothing
        return s
    if o.out == "closed":
        return 0 if s and s == o.arg else None
    return s if s != o.arg else None


def linear(ops, starts):
    """All states the burst can end in, over every order that respects real time."""
    n, seen, ends = len(ops), set(), set()
    stack = [((1 << n) - 1, s) for s in starts]
    while stack:
        left, s = stack.pop()
        if (left, s) in seen:
            continue
        seen.add((left, s))
        if not left:
            ends.add(s)
            continue
        idx = [i for i in range(n) if left >> i & 1]
        first = min(ops[i].t1 for i in idx)
        for i in idx:
            if ops[i].t0 <= first:
                t = step(s, ops[i])
                if t is not None:
                    stack.append((left & ~(1 << i), t))
    return ends


def intval(tok, name):
    k = name + "=i32:"
    i = tok.find(k)
    if i < 0:
        return None
    j = i + len(k)
    e = j
    while e < len(tok) and tok[e] in "-0123456789":
        e += 1
    return int(tok[j:e])


def issue(ctx, rng, a, w, last):
    kind = rng.choice("cccqqxxx")
    way = rng.random() < 0.3
    arg = None
    if kind == "x":
        arg = rng.choice([last] * 5 + [last + 1, 2, 7, 2**31 - 1, 0] + ([-1, -5, "none", "~()", "~(session=str:x)", "~(session=bool:1)", "~(session=i32:0)", "~(session=bytes:)", "~(session=obj:~(session=i32:1))"] if way else [4294967295]))
        if arg == 0 and way:
            arg = "~(session=i32:0)"
    o = Op(kind, arg, way)
    if not way:
        f = a.send("sess 0 " + {"c": "create", "q": "cur", "x": "close %s" % arg}[kind], w)
    else:
        f = a.send("inv 0 " + {"c": "req_new_s none", "q": "get_curr_s none", "x": "end_of_s %s" % ("~(session=i32:%d)" % arg if isinstance(arg, int) else arg)}[kind], w)
    return o, f


def outcome(ctx, o, r):
    o.t0, o.t1 = r.t0, r.t1
    txt = lambda: "%s returned %d %s" % (r.cmd, r.rc, r.payload)
    if not o.way:
        sid = int(r.payload[0])
        if o.kind == "q":
            ctx.check(r.rc == 0, "query-failed", txt)
            o.out = sid
        elif o.kind == "c":
            ctx.check((r.rc == 0 and sid > 0) or (r.rc == EXISTS and sid == 0), "create-result", txt)
            o.out = sid if r.rc == 0 else "refused"
        elif o.arg == 0:
            ctx.check(r.rc == 0, "close-result", txt)
            o.out = "nothing"
        else:
            ctx.check(r.rc in (0, EXISTS), "close-result", txt)
            o.out = "closed" if r.rc == 0 else "refused"
    else:
        if not ctx.check(r.rc == 0 and r.payload, "method-failed", txt):
            o.out = "refused"
            return
        res = intval(r.payload[0], "result" if o.kind == "x" else "return_value")
        sid = intval(r.payload[0], "sessionid")
        if o.kind == "q":
            ctx.check(res == 0 and sid is not None, "query-failed", txt)
            o.out = sid
        elif o.kind == "c":
            ctx.check((res == 0 and sid) or (res and sid is None), "create-result", txt)
            o.out = sid if res == 0 else "refused"
        else:
            ctx.check(res is not None and (isinstance(o.arg, int) or res != 0), "close-result", txt)
            o.out = "closed" if res == 0 else "refused"


def mix(ctx, k, rounds):
    rng = ctx.rng
    ctx.start_broker()
    ctx.start_session_mgr()
    cs = [ctx.comp("sc%d" % i) for i in range(3)]
    for _ in range(200):
        if cs[0].call("sess 0 cur").rc == 0:
            break
        time.sleep(0.05)
    watch = cs[0]
    watch.ok("sub 0 %s 1 2000" % SIG)
    lanes = [(c, w) for c in cs for w in range(3)]
    states, last, nreq, seq = {0}, 1, 0, []
    for rnd in range(rounds):
        if rnd % 20 == 19:            # a holder that dies does not end or free the session
            i = rng.choice([1, 2])
            cs[i].kill()
            cs[i] = ctx.comp("sc%d" % i)
            lanes = [(c, w) for c in cs for w in range(3)]
        conc = rng.choice([1, 2, 4, 9])
        ops = []
        for rep in range(rng.choice([1, 2])):
            for a, w in rng.sample(lanes, conc):
                ops.append(issue(ctx, rng, a, w, last))
        done = []
        for o, f in ops:
            outcome(ctx, o, f.wait())
            done.append(o)
            if o.kind == "c" or (o.kind == "x" and o.arg != 0):
                nreq += 1
            if o.kind == "c" and isinstance(o.out, int):
                last = o.out
            ctx.distinct((o.kind, o.way, str(o.out) if isinstance(o.out, str) else o.out > 0, conc, str(o.arg)[:12], sorted(states)))
        ctx.count("requests", len(done))
        if ctx.failed:
            return
        ends = linear(done, states)
        if not ctx.check(ends, "not-linearizable", lambda: "from %s no order of %s" % (sorted(states), sorted(done, key=lambda o: o.t0))):
            return
        states = ends
        q = rng.choice(cs).call("sess 0 cur")
        now = int(q.payload[0])
        if not ctx.check(q.rc == 0 and now in states, "not-linearizable", lambda: "current session is %d, after %s it can only be %s" % (now, sorted(done, key=lambda o: o.t0), sorted(states))):
            return
        states = {now}
        ctx.count("bursts")
        # the signals: one for each request, each telling the session active after it
        ev = watch.wait_ev(lambda e: e.kind == "ev" and unpct(e[2]) == SIG, nreq, 20)
        if not ctx.check(len(ev) == nreq, "signal-count", lambda: "%d signals for %d requests" % (len(ev), nreq)):
            return
        ids = [intval(e[4], "sessionid") for e in ev]
        if ids:
            ctx.check(ids[-1] == now, "signal-value", lambda: "the last signal says %s, current is %d" % (ids[-1], now))
        new = ids[len(seq):]
        made = len([o for o in done if o.kind == "c" and isinstance(o.out, int)])
        ended = len([o for o in done if o.out == "closed"])
        prev = seq[-1] if seq else 0
        up = dn = 0
        for x in new:
            up += not prev and bool(x)
            dn += bool(prev) and not x
            prev = x
        # a session that ended before its creation's signal still shows in the order of signals, as they come from one handler
        ctx.check((up, dn) == (made, ended), "signal-value", lambda: "signals say %s after %s: %d created, %d ended; calls: %d, %d" % (new, seq[-1:], up, dn, made, ended))
        seq = ids
    for a in cs:
        a.ok("close 0")


def restart(ctx, k, rounds):
    """Without a session manager calls fail, with a fresh one there is no session."""
    rng = ctx.rng
    ctx.start_broker()
    a, b = ctx.comp("sa"), ctx.comp("sb")
    for x in (a, b):
        x.ok("timeouts 0 2000 2000 2000 2000 2000")
    for rnd in range(rounds):
        for c in ("create", "cur", "close 1"):
            r = rng.choice([a, b]).call("sess 0 " + c)
            ctx.check(r.rc != 0 and (r.payload or ["0"])[0] == "0", "answer-from-nobody", lambda: "%s returned %d %s without a session manager" % (r.cmd, r.rc, r.payload))
        r = a.call("sess 0 close 0")
        ctx.check(r.rc == 0, "close-result", lambda: "closing no session returned %d" % r.rc)
        m = ctx.start_session_mgr()
        for _ in range(300):
            r = a.call("sess 0 cur")
            if r.rc == 0:
                break
            time.sleep(0.05)
        ctx.check(r.rc == 0 and r.payload[0] == "0", "stale-session", lambda: "a fresh session manager answers %d %s" % (r.rc, r.payload))
        for rep in range(rng.choice([1, 4, 10])):
            r = a.call("sess 0 create")
            ctx.check(r.rc == 0 and r.payload[0] == "1" or int(r.payload[0]) > 0, "create-result", lambda: "create returned %d %s" % (r.rc, r.payload))
            n = r.payload[0]
            r = b.call("sess 0 create")
            ctx.check(r.rc == EXISTS, "second-session", lambda: "create returned %d %s" % (r.rc, r.payload))
            r = b.call("sess 0 cur")
            ctx.check(r.rc == 0 and r.payload[0] == n, "wrong-current", lambda: "cur returned %d %s" % (r.rc, r.payload))
            r = b.call("sess 0 close %d" % (int(n) + 1))
            ctx.check(r.rc == EXISTS, "closed-by-other-number", lambda: "close returned %d" % r.rc)
            r = rng.choice([a, b]).call("sess 0 cur")
            ctx.check(r.rc == 0 and r.payload[0] == n, "wrong-current", lambda: "cur returned %d %s" % (r.rc, r.payload))
            if rep < 3:
                r = b.call("sess 0 close %s" % n)
                ctx.check(r.rc == 0, "close-result", lambda: "close returned %d" % r.rc)
            else:
                break
            ctx.distinct(("restart", rnd, rep))
            ctx.count("cycles")
        m.kill()
        m.wait()
        ctx.procs.remove(m)
        time.sleep(0.2)
    for x in (a, b):
        x.ok("close 0")
