"""P26: everything runs under the thread sanitizer: processes with several handles and many threads get, set, invoke, publish, subscribe and unsubscribe (normally, asynchronously, as raw data, with filters, intervals and durations), send and receive messages and use rows, while the library's own threads deliver requests, answers and events to them; every report of a race or of locks taken in both orders counts, and every call must return."""
import glob
import os
import re
import threading
import time
from lib.vlib import pct
VARIANTS, AGENT = ["tsan"], True
PARALLEL = 6
RULE = "a case is one call made while others were under way; distinct = (calls under way at the same time in one process) pairs, and every shape of workload"


def plan(tier):
    q = tier == "quick"
    secs = 5 if q else 60
    return [{"fn": "mixed", "args": {"shape": s, "secs": secs, "k": k}} for s in ("calls", "events", "raw", "vc", "own", "all", "rows", "life", "direct") for k in range(1 if q else 4)] + [{"fn": "core", "args": {"secs": secs, "k": k}} for k in range(1 if q else 4)]


def collect(ctx):
    """Thread sanitizer logs hold many reports; each kind is one violation."""
    seen = {}
    for f in sorted(glob.glob(os.path.join(ctx.dir, "san.*"))):
        t = open(f, errors="replace").read()
        t = re.sub(r"(?m)^ThreadSanitizer: reported .*$", "", t)
        for rep in t.split("==================\n"):
            if "ThreadSanitizer" not in rep:
                continue
            frames = re.findall(r"^    #0 (\S+)", rep, re.M)
            lib = re.findall(r"^    #\d+ (\S+) \S*?/src/(\S+?):(\d+)", rep, re.M)
            kind = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", rep)
            key = (kind.group(1).strip() if kind else "report", tuple("%s:%s" % (a, b) for a, b, c in lib[:2]) or tuple(frames[:2]))
            seen.setdefault(key, [0, rep, os.path.basename(f)])[0] += 1
        os.unlink(f)
    if os.environ.get("VERIF_RACES"):
        with open(os.environ["VERIF_RACES"], "a") as o:
            for (kind, key), (n, rep, f) in seen.items():
                fr = re.findall(r"^  (?:Previous |Read|Write|Atomic|Mutex)[^\n]*|^    #\d+ (?:\S+) \S*?/(?:src|drivers)/\S+?:\d+", rep, re.M)
                o.write("%s\t%d\t%s\n" % (kind, n, " ".join(re.sub(r" \S*/(\S+:\d+)", r"@\1", x.strip()) if x.startswith("    #") else " || " + x.strip()[:14] for x in fr)))
    for (kind, key), (n, rep, f) in seen.items():
        ctx.violation("race:" + kind + ":" + "|".join(key)[:120], "%s (%d times): %s" % (f, n, rep[:6000]))


def ops(shape, me, other, h, rng, uid):
    """The next call of a worker. Every process provides Pk.*, its peer Po.*"""
    o, m = other, me
    calls = ["get %d P%s.V%d" % (h, rng.choice([o, m]), rng.randint(0, 3)), "set %d P%s.V%d i32:%d" % (h, o, rng.randint(0, 3), uid), "inv %d P%s.M() ~(mode=i32:%d,ms=i32:%d)" % (h, o, rng.choice([0, 1, 2]), rng.choice([0, 2])),
             "getext %d 2 P%s.V0 P%s.V1" % (h, o, o), "setmulti %d 0 0 2 P%s.V1 i32:%d P%s.V2 i32:3" % (h, o, uid, o), "getext %d 1 P%s." % (h, o), "inva %d P%s.M() ~(mode=i32:0) 5" % (h, o)]
    ev = "P%s.E%d!" % (o, rng.randint(0, 2))
    events = ["pub %d P%s.E%d! 3 ~(n=i32:%d)" % (h, m, rng.randint(0, 2), uid)] * 4 + ["sub %d %s %d 5" % (h, ev, uid), "unsub %d %s" % (h, ev), "subex %d 0 5 1 %s ! 0 0 0 %d" % (h, ev, uid), "unsubex %d 0 0 1 %s ! 0 0 0 0" % (h, ev), "suba %d %s %d 5" % (h, ev, uid), "issub %d 9 0 1 %s ! 0 0 0 0" % (h, ev)]
    raw = ["pubraw %d P%s.E%d! 0102" % (h, m, rng.randint(0, 2))] * 4 + ["subraw %d %s %d 5" % (h, ev, uid), "unsubraw %d %s" % (h, ev)]
    vc = ["sub %d P%s.V%d %d 5" % (h, o, rng.randint(0, 3), uid), "unsub %d P%s.V%d" % (h, o, rng.randint(0, 3)), "subex %d 0 5 1 P%s.V%d R0(i32:5) 0 0 0 %d" % (h, o, rng.randint(0, 3), uid), "unsubex %d 0 0 1 P%s.V%d R0(i32:5) 0 0 0 0" % (h, o, rng.randint(0, 3)),
          "subex %d 0 5 1 P%s.V0 ! 1 0 0 %d" % (h, o, uid), "unsubex %d 0 0 1 P%s.V0 ! 1 0 0 0" % (h, o), "subex %d 0 5 1 P%s.V1 ! 1 2 0 %d" % (h, o, uid), "set %d P%s.V%d i32:%d" % (h, o, rng.randint(0, 3), uid)]
    msgs = ["msend %d Topic.%s.%d 616263 0" % (h, o, rng.randint(0, 2)), "mhas %d Topic.%s.0" % (h, o)]
    rows = ["addrow %d P%s.T. !" % (h, o), "remrow %d P%s.T.%d." % (h, o, rng.randint(1, 20)), "rownames %d P%s.T." % (h, o), "get %d P%s.T.1.X" % (h, o), "info %d P%s. -1" % (h, o), "sub %d P%s.T. %d 5" % (h, o, uid), "unsub %d P%s.T." % (h, o)]
    disc = ["disccomp %d 1 P%s.V0" % (h, o), "status", "trace %d set tp%d ts" % (h, uid), "trace %d get 100 100" % h, "reglist %d" % h]
    # rows come and go by requests while their events are published by other threads
    mine = ["pub 0 P%s.T. 3 ~(n=i32:1)" % m, "pub 0 P%s.T.%d.X 3 ~(n=i32:1)" % (m, rng.randint(1, 9)), "pub 0 P%s.T.%d.F! 3 ~(n=i32:1)" % (m, rng.randint(1, 9)), "getext %d 1 P%s.T." % (h, o), "get %d P%s.T.%d.X" % (h, o, rng.randint(1, 9)),
            "sub %d P%s.T.%d.F! %d 5" % (h, o, rng.randint(1, 9), uid), "sub %d P%s.T.*.F! %d 5" % (h, o, uid), "unsub %d P%s.T.*.F!" % (h, o), "sub %d P%s.T.%d.X %d 5" % (h, o, rng.randint(1, 9), uid), "addrow %d P%s.T. !" % (h, o), "remrow %d P%s.T.%d." % (h, o, rng.randint(1, 9))]
    return rng.choice({"rows": mine + rows, "direct": calls + raw[:5], "life": calls[:3] + events[:6] + raw[:2] + msgs + [calls[6]], "calls": calls + disc, "events": events + calls[:2], "raw": raw + events[:4] + calls[:1], "vc": vc + calls[:3], "own": rows + events + calls + msgs, "all": calls + events + raw + vc + msgs + rows + disc}[shape])


def mixed(ctx, shape, secs, k):
    rng = ctx.rng
    ctx.start_broker(variant="tsan")
    A = [ctx.agent("prog%d" % i, variant="tsan") for i in range(2)]
    handles = {}
    for i, a in enumerate(A):
        handles[a] = list(range(rng.choice([1, 2, 3])))
        for h in handles[a]:
            a.ok("open %d comp%d_%d" % (h, i, h))
        els = ["P%d.V%d p gs" % (i, j) for j in range(4)] + ["P%d.M() m m" % i] + ["P%d.E%d! e e" % (i, j) for j in range(3)] + ["P%d.T.{i}. t are" % i, "P%d.T.{i}.X p gs" % i, "P%d.T.{i}.F! e e" % i]
        a.ok("reg 0 %d %s" % (len(els), " ".join(els)))
        a.ok("handlelog 0")
        for j in range(4):
            a.ok("store P%d.V%d i32:%d" % (i, j, j))
        for j in range(3):
            a.ok("mlisten 0 Topic.%d.%d 9 %d" % (i, j, j + 1))
    stop = time.time() + secs
    errs = []

    def drive(a, i, w, seed):
        import random
        r = random.Random(seed)
        n = 0
        try:
            while time.time() < stop and not errs:
                futs = []
                uid = w * 100000 + n
                h = r.choice(handles[a])
                cmd = ops(shape, i, 1 - i, h, r, uid)
                if cmd.startswith("pub"):
                    cmd = re.sub(r"^(pub\w*) \d+", r"\1 0", cmd)
                seq = [cmd]
                if shape == "life" and w > 1:
                    # this worker's own handle comes and goes
                    mine = 10 + w
                    seq = ["open %d own%d_%d" % (mine, i, w)] + [re.sub(r"^(\w+) \d+", r"\1 %d" % mine, ops(shape, i, 1 - i, mine, r, uid)) if not cmd.startswith("pub") else cmd for x in range(r.randint(0, 6))] + ["close %d" % mine]
                elif shape == "direct" and w > 1:
                    el = r.choice(["P%d.V%d" % (1 - i, w), "P%d.M()" % (1 - i), "P%d.E%d!" % (1 - i, w % 3)])
                    el = el if w == 2 or "M" not in el else "P%d.V%d" % (1 - i, w)
                    seq = ["opendirect 0 %d %s" % (10 + w, el)] + [ops(shape, i, 1 - i, h, r, uid) for x in range(r.randint(0, 6))] + ["closedirect %d" % (10 + w)]
                for cmd in seq:
                    if cmd.startswith("pub"):
                        cmd = re.sub(r"^(pub\w*) \d+", r"\1 0", cmd)
                    res = a.send(cmd, w).wait(100)
                    n += 1
                    ctx.count("calls")
                    if cmd.startswith("open") and res.rc:
                        break
        except Exception as e:
            errs.append(e)
    ths = [threading.Thread(target=drive, args=(a, i, w, rng.random())) for i, a in enumerate(A) for w in range(5)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    for a in A:
        for h in handles[a][1:]:
            a.ok("close %d" % h)
        a.ok("close 0")
    ctx.distinct(shape)
    collect_after(ctx)


def core(ctx, secs, k):
    """The core interface from many threads."""
    import random
    ctx.start_broker(variant="tsan")
    A = [ctx.agent("core%d" % i, variant="tsan") for i in range(2)]
    for i, a in enumerate(A):
        a.ok("c_open core%d" % i)
        for o in ("S", "V"):
            a.ok("c_obj C%d.%s t" % (i, o))
            for e in ("!", "e1", "e2"):
                a.ok("c_ev C%d.%s %s %s" % (i, o, e, "cb" if e == "e1" else "-"))
        a.ok("c_meth C%d.S m M" % i)
    stop, errs = time.time() + secs, []

    def ops(r, i, w):
        o, own = "C%d.%s" % (1 - i, r.choice("SSV")), "C%d.W%d" % (i, w)
        me = "C%d.%s" % (i, r.choice("SV"))
        e = r.choice(["!", "e1", "e2"])
        return r.choice([["c_inv %s %s 5000 i:1 s:x" % (o, r.choice(["m", "v0", "v1", "zz"]))], ["c_push %s - s:x" % o], ["c_pull %s 5000" % o], ["c_inv %s m 5000 s:%%21late%%3D3" % o], ["c_inv %s m 5000 s:%%21%s" % (o, "nest%3DC0.V" if i == 0 else "rc%3D4")],
                         ["c_pub %s %s s:x" % (me, e)], ["c_pub %s %s s:x" % (me, e)], ["c_sub %s %s u 5000" % (o, e)], ["c_unsub %s %s" % (o, e)], ["c_meth C%d.V v%d M" % (i, w % 2)], ["c_unmeth C%d.V v%d" % (i, w % 2)], ["c_tab C%d.V 2 q r q%d R" % (i, w), "c_untab C%d.V 2 q x q%d x" % (i, w)],
                         ["c_obj %s t" % own, "c_meth %s m M" % own, "c_ev %s e1 cb" % own, "c_pub %s e1 i:1" % own, "c_unobj " + own], ["c_inv C%d.W%d m 50 i:1" % (1 - i, w)], ["c_ev C%d.V n%d cb" % (i, w), "c_unev C%d.V n%d" % (i, w)],
                         ["c_el C%d.S El.%d.%d" % (i, i, w), "c_unel C%d.S El.%d.%d" % (i, i, w)], ["c_comps"], ["c_elems C%d.S" % i], ["c_owner El.%d.%d" % (1 - i, w)]])

    def drive(a, i, w, seed):
        r = random.Random(seed)
        try:
            while time.time() < stop and not errs:
                for cmd in ops(r, i, w):
                    a.send(cmd, w).wait(100)
                    ctx.count("calls")
        except Exception as e:
            errs.append(e)
    ths = [threading.Thread(target=drive, args=(a, i, w, ctx.rng.random())) for i, a in enumerate(A) for w in range(6)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    for i, a in enumerate(A):
        for o in "SV":
            a.ok("c_unobj C%d.%s" % (i, o))
        a.ok("c_close")
    ctx.distinct("core")
    collect_after(ctx)


def collect_after(ctx):
    ctx.collect_sanitizer = lambda: collect(ctx)
    ctx.teardown()
