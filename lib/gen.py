"""Random generation of values / objects in the agents' text codec, and history oracles."""
import struct
from lib.vlib import pct

SCALARS = ["bool", "char", "byte", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "dt", "str", "bytes"]
RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
         "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "char": (0, 255), "byte": (0, 255)}


def rint(rng, t):
    lo, hi = RANGE[t]
    k = rng.random()
    if k < 0.3:
        return rng.choice([lo, hi, 0, min(hi, 1), max(lo, -1), hi - 1, lo + 1])
    if k < 0.6:
        return max(lo, min(hi, rng.randint(-300, 300)))
    return rng.randint(lo, hi)


def rstr(rng, maxlen=40, minlen=0):
    if maxlen > 20000:                      # really long: a random block over and over with a random end
        b = rstr(rng, 300, 200)
        n = rng.randint(maxlen // 2, maxlen)
        return (b * (n // len(b) + 1))[:n - 12] + "%012d" % rng.randint(0, 10**11)
    k = rng.random()
    if k < 0.5:
        n = rng.randint(minlen, min(max(12, minlen), maxlen))
    else:
        n = rng.randint(minlen, maxlen)
    if rng.random() < 0.6:
        return "".join(rng.choice("abcXYZ019._- {}[]*%=,()!~/") for _ in range(n))
    return "".join(chr(rng.randint(1, 255)) for _ in range(n))


def rname(rng):
    return "".join(rng.choice("abcdefgh") for _ in range(rng.randint(1, 6)))


def f32hex(x):
    return "%08x" % struct.unpack("<I", struct.pack("<f", x))[0]


def f64hex(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def size(rng, usual, share=0.04):
    """One of the usual length limits, at times one beyond 64 KiB."""
    return rng.randint(70000, 200000) if rng.random() < share else rng.choice(usual)


def value(rng, types=SCALARS, big=60, depth=2):
    """A value token; nested objects / property lists when depth allows."""
    t = rng.choice(types + (["obj", "prop"] if depth > 0 and types is SCALARS else []))
    if big > 20000 and types is SCALARS:
        t = rng.choice(["str", "bytes", "obj", "prop"] if depth > 0 else ["str", "bytes"])
        big //= 1 if t in ("str", "bytes") else 2
        if t not in ("str", "bytes"):
            k = "big=%s" % value(rng, SCALARS, big, 0)
            return "obj:big(%s,z=i32:%d)" % (k, rint(rng, "i32")) if t == "obj" else "prop:(%s,z=i32:%d)" % (k, rint(rng, "i32"))
    if t in RANGE:
        return "%s:%d" % (t, rint(rng, t))
    if t == "bool":
        return "bool:%d" % rng.randint(0, 1)
    if t == "f32":
        return "f32:" + f32hex(rng.choice([0.0, -0.0, 1.5, -2.25, 3.4e38, 1e-38, rng.uniform(-1e6, 1e6)]))
    if t == "f64":
        return "f64:" + f64hex(rng.choice([0.0, -0.0, 0.1, 1.7e308, 5e-324, rng.uniform(-1e12, 1e12)]))
    if t == "dt":
        return "dt:%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d" % (rng.randint(0, 60), rng.randint(0, 59), rng.randint(0, 23), rng.randint(1, 31), rng.randint(0, 11),
                                                         rng.randint(0, 8000), rng.randint(0, 6), rng.randint(0, 365), rng.randint(0, 1), rng.randint(0, 14), rng.randint(0, 59), rng.randint(0, 1))
    if t == "str":
        return "str:" + pct(rstr(rng, big))
    if t == "bytes":
        if big > 20000:
            return "bytes:" + rng.randbytes(rng.randint(big // 2, big)).hex()
        return "bytes:" + (bytes(rng.randint(0, 255) for _ in range(rng.randint(1, big))).hex() or "~")
    if t == "obj":
        return "obj:" + obj(rng, depth - 1, big)
    return "prop:(" + ",".join("%s=%s" % (rname(rng) + str(i), value(rng, SCALARS, big, depth - 1)) for i in range(rng.randint(1, 3))) + ")"


def obj(rng, depth=1, big=40, name=None):
    return (name or rname(rng)) + "(" + ",".join("%s=%s" % (rname(rng) + str(i), value(rng, SCALARS, big, depth)) for i in range(rng.randint(0, 4))) + ")"


# ------------------------------------------------------------------ atomic register oracle (unique written values)
def register_violation(ops, initial):
    """ops: list of (kind 'w'|'r', value, t0, t1, certain). Written values are unique. Returns a text or None.
    A write that is not 'certain' (its call failed or never returned) counts only if some read returned its value."""
    INF = float("inf")
    clusters = {initial: [(-INF, -INF)]}
    writes = {initial: (-INF, -INF)}
    reads = {}
    for k, v, t0, t1, sure in ops:
        if k == "w":
            writes[v] = (t0, t1 if sure else INF)
    for k, v, t0, t1, sure in ops:
        if k == "r":
            if v not in writes:
                return "read returned %s which nobody wrote" % v
            reads.setdefault(v, []).append((t0, t1))
    zones = []
    for k, v, t0, t1, sure in ops:
        if k == "w" and not sure and v not in reads:
            writes.pop(v, None)
    for v, (w0, w1) in writes.items():
        rs = reads.get(v, [])
        for r0, r1 in rs:
            if r1 < w0:
                return "read of %s ended before its write began" % v
        f = min([w1] + [r1 for _, r1 in rs])
        s = max([w0] + [r0 for r0, _ in rs])
        zones.append((f, s, v))
    fw = sorted((f, s, v) for f, s, v in zones if f < s)
    for a, b in zip(fw, fw[1:]):
        if b[0] < a[1]:
            return "values %s and %s interleave: not one atomic register" % (a[2], b[2])
    for f, s, v in zones:
        if not f < s:
            for F, S, V in fw:
                if F < s and f < S:
                    return "value %s was written strictly inside the life of %s, which was still read afterwards" % (v, V)
    return None
