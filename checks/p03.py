"""P03: random item sequences (nested messages, meta sections, boundary integers, 70 kB buffers) written and read back through rbusMessage, JSON messages and frame headers, against C++ models, from exactly sized copies; reads of other types and past the end must fail; ASan+UBSan, heap growth per repeated cycle."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan"], False, True
EVAL = "cases"
RULE = "a case is one random message (or 20 headers) written, copied and read back; distinct = (item type, size class, nesting) combinations"


def prepare():
    vlib.Variant("asan").driver("u_msg.cpp", cflags=["-fpermissive"])


def plan(tier):
    n, c = (3, 150) if tier == "quick" else (20, 6000)
    return [{"fn": "unit", "args": {"first": i * c, "count": c, "mode": m}} for m in ("msg", "json", "hdr") for i in range(n)]


def unit(ctx, first, count, mode):
    ctx.unit(vlib.BUILD + "/asan-u_msg", [ctx.seed, count, first, mode])
