"""P01: random histories of set/get/copy/swap/compare/print/parse/encode/send/retain/release over every value type against an independent model (128-bit arithmetic for numbers, civil-calendar arithmetic for times), heap growth judged over repeated histories, under ASan+UBSan."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan"], False, True
EVAL = "cases"
RULE = "a case is one random history of 10-40 operations on a pool of values; distinct = (type, operation, size class, NULL) combinations reached"


def prepare():
    vlib.Variant("asan").driver("u_data.cpp", cflags=["-fpermissive"])


def plan(tier):
    n, c = (8, 350) if tier == "quick" else (64, 6000)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)]


def unit(ctx, first, count):
    ctx.unit(vlib.BUILD + "/asan-u_data", [ctx.seed, count, first, "value"])
