"""P02: random histories of set, replace, append, relink, look-up, compare, send and release over nested objects and property lists against an independent model of ordered name-to-value maps; heap growth judged over repeated histories; ASan+UBSan."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan"], False, True
EVAL = "cases"
RULE = "a case is one random history of 10-40 operations on objects and lists; distinct = (operation, number of properties, number of children, value type) combinations reached"


def prepare():
    vlib.Variant("asan").driver("u_data.cpp", cflags=["-fpermissive"])


def plan(tier):
    n, c = (8, 350) if tier == "quick" else (64, 6000)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)]


def unit(ctx, first, count):
    ctx.unit(vlib.BUILD + "/asan-u_data", [ctx.seed, count, first, "object"])
