"""P05: random filter trees (chains of 300 operators included) applied to boundary values of every type and compared with an independent evaluator, before and after encode/decode and message transfer; ASan+UBSan."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan"], False, True
EVAL = "cases"
RULE = "a case is one filter tree applied to 30 values in three representations; distinct = (tree size, value type, outcomes seen) combinations"


def prepare():
    vlib.Variant("asan").driver("u_data.cpp", cflags=["-fpermissive"])


def plan(tier):
    n, c = (8, 350) if tier == "quick" else (64, 6000)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)]


def unit(ctx, first, count):
    ctx.unit(vlib.BUILD + "/asan-u_data", [ctx.seed, count, first, "filter"])
