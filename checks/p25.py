"""P25: vectors, lists and hash maps against abstract models after every operation (clean-up counted), base64 against a reference encoder for every length, time arithmetic against 128-bit integers; ASan+UBSan."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan"], False, True
EVAL = "cases"
RULE = "a case is one random operation history on each container plus base64 lengths and time values; distinct = (container, operation, size, mode) states and base64 lengths reached"
EXE = {}


def prepare():
    vlib.Variant("asan").driver("u_containers.cpp", libs=("rtMessage",), cflags=["-fpermissive"])


def plan(tier):
    n, c = (8, 250) if tier == "quick" else (64, 2500)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)]


def unit(ctx, first, count):
    ctx.unit(vlib.BUILD + "/asan-u_containers", [ctx.seed, count, first])
