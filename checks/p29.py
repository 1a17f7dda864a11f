"""P29: random histories of thread pools (1-8 threads, several producers, tasks that need each other to run at the same time, tasks that add tasks, idle threads ending just when a task arrives, destruction with every kind of waiting) and of semaphores (many waiters with and without time limits against many posters): every task runs once or is reported cancelled, never more threads than allowed, none left, one admission per post, under ASan+UBSan and again under TSan."""
from lib import vlib
VARIANTS, AGENT, NO_BUS = ["asan", "tsan"], False, True
EVAL = "cases"
RULE = "a case is three pools and two semaphores with their full histories; distinct = (threads allowed, tasks, producers, durations, most threads seen at once, way of destruction, cancelled or not) and (waiters, posters, timed out or not) combinations seen"


def prepare():
    for v in VARIANTS:
        vlib.Variant(v).driver("u_pool.cpp", libs=("rtMessage",), cflags=["-fpermissive"])


def plan(tier):
    n, c = (5, 40) if tier == "quick" else (40, 400)
    return [{"fn": "unit", "args": {"first": i * c, "count": c}} for i in range(n)] + \
           [{"fn": "unit", "args": {"first": 1000000 + i * c, "count": c // 2, "variant": "tsan"}} for i in range(2 if tier == "quick" else 20)] + \
           [{"fn": "unit", "args": {"first": i, "count": 2 if tier == "quick" else 20, "what": "expiry"}} for i in range(2 if tier == "quick" else 8)]


def unit(ctx, first, count, variant="asan", what="cases"):
    ctx.unit(vlib.BUILD + "/%s-u_pool" % variant, [ctx.seed, count, first, what], variant=variant)
