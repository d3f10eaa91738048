from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the pool's two numbers; the lock-free counting algorithm model-checked against it with TLC; recorded calls of the real pool, by one thread and by several under a controlled scheduler, validated against it"
NOTE = ("TLC explores all interleavings of two threads with three allocations each (thorough: three threads with two); the real pool is driven with sampled sizes "
        "and alignments under the address sanitizer, and with sampled schedules that switch threads at every shared memory access")
LIB = ["common/memory/memory_pool.cpp", "common/memory/bytes.cpp", "common/utils/status.cpp"]


def run(ctx):
    ctx.model("PoolModel", ctx.scale("PoolModel", "PoolModel_big"))
    drv = build.build_base_driver("d_pool", ["d_pool.cpp"], extra=("-DVS_NATIVE",))
    ctx.simple(drv, "PoolTrace", ctx.scale(1500, 30000), args=["--single", "yes"], label="PoolTrace-single")
    ctx.concurrent("d_pool", ["d_pool.cpp"], LIB, "PoolTrace", ctx.scale(1500, 30000))
