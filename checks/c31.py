LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of task hand-over, execution and shutdown; the worker algorithm model-checked against it with TLC (safety and termination); histories of the real executor under a controlled scheduler validated against it"
NOTE = ("TLC explores all interleavings of two (thorough: three) workers, four tasks and shutdown, with spurious wake-ups; "
        "the real executor and futures run under a deterministic scheduler that switches threads at every "
        "synchronisation and shared memory access by seeded random, sticky and priority strategies")
LIB = ["common/executor/executor.cpp", "common/utils/status.cpp"]


def run(ctx):
    ctx.model("ExecutorModel", ctx.scale("ExecutorModel", "ExecutorModel_big"))
    ctx.concurrent("d_executor", ["d_executor.cpp"], LIB, "ExecutorTrace", ctx.scale(2500, 60000))
