LEVEL = "model_checking"
TECHNIQUE = "TLA+ linearisation rule over sequential object specifications, the lock-per-call scheme model-checked against it with TLC; call histories of the real containers under a controlled scheduler validated against it"
NOTE = ("TLC explores all histories of two (thorough: three) threads with two calls each; the real queue, map and metrics run "
        "under a deterministic scheduler that switches threads at every synchronisation and shared memory access "
        "by seeded random, sticky and priority strategies")
LIB = ["common/metrics/metrics_impl.cpp", "common/utils/status.cpp"]


def run(ctx):
    for kind in ("queue", "map"):
        ctx.model("SharedModel", "SharedModel_" + kind + ctx.scale("", "_big"))
    ctx.concurrent("d_shared", ["d_shared.cpp"], LIB, "SharedTrace", ctx.scale(3000, 60000))
