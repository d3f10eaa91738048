from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of scored row sets checked with TLC over all small expressions; recorded expressions over the real result types validated against it"
NOTE = ("TLC explores expressions over a five-row space; real expressions are sampled, row ids around "
        "multiples of 2^32, including saving, loading and truncated input")


def run(ctx):
    ctx.model("GlobalIndexModel")
    drv = build.build_base_driver("d_gindex", ["d_gindex.cpp"])
    ctx.simple(drv, "GlobalIndexTrace", ctx.scale(1000, 20000))
