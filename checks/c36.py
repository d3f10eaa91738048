from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of escaping, paths and reading them back, round trip and therefore injectivity model-checked with TLC; paths made by the real code validated against it"
NOTE = ("TLC explores all one-level partitions with names and values of up to two of eight tricky bytes (thorough: also two levels over five bytes); "
        "the real code is driven with every byte and with sampled names and values")


def run(ctx):
    ctx.model("PartitionPathModel")
    if not ctx.quick:
        ctx.model("PartitionPathModel", "PartitionPathModel_big")
    drv = build.build_base_driver("d_partpath", ["d_partpath.cpp"])
    ctx.simple(drv, "PartitionPathTrace", ctx.scale(1500, 20000))
