from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of flat memory (with the storage hash); segment-walking algorithms model-checked against it with TLC; recorded operations on really segmented memory validated against it"
NOTE = ("TLC explores all divisions, offsets and lengths of a 12-byte block for copying and comparing; the real "
        "functions are driven with sampled contents, divisions and operations under the address sanitizer")


def run(ctx):
    ctx.model("MemoryModel")
    drv = build.build_base_driver("d_memory", ["d_memory.cpp"])
    ctx.simple(drv, "MemoryTrace", ctx.scale(1500, 24000), batch=1500)
