from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the filter with the storage format's bit positions, checked with TLC; recorded runs of the real filter validated against it"
NOTE = ("TLC computes every bit position itself with 16-bit arithmetic and compares each answer and the "
        "stored bits; hashes and sizings are sampled, sizes up to 20000 items")


def run(ctx):
    ctx.model("BloomModel")
    drv = build.build_base_driver("d_bloom", ["d_bloom.cpp"])
    ctx.simple(drv, "BloomTrace", ctx.scale(800, 16000))
