from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ set specification of the bitmaps checked with TLC; recorded operation sequences of the real bitmaps validated against it"
NOTE = ("TLC explores the set algebra over every pair of subsets of a small universe, and accepts or "
        "rejects each recorded sequence of real bitmap operations step by step; values are abstracted "
        "to intervals, sequences are sampled")


def run(ctx):
    ctx.model("BitmapModel")
    drv = build.build_base_driver("d_bitmap", ["d_bitmap.cpp"])
    ctx.simple(drv, "BitmapTrace", ctx.scale(600, 12000))
