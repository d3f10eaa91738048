from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of a window with one position; buffering algorithm model-checked against it with TLC; recorded call sequences on stacks of real streams validated against it"
NOTE = ("TLC explores the buffering algorithm completely for a 9-byte sequence; real stacks (plain, windowed, "
        "nested windows, buffered, typed, lengths beyond 2^32) are driven with sampled call sequences under "
        "the address sanitizer")


def run(ctx):
    ctx.model("InputStreamsModel")
    drv = build.build_base_driver("d_instream", ["d_instream.cpp"])
    ctx.simple(drv, "InputStreamsTrace", ctx.scale(1500, 30000))
