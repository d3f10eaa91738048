from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ column specification with the slice-wise comparison, checked with TLC over all small columns; recorded appends and queries of the real index validated against it"
NOTE = ("TLC enumerates all columns of three rows over a small value domain, all bounds, operators and "
        "literals; real index runs are sampled, with values up to the int64 maximum given as ranks")


def run(ctx):
    ctx.model("BitSlicedModel", cfg="BitSlicedModel" if ctx.quick else "BitSlicedModel_big")
    drv = build.build_base_driver("d_bsi", ["d_bsi.cpp"])
    ctx.simple(drv, "BitSlicedTrace", ctx.scale(1000, 20000))
