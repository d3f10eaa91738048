from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ interval specification: sweeps proved equal to their denotation on all small lists with TLC; recorded results of the real functions validated against it"
NOTE = ("TLC enumerates every list of up to three ranges over a small domain for the algorithms in the "
        "specification; the real functions are run on sampled lists (domain ends included) and each "
        "result must equal the specification's")


def run(ctx):
    ctx.model("RangesModel", cfg="RangesModel" if ctx.quick else "RangesModel_big")
    drv = build.build_base_driver("d_range", ["d_range.cpp"])
    ctx.simple(drv, "RangesTrace", ctx.scale(1000, 20000))
