from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ encoders and decoders over byte lists, checked with TLC to be mutually inverse; encodings and decodings (also of damaged bytes) recorded from the real code validated against them"
NOTE = ("TLC covers 16-bit integers (all in the thorough tier) and short lists; 64-bit values and damaged encodings of the real code "
        "are sampled with emphasis on group borders, extremes and length fields")


def run(ctx):
    ctx.model("CodecsModel", ctx.scale("CodecsModel", "CodecsModel_big"))
    drv = build.build_base_driver("d_codec", ["d_codec.cpp"])
    ctx.simple(drv, "CodecsTrace", ctx.scale(700, 14000), cfg="CodecsTrace", batch=1000)
