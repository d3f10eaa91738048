from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of strings as byte lists with UTF-8 characters, its laws and the stepping search model-checked with TLC; recorded results of the real string operations in many layouts validated against it"
NOTE = ("TLC explores all strings up to 4 bytes over one byte of each width class; the real operations are driven with "
        "sampled pairs of strings (also malformed and cut-off), offsets and segment sizes under the address sanitizer")


def run(ctx):
    ctx.model("StringsModel", ctx.scale("StringsModel", "StringsModel_big"))
    drv = build.build_base_driver("d_string", ["d_string.cpp"])
    ctx.simple(drv, "StringsTrace", ctx.scale(2500, 40000), batch=2500)
