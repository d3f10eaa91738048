from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ characterisation of a correct packing; the one-pass algorithm model-checked against it (and the packing shown unique) with TLC; packings computed by the real code validated against it"
NOTE = ("TLC explores all lists up to five items with weights 0..3 and targets 0..5 (thorough: six, 0..7); the real packing is driven with sampled "
        "lists up to sixty items, with weights up to 2^52")


def run(ctx):
    ctx.model("PackingModel", ctx.scale("PackingModel", "PackingModel_big"))
    drv = build.build_base_driver("d_packing", ["d_packing.cpp"])
    ctx.simple(drv, "PackingTrace", ctx.scale(3000, 60000))
