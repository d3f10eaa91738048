from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the map as a list of entries; the linked list with its index model-checked against it with TLC; recorded operation sequences of the real map validated against it"
NOTE = ("TLC explores all operation sequences over three keys and seven node allocations (thorough: four and eight); the real map is driven with "
        "sampled sequences over two maps under the address sanitizer, and everything it shows is compared after every operation")


def run(ctx):
    ctx.model("LinkedMapModel", ctx.scale("LinkedMapModel", "LinkedMapModel_big"))
    drv = build.build_base_driver("d_linkmap", ["d_linkmap.cpp"])
    ctx.simple(drv, "LinkedMapTrace", ctx.scale(1500, 30000))
