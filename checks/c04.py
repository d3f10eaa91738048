from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of snapshot content; how manifests with additions, deletions and merging denote it model-checked with TLC; every snapshot of real histories read back at random later times and validated against the specification"
NOTE = ("TLC explores all sequences of up to four (thorough: five) commits with every way of merging manifests; real histories vary partitioning, buckets, target sizes, manifest merging limits, formats and splits, and every retained snapshot is read again after later commits")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("ManifestModel", ctx.scale("ManifestModel", "ManifestModel_big"))
    table.histories(ctx, [("serial", ctx.scale(1600, 24000))], asan=[("serial", ctx.scale(80, 1500))])
