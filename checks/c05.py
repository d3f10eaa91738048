from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of overwriting and dropping partitions; model-checked with TLC over all overlapping partition specifications; histories of the real code validated against the specification"
NOTE = ("TLC explores appends, overwrites and drops with partial and overlapping specifications and manifest merging; real histories use zero to two partition columns, full, partial and several specifications, null and odd partition values")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("ManifestModel", ctx.scale("ManifestModel", "ManifestModel_big"))
    table.histories(ctx, [("over", ctx.scale(2000, 30000))])
