from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the stored form of a key row, its hash and its bucket, model-checked with TLC; buckets of real batches validated against the specification"
NOTE = ("TLC explores every small row for a stored form that depends on its values alone; the buckets of real batches of keys of every type, also in the middle of longer columns, "
        "are recomputed by the specification from the values")
ASSUMPTIONS = table.ASSUMPTIONS[:1] + ["Bucket counts are below 2^23, the range of the specification's arithmetic."]


def run(ctx):
    ctx.model("RowsModel", "RowsModel")
    ctx.flawed("RowsModel", "RowsModel_flaw")
    rows = build.build_core_driver("d_rows", ["d_rows.cpp"], asan=True)
    ctx.simple(rows, "RowsTrace", ctx.scale(8000, 120000), args=["--mode", "bucket"], label="RowsTrace-bucket", jobs=4)
