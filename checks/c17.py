from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the stored form of rows and arrays and of reading it, model-checked with TLC; rows and arrays of the real writers, serialisers and views validated against the specification"
NOTE = ("TLC explores every small row: reading gives what was written and the bytes depend on the values alone; real rows and arrays of every type, nested, with nulls, in any number of memory "
        "segments and behind every view, are compared byte for byte and value for value")
ASSUMPTIONS = table.ASSUMPTIONS[:1] + ["NaN payloads and map values are not generated."]


def run(ctx):
    ctx.model("RowsModel", ctx.scale("RowsModel", "RowsModel_big"))
    ctx.flawed("RowsModel", "RowsModel_flaw")
    rows = build.build_core_driver("d_rows", ["d_rows.cpp"], asan=True)
    ctx.simple(rows, "RowsTrace", ctx.scale(4000, 60000), args=["--mode", "rows"], batch=1000, jobs=4)
