from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of predicates, their negation and skipping by statistics, model-checked with TLC; answers of real predicates and filtered scans and reads of real tables validated against the specification"
NOTE = ("TLC explores every table of two files with two rows each and every predicate of two leaves; real predicates are trees over thirteen column types with nulls; "
        "real tables are append and primary-key tables with any levels, merge engines, partitions, buckets, several schema versions and deletion vectors, "
        "read with predicates, partition and bucket filters, exact or not, ahead of time or not")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("ReadingModel", ctx.scale("ReadingModel", "ReadingModel_big"))
    ctx.flawed("ReadingModel", "ReadingModel_flaw")
    pred = build.build_core_driver("d_pred", ["d_pred.cpp"], asan=True)
    plain = build.build_core_driver("d_read_p", ["d_read.cpp"], asan=False)
    read = build.build_core_driver("d_read", ["d_read.cpp"], asan=True)
    ctx.simple(pred, "PredTrace", ctx.scale(6000, 60000), jobs=8)
    ctx.simple(plain, "ReadingTrace", ctx.scale(4000, 40000), args=["--mode", "filter"], jobs=8)
    ctx.simple(read, "ReadingTrace", ctx.scale(800, 8000), args=["--mode", "filter"], label="ReadingTrace-asan", jobs=8)
