from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of reading files of older schema versions by column identity, model-checked with TLC; histories of schema changes, writes and reads of real tables validated against the specification"
NOTE = ("TLC explores one schema change between two files and every predicate of two leaves; real tables go through up to ten versions with columns added, dropped, "
        "renamed, moved and cast, are read with any columns and predicates, and scanned by several threads at once")
ASSUMPTIONS = table.ASSUMPTIONS + ["The scans by several threads run under AddressSanitizer without a controlled schedule; the result of each is checked, the interleavings are those that happen."]


def run(ctx):
    ctx.model("ReadingModel", ctx.scale("ReadingModel_alter", "ReadingModel_big"))
    ctx.flawed("ReadingModel", "ReadingModel_flaw")
    plain = build.build_core_driver("d_read_p", ["d_read.cpp"], asan=False)
    read = build.build_core_driver("d_read", ["d_read.cpp"], asan=True)
    ctx.simple(plain, "ReadingTrace", ctx.scale(4000, 40000), args=["--mode", "evolve"], jobs=8)
    ctx.simple(read, "ReadingTrace", ctx.scale(800, 8000), args=["--mode", "evolve"], label="ReadingTrace-asan", jobs=8)
    ctx.simple(read, "ReadingTrace", ctx.scale(400, 4000), args=["--mode", "threads"], label="ReadingTrace-threads", jobs=2)
