from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of a deletion vector as a set of positions and of reading a file around it, model-checked with TLC; histories of real vectors and reads of real tables with vectors validated against the specification"
NOTE = ("TLC explores every set of deleted positions of a file of six rows and every cut of the file into batches; real vectors span several bitmap containers, "
        "are saved, loaded, cut short and spoiled; real tables are read with vectors attached to any of their files, in any batch size, with and without predicates")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("DelVecModel", ctx.scale("DelVecModel", "DelVecModel_big"))
    ctx.flawed("DelVecModel", "DelVecModel_flaw")
    vec = build.build_core_driver("d_delvec", ["d_delvec.cpp"], asan=True)
    plain = build.build_core_driver("d_read_p", ["d_read.cpp"], asan=False)
    read = build.build_core_driver("d_read", ["d_read.cpp"], asan=True)
    ctx.simple(vec, "DelVecTrace", ctx.scale(6000, 60000), jobs=8)
    ctx.simple(plain, "ReadingTrace", ctx.scale(4000, 40000), args=["--mode", "hide"], jobs=8)
    ctx.simple(read, "ReadingTrace", ctx.scale(800, 8000), args=["--mode", "hide"], label="ReadingTrace-asan", jobs=8)
