from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of a tree of named byte sequences with open streams, injected failures and publication by renaming, model-checked with TLC; recorded operation histories of the real local files, file system and fault hook (also from several threads at once) validated against it"
NOTE = ("TLC explores all sequences of three (thorough: four) operations on trees of depth two and two processes publishing one name; "
        "the real code runs random operation histories in a scratch directory as an unprivileged user, with failures "
        "injected from every step on, with a limit on the sizes of files, and with two or three threads switched at every system call")


def run(ctx):
    ctx.model("LocalFsModel", ctx.scale("LocalFsModel", "LocalFsModel_big"))
    ctx.flawed("LocalFsModel", "LocalFsModel_flaw")
    drv = build.build_core_driver("d_local", ["d_local.cpp"])
    ctx.simple(drv, "LocalFsTrace", ctx.scale(2400, 40000), label="plain", args=["--mode", "plain"], jobs=8)
    ctx.simple(drv, "LocalFsTrace", ctx.scale(2400, 40000), label="fault", args=["--mode", "fault"], jobs=8)
    ctx.simple(drv, "LocalFsTrace", ctx.scale(800, 12000), label="race", args=["--mode", "race"], jobs=8)
    ctx.simple(drv, "LocalFsTrace", ctx.scale(1200, 20000), label="full", args=["--mode", "full"], jobs=8)
