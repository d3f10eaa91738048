from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of what may and must be cleaned; cleaning against concurrent commits model-checked with TLC; histories of the real code with leftovers of failed work, foreign files and faults validated against the specification"
NOTE = ("TLC explores every interleaving of two failing committers with a cleaning (thorough: and expiration); real histories leave uncommitted files, files of failed commits and expirations and foreign files behind, and clean with various thresholds and retained names")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("CommitModel", ctx.scale("CommitModel_clean", "CommitModel_clean_big"))
    table.histories(ctx, [("clean", ctx.scale(2000, 30000))], asan=[("clean", ctx.scale(80, 1500))])
