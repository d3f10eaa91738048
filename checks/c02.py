from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the table's history; the commit protocol with a crash or error at any step model-checked with TLC; histories of the real commit code with a fault or crash at a chosen file operation validated against the specification"
NOTE = ("TLC explores every placement of two crashes or errors; the real code is rehearsed to count its file operations and then disturbed at one of them: error before or after the effect, partial write, or stop of the process; afterwards everything is read back")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("CommitModel", ctx.scale("CommitModel_crash", "CommitModel_crash_big"))
    table.histories(ctx, [("fault", ctx.scale(2400, 40000))])
