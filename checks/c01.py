from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the table's history; the commit protocol (look up, write, publish by exclusive rename, retry) model-checked with TLC for all interleavings; histories of several real committers under a controlled scheduler validated against the specification"
NOTE = ("TLC explores two committers with two commits each (thorough: three committers, a fault) under every interleaving and arbitrary hints; the real commit code of up to three committers is switched at every file operation, by seeded schedules, with concurrent readers and expiration")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("CommitModel", ctx.scale("CommitModel", "CommitModel_big"))
    ctx.flawed("CommitModel", "CommitModel_flaw")
    table.histories(ctx, [("conc", ctx.scale(1600, 24000)), ("conc-expire", ctx.scale(320, 6000))])
