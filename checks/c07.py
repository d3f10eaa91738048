from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of expiration; its steps against concurrent commits model-checked with TLC; histories of the real code (alone, with faults, and next to committers) validated against the specification, every retained snapshot read back"
NOTE = ("TLC explores every interleaving of two committers with an expiration; real histories vary minimum, maximum, limit and age, with faults at a chosen file operation and with concurrent committers and readers")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("CommitModel", ctx.scale("CommitModel_expire", "CommitModel_expire_big"))
    table.histories(ctx, [("expire", ctx.scale(1200, 20000)), ("conc-expire", ctx.scale(320, 6000))])
