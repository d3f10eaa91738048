from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the look-ups; the look-up algorithm for every content of the hint against concurrent commits model-checked with TLC; look-ups of the real code with generated hint contents validated against the specification"
NOTE = ("TLC explores every range of existing snapshots up to six with every hint value; real look-ups run with missing, empty, stale, future, garbage and unparsable hints after commits and expirations")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("HintModel")
    ctx.flawed("HintModel", "HintModel_flaw")
    table.histories(ctx, [("hint", ctx.scale(2400, 40000))])
