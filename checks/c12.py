from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of row-id assignment; the assignment under concurrent attempts model-checked with TLC; histories of real row-tracking tables (serial, concurrent, with faults) validated against the specification"
NOTE = ("TLC explores two (thorough: three) committers with two commits each; real histories read the row id of every row of every snapshot back")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("RowIdModel", ctx.scale("RowIdModel", "RowIdModel_big"))
    ctx.flawed("RowIdModel", "RowIdModel_flaw")
    table.histories(ctx, [("rid-serial", ctx.scale(500, 8000)), ("rid-conc", ctx.scale(700, 12000)), ("rid-fault", ctx.scale(500, 8000))])
