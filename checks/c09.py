from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of streaming scans; the polling algorithm against commits and expiration model-checked with TLC; histories of real streams polled between and during commits validated against the specification"
NOTE = ("TLC explores all histories of six (thorough: nine) snapshots of two kinds with polls and expiration in between; real streams start in every mode before or after data exists, and the table is expired or recreated under them")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("StreamModel", ctx.scale("StreamModel", "StreamModel_big"))
    ctx.flawed("StreamModel", "StreamModel_flaw")
    table.histories(ctx, [("stream", ctx.scale(2400, 40000))])
