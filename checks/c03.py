from vlib import table

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of identified commits; the retry protocol model-checked with TLC; histories of the real code in which commits are submitted again in random subsets after faults and successes validated against the specification"
NOTE = ("TLC explores two committers that lose, fail and resubmit; real histories mix users, repeated submissions of any subset in identifier order, faults in between, and filtered overwrites")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("CommitModel", ctx.scale("CommitModel_retry", "CommitModel_crash_big"))
    table.histories(ctx, [("retry", ctx.scale(2000, 30000))])
