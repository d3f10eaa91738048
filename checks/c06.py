import json
import os

from vlib import build, table
from vlib.check import Violation

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the merge of a key's records under every merge engine; independence of batches, flushes and files model-checked with TLC; histories of real primary-key tables validated against the specification"
NOTE = ("TLC explores every spread of three records over batches, flushes and files for 60 merge rules; the real tables use random rules, "
        "column types, key columns, partitions, buckets, buffer, batch and file sizes, are read with both merge algorithms, "
        "any columns, split sizes and hand-made splits")
ASSUMPTIONS = table.ASSUMPTIONS


def run(ctx):
    ctx.model("MergeModel", ctx.scale("MergeModel", "MergeModel_big"))
    ctx.flawed("MergeModel", "MergeModel_flaw")
    drv = build.build_core_driver("d_merge_p", ["d_merge.cpp"], asan=False)
    ctx.simple(drv, "MergeTrace", ctx.scale(4000, 60000), jobs=8)
    drv = build.build_core_driver("d_merge", ["d_merge.cpp"], asan=True)
    ctx.simple(drv, "MergeTrace", ctx.scale(800, 8000), label="MergeTrace-asan", jobs=8)
    written_again(ctx, drv)


def written_again(ctx, drv):
    """A record that is removed and written again before the flush."""
    out = os.path.join(ctx.work, "rod.ndjson")
    ctx.drive(drv, [out, "--seed", 1, "--count", 1, "--mode", "rod"])
    last = json.loads(open(out).readline())["ev"][-1]
    if [r["f"] for r in last["rows"]] != [[[2], []]] and not ctx.known_finding("removed-and-written-again"):
        raise Violation("a record that was removed and written again before the flush has the old values: %r" % last)
