import json
import os

from vlib import build
from vlib.check import Violation

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the written byte list; segmented writing algorithm model-checked against it with TLC; recorded writes and read-backs of the real typed streams validated against it"
NOTE = ("TLC explores the segmented writer for seven segment sizes up to 15 bytes; the real streams are driven "
        "with sampled values, segment sizes and byte orders, failing and short sinks and texts at the length limit")


def run(ctx):
    ctx.model("OutputStreamsModel")
    drv = build.build_base_driver("d_outstream", ["d_outstream.cpp"])
    ctx.simple(drv, "OutputStreamsTrace", ctx.scale(1200, 20000))
    over_long(ctx, drv)


def over_long(ctx, drv):
    """Texts beyond the length field in the segmented stream, which cannot refuse."""
    out = os.path.join(ctx.work, "long.ndjson")
    ctx.drive(drv, [out, "--seed", ctx.seed, "--count", 60, "--long", "yes"])
    for line in open(out):
        for e in json.loads(line)["ev"]:
            if e["op"] == "long" and e["n"] > 65535 and e["o"] == "ok" and not e["same"]:
                if ctx.known_finding("segmented-text-over-65535"):
                    return
                raise Violation("a text of %d bytes written through the segmented stream is read back wrongly" % e["n"])
