from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ answer algebra checked sound with TLC over all small expressions; recorded expressions over the real answer types and readers validated against it"
NOTE = ("TLC explores expressions of any depth over a three-row file; real expressions are sampled over "
        "six rows including failing and foreign answer types")


def run(ctx):
    ctx.model("AnswersModel")
    drv = build.build_base_driver("d_answer", ["d_answer.cpp"])
    ctx.simple(drv, "AnswersTrace", ctx.scale(1000, 20000))
