from vlib import build

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of time conversions, calendar, code tables and column statistics, the calendar and the bounds model-checked with TLC; conversions done by the real code validated against it"
NOTE = ("TLC walks every day of 400 years (thorough: 2400) and every list of up to four values (six); the real code is driven with sampled "
        "instants over the whole 64-bit range and with every 8-bit code")


def run(ctx):
    ctx.model("ConversionsModel", ctx.scale("ConversionsModel", "ConversionsModel_big"))
    drv = build.build_base_driver("d_convert", ["d_convert.cpp"])
    ctx.simple(drv, "ConversionsTrace", ctx.scale(1500, 30000))
