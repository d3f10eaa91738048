"""Recording histories of whole tables and validating them against spec/Table.tla."""
from . import build

ASSUMPTIONS = ["the column library and file formats are stand-ins (arrowlite, lite_format)",
               "the file system is a tree in memory with atomic rename and no torn writes across a crash",
               "an expiration does not overtake a commit that is in progress"]


def histories(ctx, modes, asan=()):
    """`modes` are pairs of a mode of the driver and a number of histories."""
    drv = build.build_core_driver("d_table_p", ["d_table.cpp"], asan=False)
    for mode, count in modes:
        ctx.simple(drv, "TableTrace", count, label="TableTrace-" + mode, args=["--mode", mode], jobs=8)
    if asan:
        drv = build.build_core_driver("d_table", ["d_table.cpp"], asan=True)
        for mode, count in asan:
            ctx.simple(drv, "TableTrace", count, label="TableTrace-asan-" + mode, args=["--mode", mode], jobs=8)
