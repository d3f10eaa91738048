from vlib import build, table

LEVEL = "model_checking"
TECHNIQUE = ("TLA+ specification of the byte layouts of commit messages, splits, manifest rows and of the fields of snapshots, in every version that can still be read, "
             "model-checked with TLC; real serializations validated against it")
NOTE = ("TLC sends small messages of several versions, whole and cut, to a reader that works through the stream; real messages, splits, manifest rows and snapshots with extreme and missing values "
        "are serialized and read back, the bytes compared with the specification's and damaged forms offered to the readers")
ASSUMPTIONS = table.ASSUMPTIONS[:1] + ["Older versions are only read by the library; their bytes are composed by the driver and compared with the specification's layout before they are read."]


def run(ctx):
    ctx.model("MessagesModel", ctx.scale("MessagesModel", "MessagesModel_big"))
    ctx.flawed("MessagesModel", "MessagesModel_flaw")
    meta = build.build_core_driver("d_meta", ["d_meta.cpp"], asan=True)
    ctx.simple(meta, "MessagesTrace", ctx.scale(6000, 80000), label="MessagesTrace", batch=1000, jobs=4)
