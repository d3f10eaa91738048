LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the choice of a file system by scheme with one instance per key, of the factory registry and of uris; the cache algorithm model-checked against it with TLC; recorded calls of the real code with recording delegates under a controlled scheduler validated against it"
NOTE = ("TLC explores all interleavings of two (thorough: three) threads with two calls over four keys, and the laws of all uris up to six "
        "bytes; the real resolver and registry run under a deterministic scheduler that switches threads at every synchronisation and "
        "shared memory access; look-ups and uris are sampled")
LIB = ["common/fs/resolving_file_system.cpp", "common/fs/file_system_factory.cpp",
       "common/format/file_format_factory.cpp", "common/file_index/file_indexer_factory.cpp",
       "common/global_index/global_indexer_factory.cpp", "common/factories/factory_creator.cpp",
       "common/factories/io_hook.cpp", "common/factories/singleton.cpp", "common/utils/status.cpp"]


def run(ctx):
    from vlib import build
    ctx.model("ResolveModel", ctx.scale("ResolveModel", "ResolveModel_big"))
    ctx.flawed("ResolveModel", "ResolveModel_flaw")
    ctx.model("PathsModel", "PathsModel")
    kw = dict(extra=("-I" + build.LITE,))
    for mode, module, n in (("resolve", "ResolveTrace", ctx.scale(2500, 40000)), ("registry", "SharedTrace", ctx.scale(1500, 20000)),
                            ("one", "ResolveTrace", ctx.scale(300, 3000)), ("get", "ResolveTrace", ctx.scale(1000, 10000)),
                            ("uri", "ResolveTrace", ctx.scale(1000, 20000))):
        ctx.concurrent("d_resolve", ["d_resolve.cpp"], LIB, module, n, args=["--mode", mode],
                       memory=(True, False) if mode in ("resolve", "registry") else (mode == "one",), tag=mode, **kw)
