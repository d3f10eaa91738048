"""Builds drivers against the sources of /repo's current working tree.

Objects are cached by content through ccache, so that a run only recompiles what
a change to the tree affects; nothing depends on time stamps.
"""
import concurrent.futures
import contextlib
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "src/paimon")

DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
        "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING"]
INCS = ["-I" + os.path.join(REPO, p) for p in
        ("src", "include", "test", "third_party/roaring_bitmap", "third_party/xxhash")]

# the sources that need no Apache Arrow headers
BASE = """
common/data/binary_section.cpp common/data/binary_string.cpp common/data/blob_descriptor.cpp
common/data/timestamp.cpp common/defs.cpp common/executor/executor.cpp
common/factories/factory_creator.cpp common/factories/io_hook.cpp common/factories/singleton.cpp
common/file_index/bitmap/bitmap_file_index_meta_v1.cpp
common/file_index/bitmap/bitmap_index_result.cpp
common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp common/file_index/file_index_reader.cpp
common/file_index/file_index_result.cpp common/file_index/file_indexer_factory.cpp
common/format/column_stats.cpp common/format/file_format_factory.cpp
common/fs/file_system_factory.cpp common/fs/resolving_file_system.cpp
common/global_index/bitmap_global_index_result.cpp
common/global_index/bitmap_vector_search_global_index_result.cpp
common/global_index/global_index_result.cpp common/global_index/global_indexer_factory.cpp
common/io/buffered_input_stream.cpp common/io/byte_array_input_stream.cpp
common/io/data_input_stream.cpp common/io/data_output_stream.cpp
common/io/memory_segment_output_stream.cpp common/io/offset_input_stream.cpp
common/memory/bytes.cpp common/memory/memory_pool.cpp common/memory/memory_segment.cpp
common/memory/memory_segment_utils.cpp common/metrics/metrics_impl.cpp common/types/row_kind.cpp
common/utils/bloom_filter64.cpp common/utils/delta_varint_compressor.cpp common/utils/range.cpp
common/utils/roaring_bitmap32.cpp common/utils/roaring_bitmap64.cpp common/utils/status.cpp
core/catalog/identifier.cpp core/manifest/file_kind.cpp core/manifest/file_source.cpp
core/operation/commit_context.cpp core/operation/scan_context.cpp core/table/source/plan_impl.cpp
core/table/source/startup_mode.cpp core/utils/partition_path_utils.cpp fs/local/local_file.cpp
fs/local/local_file_system_factory.cpp
""".split()

THIRD = ["third_party/roaring_bitmap/roaring.cpp", "third_party/xxhash/xxhash.c"]


class BuildError(Exception):
    pass


def _ccache():
    exe = shutil.which("ccache")
    return [exe] if exe else []


def _env():
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "8G"
    env["CCACHE_NOHASHDIR"] = "1"
    env["CCACHE_COMPILERCHECK"] = "content"
    env.pop("CCACHE_DISABLE", None)
    return env


def _obj(tag, src, flags):
    h = hashlib.sha256(("\0".join(flags) + "\0" + src).encode()).hexdigest()[:16]
    name = os.path.basename(src).rsplit(".", 1)[0]
    return os.path.join(BUILD, "obj", tag, "%s-%s.o" % (name, h))


def compile_all(tag, sources, flags, cxx="g++"):
    """Compiles every source; returns the object paths."""
    outdir = os.path.join(BUILD, "obj", tag)
    os.makedirs(outdir, exist_ok=True)
    env = _env()

    def one(src):
        obj = _obj(tag, src, flags)
        if src.endswith(".c"):
            cmd = _ccache() + ["gcc", "-std=gnu11"] + [f for f in flags if not f.startswith(
                ("-std=", "-fno-access-control", "-Woverloaded", "-include"))]
        else:
            cmd = _ccache() + [cxx] + flags
        cmd += ["-c", src, "-o", obj]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return src, obj, r.returncode, r.stdout.decode(errors="replace")

    objs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        results = list(ex.map(one, sources))
    bad = [(s, o) for s, _, rc, o in results if rc != 0]
    if bad:
        raise BuildError("\n".join("%s\n%s" % (s, o[-3000:]) for s, o in bad[:5]))
    return [o for _, o, _, _ in results]


COMMON = ["-std=c++17", "-O1", "-g1", "-fPIC", "-w", "-pthread"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def flags_base(extra=(), asan=True):
    return COMMON + (ASAN if asan else []) + DEFS + INCS + [
        "-I" + os.path.join(VERIF, "harness")] + list(extra)


def build_base_driver(name, sources, asan=True, extra=(), libs=(), only=None):
    """A driver against the Arrow-free part.  `only`: restrict the library sources."""
    lib = [os.path.join(SRC, s) for s in (only if only is not None else BASE)]
    third = [os.path.join(REPO, s) for s in THIRD]
    tag = "base" + ("-asan" if asan else "")
    if extra:
        tag += "-" + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:8]
    fl = flags_base(extra, asan)
    with locked():
        return _build_base(name, sources, tag, lib + third, fl, asan, extra, libs)


@contextlib.contextmanager
def locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def archive(tag, objs):
    out = os.path.join(BUILD, "obj", tag, "lib.a")
    if os.path.exists(out):
        os.unlink(out)
    subprocess.run(["ar", "rcsT", out] + objs, check=True)
    return out


def _build_base(name, sources, tag, libsrc, fl, asan, extra, libs):
    lib = archive(tag, compile_all(tag, libsrc, fl))
    drv = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in sources]
    objs = compile_all(tag, drv, fl + ["-fno-access-control"]) + [lib]
    return link(name, objs, (ASAN if asan else []) + [f for f in extra if "sanitize" in f],
                ["-lfmt", "-ltbb"] + list(libs))


def link(name, objs, flags, libs):
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", name)
    cmd = ["g++", "-pthread", "-fuse-ld=gold"] + flags + ["-o", out] + objs + libs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return out


def build_sched_driver(name, sources, lib, memory=True, extra=(), libs=()):
    """A driver and the library sources `lib` under the deterministic scheduler.

    memory: every shared memory access of the compiled code is a switch point.
    """
    base = COMMON + DEFS + INCS + ["-I" + os.path.join(VERIF, "harness")] + list(extra)
    mode = ["-DVS_MEMORY"] if memory else ["-DVS_ATOMIC"]
    shim = ["-include", os.path.join(VERIF, "harness/vsched.h")] + mode
    inst = ["-fsanitize=thread"] if memory else ASAN
    tag = "sched" + ("-mem" if memory else "")
    with locked():
        objs = compile_all(tag, [os.path.join(VERIF, "harness/vsched.cpp")],
                           base + mode + ["-DVS_RUNTIME"] + ([] if memory else ASAN))
        objs += compile_all(tag, [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in sources],
                            base + shim + inst + ["-fno-access-control"])
        objs += compile_all(tag, [os.path.join(SRC, s) for s in lib], base + shim + inst)
        return link(name, objs, [] if memory else ASAN, ["-lfmt", "-ltbb"] + list(libs))


# -- the whole core, over the stand-in for the column library ------------------------------------
LITE = os.path.join(VERIF, "arrowlite")
CORE_DIRS = ["common", "core", "fs/local", "format/blob"]
CORE_DEFS = DEFS + ["-DGLOG_USE_GLOG_EXPORT"]


def core_sources():
    out = []
    for d in CORE_DIRS:
        for root, _, files in os.walk(os.path.join(SRC, d)):
            out += [os.path.join(root, f) for f in files
                    if f.endswith(".cpp") and not f.endswith(("_test.cpp", "_benchmark.cpp"))]
    return sorted(out)


def _digest(dirs, extra):
    h = hashlib.sha256("\0".join(extra).encode())
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".c", ".hh", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def flags_core(asan=True, std="-std=c++17"):
    return [std] + COMMON[1:] + (ASAN if asan else []) + CORE_DEFS + INCS + ["-I" + LITE]


CORE_LIBS = ["-lfmt", "-ltbb", "-lzstd", "-llz4"]


def build_core(asan=True):
    """The shared library of everything but the real file formats; kept as long as no source changes."""
    fl = flags_core(asan)
    key = _digest([SRC, os.path.join(REPO, "include"), os.path.join(REPO, "third_party/roaring_bitmap"),
                   os.path.join(REPO, "third_party/xxhash"), LITE], fl)
    tag = "core" + ("-asan" if asan else "")
    home = os.path.join(BUILD, tag)
    out = os.path.join(home, key, "libcore.so")
    if os.path.exists(out):
        return out
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(os.path.dirname(out))
    objs = compile_all(tag, core_sources() + [os.path.join(REPO, s) for s in THIRD] +
                       [os.path.join(LITE, s) for s in ("lite.cpp", "text.cpp", "lite_format.cpp")], fl)
    objs += compile_all(tag, [os.path.join(LITE, "compute.cpp")], flags_core(asan, "-std=c++20"))
    cmd = ["g++", "-shared", "-pthread", "-fuse-ld=gold"] + (ASAN if asan else []) + \
        ["-o", out + ".tmp"] + objs + CORE_LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    os.rename(out + ".tmp", out)
    return out


def build_core_driver(name, sources, asan=True, extra=(), libs=()):
    """A driver against the whole core."""
    with locked():
        lib = build_core(asan)
        fl = flags_core(asan) + ["-I" + os.path.join(VERIF, "harness"), "-fno-access-control"] + list(extra)
        objs = compile_all("core-drv", [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
                                        for s in sources], fl)
        return link(name, objs, (ASAN if asan else []),
                    ["-L" + os.path.dirname(lib), "-lcore", "-Wl,-rpath," + os.path.dirname(lib)] +
                    CORE_LIBS + list(libs))
