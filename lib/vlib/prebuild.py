"""Compiles everything the checks will link: each check's run() with everything but the builds left out."""
import glob
import importlib.util
import os
import traceback

from . import build, check


class DryCtx(check.Ctx):
    def model(self, *a, **kw):
        return None

    def flawed(self, *a, **kw):
        return None

    def drive(self, *a, **kw):
        return None

    def validate(self, *a, **kw):
        return None

    def simple(self, *a, **kw):
        return None


def main():
    for path in sorted(glob.glob(os.path.join(build.VERIF, "checks", "c*.py"))):
        pid = os.path.basename(path)[:-3].upper()
        print("building for", pid, flush=True)
        spec = importlib.util.spec_from_file_location(pid, path)
        mod = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(mod)
            mod.run(DryCtx(pid, "model_checking"))
        except Exception:  # the check itself will report it
            traceback.print_exc()
    return 0
