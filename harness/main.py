"""check <property id> [--tier quick|thorough]"""
import argparse
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
from registry import REGISTRY  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    mod, fn = REGISTRY[a.property]
    ctx = core.Ctx(a.property, a.tier, seed)
    try:
        getattr(importlib.import_module(mod), fn)(ctx)
    except core.CheckError as e:
        if not ctx.violations:
            print("CHECK ERROR: %s" % e)
            if not a.keep:
                shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
        print("note: a later stage failed: %s" % str(e)[:500])
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            if not a.keep:
                shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
        traceback.print_exc()
    if a.keep:
        print("scratch kept:", ctx.scratch)
        real, ctx.scratch = ctx.scratch, "/nonexistent"
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
