"""Decide one property: `python3 harness/check.py <ID> [--tier quick|thorough]`."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    mod = importlib.import_module("checks." + prop.lower())
    ctx = lib.Ctx(prop, tier, seed)
    try:
        mod.run(ctx)
        return lib.finish(ctx)
    except lib.MachineryError as e:
        print(f"ERROR property={prop} {e}", file=sys.stderr)
        if ctx.mismatches:
            # A verdict already reached by one part of the check stands.
            return lib.finish(ctx)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
