import importlib, os, sys, traceback
import vlib

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    vlib.watch_calls()
    try:
        import logic.powerflow  # the repository's import cycle resolves from here
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except vlib.Infra as e:
        print("INFRASTRUCTURE ERROR:", e, file=sys.stderr)
        return 3
    except vlib.Endless as e:
        ctx.fail("run", "every call returns", str(e))
        ctx.validated = max(1, ctx.validated)
        return ctx.finish()
    except (OSError, MemoryError, SyntaxError) as e:
        traceback.print_exc()
        if not inside(e):
            return 3
        return judged(ctx)
    except Exception as e:
        # the code raised on a valid input, or what it returned is nothing a result can look like
        traceback.print_exc()
        return judged(ctx)


def inside(e):
    """Did it come from the repository's code (or a library it called)?"""
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    src = os.path.join(vlib.REPO, "src") + os.sep
    harness = os.path.join(vlib.VERIF, "harness") + os.sep
    own = [f for f in frames if f.startswith(src) or f.startswith(harness)]
    return bool(own) and own[-1].startswith(src)


def judged(ctx):
    ctx.fail("run", "valid inputs are processed and give readable results", traceback.format_exc()[-1500:])
    ctx.validated = max(1, ctx.validated)
    return ctx.finish()


rc = main()
vlib.watch_calls(None)
sys.exit(rc)
