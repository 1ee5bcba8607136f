"""Entry point of the child process started by check.py."""
import importlib
import json
import os
import sys
import traceback

from . import core


def known_findings(pid):
    fn = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(argv):
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            d = json.load(f)
        ctx = core.Ctx(d["property"], "quick", 0)
        try:
            core.validate(ctx, d["module"], d["traces"], d["tab"])
        finally:
            ctx.cleanup()
        for fn, bad, tid in ctx.violations:
            print("rejected:", tid, bad)
        return 1 if ctx.violations else 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(pid, tier, seed)
    try:
        try:
            core.load_pymech()
        except Exception as e:  # the library cannot even be imported
            traceback.print_exc()
            core.report(ctx, "import", dict(id="import", ev=[str(e)]), {}, [(0, "import pymech failed")])
            mod = None
        else:
            from . import props
            mod = getattr(props, pid)
            try:
                mod(ctx)
            except core.MachineryError:
                raise
            except Exception as e:
                # an error of the driver, unless it comes out of the library while the driver prepares an object,
                # or an object of the library lacks an attribute
                tb, text = e.__traceback__, traceback.format_exc()
                frames = [f.filename for f in traceback.extract_tb(tb)]
                lacks = isinstance(e, AttributeError) and type(e.obj).__module__.startswith("pymech")
                if not lacks and not any(f.startswith(core.SRC + os.sep) for f in frames):
                    # the driver may have tripped over what the library made: judge what was recorded before
                    if ctx.live is not None and ctx.live.ev:
                        w = ctx.live
                        core.validate(ctx, w.module, [w.trace()], w.pal.tab() if w.pal else None, label="live")
                    raise
                print(text)
                core.report(ctx, "prepare", dict(id="prepare", ev=[text]), {}, [(0, "an object could not be prepared: " + repr(e))])
        known = known_findings(pid)
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        core.write_evidence(ctx, "model_checking")
        for fn, bad, tid in ctx.violations:
            first = bad[0]
            print(f"rejected trace {tid}: event {first[0]}: {first[1]}")
        if ctx.violations:
            print(f"VIOLATION property={pid} replay={ctx.violations[0][0]}")
            return 1
        print(f"OK property={pid} traces={ctx.cov['traces_validated_against_impl']} "
              f"events={ctx.cov['events_validated']} states={ctx.cov['states']} wall={ctx.elapsed():.1f}s")
        return 0
    except core.MachineryError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        if ctx.violations:
            core.write_evidence(ctx, "model_checking")
            print(f"VIOLATION property={pid} replay={ctx.violations[0][0]}")
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            core.write_evidence(ctx, "model_checking")
            print(f"VIOLATION property={pid} replay={ctx.violations[0][0]}")
            return 1
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
