"""Entry point: vh.main <PROPERTY>."""
import importlib, os, sys, traceback

def main():
    pid = sys.argv[1]
    from vh import common
    ctx = common.Ctx(pid)
    mod = importlib.import_module('vh.' + pid.lower())
    try:
        mod.run(ctx)
    except common.MachineryError as e:
        traceback.print_exc(limit=4)
        print('MACHINERY ERROR', file=sys.stderr)
        os._exit(4)
    except BaseException:
        traceback.print_exc()
        os._exit(4)
    rc = ctx.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

main()
