import importlib, os, sys, traceback
from . import common


def main():
    if len(sys.argv) < 2:
        print('usage: python3 -m vf {setup|C01..C20}')
        return 2
    prop = sys.argv[1]
    if prop == 'setup':
        from . import setup
        return setup.main()
    mod = importlib.import_module('vf.' + prop.lower())
    ctx = common.Ctx(prop, getattr(mod, 'LEVEL', 'exploration'))
    try:
        mod.check(ctx)
    except common.InternalError as e:
        if not ctx.violations:
            print('ERROR: %s' % e)
            traceback.print_exc()
            ctx.inconclusive.append(str(e))
    except Exception as e:
        traceback.print_exc()
        ctx.inconclusive.append('internal: %r' % e)
    return ctx.finish()


sys.exit(main())
