"""python -m mc.run <property> [--replay FILE] [--only FAMILY[,FAMILY]]"""

import importlib
import json
import os
import sys

from mc import core


if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    replay = only = None
    while args:
        a = args.pop(0)
        if a == '--replay':
            with open(args.pop(0)) as fh:
                replay = json.load(fh)
        elif a == '--only':
            only = set(args.pop(0).split(','))
        else:
            raise SystemExit('unknown argument %r' % a)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    from mc import env
    mod = importlib.import_module('mc.checks.' + prop.lower())
    if hasattr(mod, 'STATEMENTS'):
        from mc import steps
        steps.insert(mod.STATEMENTS)
    env.install()
    ck = core.Check(prop, mod.LEVEL, mod.TECHNIQUE, tier, seed, replay, only)
    ck.rule = mod.RULE
    ck.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    ck.start_watchdog()
    try:
        mod.run(ck)
    except core.Stop:
        pass
    except core.Hang as e:
        ck.report('harness', 'hang', e)
    except Exception as e:
        # Exploration code outside a single case failed: the code under
        # test no longer offers the behaviour the exploration starts from.
        import traceback
        traceback.print_exc()
        try:
            ck.report('setup', 'exploration aborted', e)
        except core.Stop:
            pass
    ck.stop_watchdog()
    return ck.finish()


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    finally:
        from mc import scratch
        scratch.remove_all()
    sys.stdout.flush()
    os._exit(rc)
