#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, checks


def main():
    a = sys.argv[1:]
    if not a:
        print('usage: run.py setup | check ID [--tier quick|thorough] [--seed N] | list')
        return 2
    if a[0] == 'list':
        print('\n'.join(sorted(checks.CHECKS)))
        return 0
    if a[0] == 'setup':
        for t in ('java', 'clang++', 'ninja', 'rsync'):
            if core.sh(['which', t]).returncode:
                print('missing tool', t)
                return 3
        return 0
    if a[0] == 'check':
        pid = a[1]
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        if '--seed' in a:
            seed = int(a[a.index('--seed') + 1])
        f, level = checks.CHECKS[pid]
        c = core.Ctx(pid, tier, seed)
        try:
            f(c)
        except core.ToolError as e:
            if c.violations:
                core.log('after the violation: %s' % e)
                return c.finish(level)
            print('ERROR: %s' % e, flush=True)
            return 3
        except Exception:
            traceback.print_exc()
            return 3
        return c.finish(level)
    return 2


sys.exit(main())
