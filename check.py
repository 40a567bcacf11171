#!/usr/bin/python3
"""check.py <property id> [--tier quick|thorough]

Exit 0: the property holds on everything analysed.  Exit 1: violation lines on
stdout.  Exit 2: the analysis could not be carried out."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from common import Check, Broken   # noqa: E402


def main(argv):
    import registry
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    c = Check(pid, tier)
    try:
        registry.CHECKS[pid](c)
        return c.finish()
    except Broken as e:
        if c.violations:
            # what was found stands, even though the rest could not be analysed
            print('analysis incomplete: %s' % e)
            return c.finish()
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv))
