#!/usr/bin/env python3
"""python3 run.py check <property> [quick|thorough]: decides one property. See DESIGN.md."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, harness  # noqa: E402


def main():
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        # Nothing to prepare: every check builds what it needs from /repo's working tree.
        subprocess.run(['cargo', '--version'], env=harness.env(), check=True)
        return 0
    if len(sys.argv) < 3 or sys.argv[1] != 'check':
        print(__doc__)
        return 2
    prop = sys.argv[2]
    if len(sys.argv) > 3:
        os.environ['VERIF_TIER'] = sys.argv[3]
    r = core.Result(prop)
    from vlib import checks
    try:
        checks.CHECKS[prop](r)
    except harness.Broken as e:
        print('ERROR: %s cannot be decided: %s' % (prop, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print('ERROR: timeout: %s' % e)
        return 2
    return core.finish(r)


if __name__ == '__main__':
    sys.exit(main())
