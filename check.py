#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree (exit 0/1)."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
import props


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        # nothing to build in advance: every check builds from /repo's tree
        core.log('tools:', [t for t in ('java', 'g++', 'clang++') if shutil.which(t)])
        return 0
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = core.TIER = sys.argv[2]
    chk = core.Check(prop)
    with core.Scratch() as scratch:
        props.CHECKS[prop](chk, scratch)
    return chk.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except core.ModelError as e:
        print('MACHINERY ERROR', str(e)[:8000], flush=True)
        rc = 2
    sys.exit(rc)
