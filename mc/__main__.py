import importlib
import os
import sys


def main():
    from . import core
    sys.path.insert(0, core.REPO)
    name = sys.argv[1]
    mod = importlib.import_module('mc.checks.' + name.lower())
    try:
        return core.main(mod, sys.argv[2:])
    finally:
        core.scratch_cleanup()


if __name__ == '__main__':
    sys.exit(main())
