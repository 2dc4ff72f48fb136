import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import core  # noqa


def main():
    pid = sys.argv[1].upper()
    mod = importlib.import_module('checks.' + pid.lower())
    core.import_repo()
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return core.replay(mod, sys.argv[3])
    return core.main(mod)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
