import importlib
import sys

from mc import core

if __name__ == "__main__":
    pid = sys.argv[1]
    core.import_library()
    sys.exit(core.main(importlib.import_module(f"mc.props.{pid.lower()}"), sys.argv[2:]))
