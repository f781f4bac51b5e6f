"""python3 -m nqsa.check C01 [--thorough]"""
import importlib
import sys


def run(argv):
    pid = argv[0]
    mod = importlib.import_module(f"nqsa.rules.{pid.lower()}")
    from .framework import main
    return main(pid, mod.check, mod.EXPLANATION, mod.RULES, argv[1:])


if __name__ == "__main__":
    sys.exit(run(sys.argv[1:]))
