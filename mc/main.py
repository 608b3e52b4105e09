"""Usage: main.py ID [quick|thorough] [--phase NAME]... | ID --replay FILE"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine  # noqa


def main(argv):
    check = importlib.import_module("mc.checks." + argv[0].lower())
    if len(argv) > 1 and argv[1] == "--replay":
        return engine.replay(check, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = [argv[i + 1] for i, a in enumerate(argv) if a == "--phase"]
    return engine.run_check(check, tier, only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
