#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   |   check.py <property> --replay FILE"""
import os
import sys

if __name__ == "__main__":
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    want = str(int(os.environ.get("VERIF_SEED", "1") or 1) % 4294967295)
    if os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from vlib import core

    prop = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else None
    mod = "props." + prop.lower()
    try:
        if arg == "--replay":
            sys.exit(core.run_check(mod, replay=sys.argv[3]))
        if arg:
            os.environ["VERIF_TIER"] = arg
        sys.exit(core.run_check(mod, tier=arg))
    except core.Machinery as e:
        print("MACHINERY:", e, file=sys.stderr)
        sys.exit(2)
