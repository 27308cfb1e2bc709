"""check.py <property> [quick|thorough]  |  check.py replay <file>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

FAMILY = {**{f"C{k:02d}": "modelcheck" for k in range(1, 14)}, "C29": "modelcheck", "C16": "annealcheck", "C17": "annealcheck", "C18": "annealcheck", "C14": "solvecheck", "C15": "solvecheck", "C19": "solvecheck", "C28": "nppcheck", "C27": "iocheck", **{f"C{k}": "streamcheck" for k in range(20, 27)}}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    common.setup_env()
    if prop == "replay":
        import json

        fam = FAMILY[json.load(open(sys.argv[2]))["property"]]
        return __import__(fam).replay(sys.argv[2])
    try:
        return __import__(FAMILY[prop]).run(prop, tier, seed)
    except common.Machinery as e:
        print(f"ERROR property={prop} {e}")
        return 3
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
