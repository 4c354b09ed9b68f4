#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N]   |   check.py --selftest"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("OPENBLAS_NUM_THREADS") != "1":
    os.environ.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                      QISKIT_PARALLEL="FALSE", PYTHONWARNINGS="ignore")
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from vf import selftest
        return selftest.main()
    from vf import core
    try:
        return core.run_check(a.prop.upper(), a.tier, a.seed)
    except Exception:
        import traceback
        traceback.print_exc()
        print(f"ERROR property={a.prop}: the check itself failed")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
