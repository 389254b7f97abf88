#!/opt/venv/bin/python
"""check.py <property>: run the check of one property (tier and seed from VERIF_TIER/VERIF_SEED)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core

MODULES = ["checks_scoring", "checks_lifecycle", "checks_persist", "checks_jsonl", "checks_tok", "checks_tokfn", "checks_hub", "checks_beir", "checks_timer", "checks_eval", "checks_pickle"]

if __name__ == "__main__":
    prop = sys.argv[1]
    for m in MODULES:
        fn = getattr(importlib.import_module(m), prop, None)
        if fn:
            core.main(fn, prop)
    sys.exit(f"no check for {prop}")
