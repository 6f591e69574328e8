#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.core import main
WHERE = {"C01": "array", "C02": "array", "C03": "array", "C04": "array", "C05": "linked_list", "C06": "linked_list", "C07": "heap", "C08": "spsc", "C09": "spsc", "C10": "spsc", "C11": "spsc", "C12": "array_view", "C13": "tuple", "C14": "delegate", "C15": "delegate", "C16": "scoped", "C17": "bind", "C18": "search", "C19": "search", "C20": "iters", "C21": "linalg", "C22": "linalg", "C23": "linalg", "C24": "linalg", "C25": "hal", "C26": "hal", "C27": "small", "C28": "small", "C29": "small", "C30": "numbers", "C31": "simd", "C32": "traits", "C33": "modules", "C34": "constant", "C35": "small", "C36": "detect", "C37": "headers", "C38": "footprint", "C39": "footprint", "C40": "footprint", "C41": "interop", "C42": "interop", "C43": "interop"}
if __name__ == "__main__":
    p = sys.argv[1]
    m = importlib.import_module("vp.checks." + WHERE[p])
    main(getattr(m, p.lower()), p, getattr(m, "LEVEL", {}).get(p, "model_checking"))
