"""Prints the table of planted bugs of DESIGN.md section 7 (run by hand; no check uses it)."""
import glob, json, os
ALSO = {"C01-store-offset": "C05, C07, C23", "C05-prop-strict": "C13", "C05-equal-conflict": "C13", "C08-pos-neg-sym": "C10",
        "C11-aux-le": "C02", "C11-abs-lit": "C02", "C13-zero-reason": "C05", "C16-value-thread": "C06", "C16-strings": "C01",
        "C21-antibland": "C01", "C22-scale-later": "C15"}
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*"))):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    c = m["property"] + (f" ({ALSO[n]})" if n in ALSO else "")
    print(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {c} |")
