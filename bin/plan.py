"""Which layer decides what, per property."""
# kani: (substring filter, harness timeout); verus: modules (see /verif/verus); native: prefix
PLAN = {
    "C01": dict(kani=["c01_"]),
    "C02": dict(kani=["c02_"]),
    "C03": dict(kani=["c03_"]),
    "C04": dict(kani=[]),
    "C05": dict(kani=[]),
    "C06": dict(kani=[]),
    "C07": dict(kani=["c07_var", "c07_ubits", "c07_sbits", "c07_trunc_bits", "c07_trunc_var", "c07_array_length", "c07_align"]),
    "C08": dict(kani=[]),
    "C09": dict(kani=[]),
    "C10": dict(kani=["c10_writer"]),
    "C11": dict(kani=[]),
    "C12": dict(kani=["c12_numbits", "c12_contract"]),
    "C13": dict(kani=[]),
    "C14": dict(kani=[]),
}
for k in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"):
    PLAN[k]["verus"] = ["all"]
for k in ("C20", "C21", "C22", "C23", "C24", "C25", "C26"):
    PLAN[k] = dict(suite="gen")
for k, v in PLAN.items():
    v.setdefault("native", k.lower() + "_")
    v.setdefault("kani", [])
    v.setdefault("verus", [])
    v.setdefault("suite", "runtime")
