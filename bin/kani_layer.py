"""Kani on the contract harnesses (real crate, contract stand-ins for the two bit-stream dependencies)."""
import json, os, re, time
from layers import B, V, Lock, sh
import native

BASE = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--target-dir", os.path.join(B, "kani")]
# outcomes that say nothing about the property
TOOL = re.compile(r"unwinding assertion|recursion unwinding|is not currently supported|unsupported|capacity of the stand-in|CAPACITY", re.I)


def run(ctx):
    if not ctx.plan["kani"]:
        return
    out = os.path.join(B, "kani-%s.json" % ctx.pid)
    if os.path.exists(out):
        os.unlink(out)
    cmd = list(BASE)
    for h in ctx.plan["kani"] + (ctx.plan.get("kani_thorough", []) if ctx.tier != "quick" else []):
        cmd += ["--harness", h]
    to = 240 if ctx.tier == "quick" else 1800
    cmd += ["--harness-timeout", "%ds" % to, "-j", "5", "--output-format", "terse", "--export-json", out]
    with Lock("kani"):
        t = time.time()
        rc, o, e = sh(cmd, cwd=os.path.join(V, "harness_kani"), timeout=max(60, min(ctx.left() - 60, 640 if ctx.tier == "quick" else 7200)))
    ctx.kani_cmd = " ".join(cmd)
    ctx.kani_s = time.time() - t
    ctx.kani_log = (o + e)[-20000:]
    try:
        d = json.load(open(out))
    except Exception:
        ctx.undecided.append("Kani gave no result (exit %s): %s" % (rc, (e or o)[-600:]))
        return
    err = {x["harness_id"]: x for x in d.get("error_details", [])}
    pd = {x["harness_id"]: x.get("property_details") or {} for x in d.get("property_details", [])}
    for r in d["verification_results"]["results"]:
        h = r["harness_id"]
        p = pd.get(h) or {}
        ctx.kani.append(dict(harness=h.split("::")[-1], id=h, status=r["status"], ms=r["duration_ms"],
                             why=(err.get(h) or {}).get("exit_status"), total=p.get("total_properties") or 0, passed=p.get("passed") or 0,
                             failed=p.get("failed") or 0, unreachable=p.get("unreachable") or 0))


def triage(ctx):
    """Failed harness: get the counterexample, replay it on the real code."""
    for k in ctx.kani:
        if k["status"] == "Success":
            if k["total"] == 0:
                ctx.undecided.append("Kani harness %s generated no obligations" % k["harness"])
            continue
        if k["why"] not in (None, "properties_failed") or k["failed"] == 0 and k["why"] is not None and k["why"] != "properties_failed":
            ctx.undecided.append("Kani harness %s: %s" % (k["harness"], k["why"]))
            continue
        if any(v[0] == k["harness"] and v[2] for v in ctx.violations):
            continue        # a failing input is already confirmed
        if ctx.left() < 60:
            ctx.undecided.append("Kani harness %s failed; no time to extract the counterexample" % k["harness"])
            continue
        with Lock("kani"):
            rc, o, e = sh(BASE + ["--harness", k["id"], "--exact", "-Z", "concrete-playback", "--concrete-playback=print"],
                          cwd=os.path.join(V, "harness_kani"), timeout=max(30, min(ctx.left() - 30, 300)))
        txt = o + e
        failed = re.findall(r"Failed Checks: (.*)", txt)
        k["failed_checks"] = failed[:10]
        if not failed or all(TOOL.search(f) for f in failed):
            ctx.undecided.append("Kani harness %s: %s" % (k["harness"], "; ".join(failed[:3]) or "no failing check reported"))
            continue
        ok = False
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", txt, re.S):
            vals = re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))
            draws = " ".join("".join("%02x" % int(b) for b in v.split(",") if b.strip()) for v in vals)
            if native.confirm(ctx, k["harness"], draws, "; ".join(failed[:5]), "Kani counterexample"):
                ok = True
                break
        if not ok:
            r = native.search_one(ctx, k["harness"], ctx.seed + 77, 10_000)
            if r.get("fail"):
                ok = native.confirm(ctx, k["harness"], r["fail"]["draws"], "; ".join(failed[:5]), "search after a failed Kani obligation")
        if not ok:
            real = [f for f in failed if not TOOL.search(f)]
            if any(TOOL.search(f) for f in failed):
                ctx.undecided.append("Kani harness %s: %s" % (k["harness"], "; ".join(failed[:3])))
            else:
                ctx.violation(k["harness"], dict(message="; ".join(real), verifier_output=txt[-6000:]), False)
