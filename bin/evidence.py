import json, os, time
from layers import V

TB_COMMON = [
    "rustc, the Rust standard library, and the crates num, half, thiserror, duplicate",
]
TB_KANI = [
    "Kani 0.68 / CBMC 6.11 and its SAT back end; termination is not checked by Kani",
    "contract stand-ins /verif/models/{bitreader,rust-bitwriter} for the two bit-stream dependencies (the native layer runs the same harnesses against the real crates)",
    "stubs: alloc::fmt::format returns an empty text, core::result::unwrap_failed panics without formatting",
]


def write(ctx):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    import manifest_levels
    level = manifest_levels.LEVEL.get(ctx.pid, "exploration")
    ev = sum(r["runs"] for r in ctx.native)
    cov = dict(
        evaluations=ev,
        distinct_nontrivial=sum(r["distinct"] for r in ctx.native),
        rule="contract harnesses run on the real code with seeded boundary-biased random inputs; a case is non-trivial when it meets the precondition of the contract, and distinct by its drawn values",
        samples=[dict(harness=r["harness"], input=r["sample"]) for r in ctx.native if r.get("sample")][:6],
        native_harnesses=len(ctx.native),
        native_never_reached=[r["harness"] for r in ctx.native if r["runs"] == r["skipped"] and not r.get("died")],
    )
    tb = list(TB_COMMON)
    obligations = discharged = 0
    if ctx.kani:
        tb += TB_KANI
        full = [k for k in ctx.kani if k["total"]]
        obligations += sum(k["total"] for k in ctx.kani)
        discharged += sum(k["total"] - k["failed"] for k in full if k["status"] == "Success")
        cov["kani"] = dict(
            harnesses=[dict(harness=k["harness"], status=k["status"], obligations=k["total"], unreachable=k["unreachable"], solver_ms=k["ms"],
                            kind=kind(k["harness"])) for k in ctx.kani],
            solver_s=round(sum(k["ms"] for k in ctx.kani) / 1000, 1), wall_s=round(getattr(ctx, "kani_s", 0), 1))
    if ctx.verus:
        v = ctx.verus
        tb += v["trusted_base"]
        obligations += v["obligations"]
        discharged += v["discharged"]
        cov["verus"] = {k: v[k] for k in v if k not in ("trusted_base", "raw", "errors_raw")}
        if "types" in v:
            # the programs: generated types; each of their functions is compared with the contract its schema gives it
            cov["programs"] = len(v["types"])
            cov["disagreements_checked"] = v["obligations"]
            cov["samples"] = v["discharged_functions"][:: max(1, len(v["discharged_functions"]) // 12)] + cov["samples"]
    cov["obligations"] = obligations
    cov["discharged"] = discharged
    cov["checker_cmd"] = "; ".join(x for x in [getattr(ctx, "kani_cmd", ""), (ctx.verus or {}).get("cmd", "")] if x) or "native harness only"
    cov["trusted_base"] = tb
    if ctx.undecided:
        cov["undecided"] = ctx.undecided
    cov["failed_obligations"] = [v[0] for v in ctx.violations]
    cov["explanation"] = manifest_levels.NOTE.get(ctx.pid, "")
    d = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
             assumptions=tb + ctx.assumptions, wall_s=round(time.time() - ctx.t0, 1), violations=len(ctx.violations))
    json.dump(d, open(os.path.join(V, "evidence", ctx.pid + ".json"), "w"), indent=1)


def kind(h):
    import manifest_levels
    return manifest_levels.kani_kind(h)
