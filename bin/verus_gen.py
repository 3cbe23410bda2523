"""Verus on the code the generator of /repo emits for the corpus: contracts written from the schemas (bin/vgen.py),
extraction of the generated functions as they are, verification function by function."""
import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from layers import B, V, ENV, Lock, sh
import native, verus_layer as L

PACKAGES = ["zv.consts", "zv.scalars", "zv.enums", "zv.proved"]
# several thousand expressions over every pair of integer types: for C25 only
C25_PACKAGES = ["zv.mixing"]
OUT = os.path.join(B, "gen", "out")
EXPR = re.compile(r"(If|Choice|List|Par\w*|HeadBlock|Sized|BitList|DynBits|User|Computed|Union|Calls|FieldOfField)$")


def props(key):
    """the properties a function of the generated code decides"""
    t, f = key.split("::")[-2:] if "::" in key else ("", key)
    if f.startswith(("c26_", "c25_")):
        return [f[:3].upper()]
    r = {"zserio_write": ["C20", "C23"], "zserio_read": ["C20", "C22"], "zserio_bitsize": ["C21"], "try_from": ["C22", "C26"], "from_u32": ["C22"]}.get(f)
    if r is None:
        return ["C25"] if t in FUNCS else []
    return r + (["C25"] if f in ("zserio_write", "zserio_read") and EXPR.search(t) else [])


FUNCS = ("MixSum", "MixOps", "MixBits", "MixCompare", "MixUnary", "OverSubtypes", "Long", "Sums", "Funcs", "BitSums", "Calls", "CallsList", "FunChoice", "FunUnion")
TRUSTED = [
    "Verus 0.2026.09.13 and Z3; vstd; one SMT query per function, no bound on values, lengths or positions",
    "the contracts of the runtime functions the generated code calls, in /verif/verus: proved by the checks of C03 to C14, assumed here",
    "extraction (/verif/extract) of the generated files: module paths are flattened, attributes, error payloads and format! calls dropped, `x as T`, shifts, bit operations and `!` replaced by functions with the meaning the Rust reference gives them, `assert!` by an obligation on its condition; everything else is the generated text",
    "derived Default, Clone and PartialEq of generated types: defaults of the fields (a constant), an equal value, equality (of types made of integers only)",
    "the reading of the schema in bin/zs.py and bin/vgen.py; band/bor/bxor are uninterpreted, so contracts over them say that the same operation is applied to the same operands",
    "packed functions of generated types (zserio_*_packed, packing contexts) are not extracted: bounded checks only",
]


def packages(pid):
    return PACKAGES + (C25_PACKAGES if pid == "C25" else [])


def text(pid):
    rc, o, e = sh([sys.executable, os.path.join(V, "bin", "vgen.py"), OUT] + packages(pid), timeout=60)
    return (o, "") if rc == 0 else (None, e[-1500:])


def extract(src, overlay, external=(), probe=False):
    os.makedirs(os.path.dirname(src), exist_ok=True)
    r = lambda p: open(os.path.join(V, "verus", p + ".vspec")).read()
    cat = src + ".vspec"
    open(cat, "w").write("".join(map(r, L.PARTS[:-1] + ["gen"])) + overlay + r("end"))
    return L.extracted(cat, src, external, probe)


def strip(k):
    """proved.Leaf::zserio_read as the index of the verified text names it"""
    return k.split(".", 1)[1] if "." in k else k


def KNOWN(x):
    """functions of the generated code under contract"""
    return {strip(f) for f in x["functions"] if "." in f and props(strip(f)) and f not in x["external"]}


def modules(txt):
    """the modules made from the generated code, and the lemmas they rest on"""
    ms, pkg = ["zs"], None
    for l in txt.split("\n"):
        m = re.match(r"pub mod (g_\w+|t_\w+) \{", l)
        if m and m.group(1).startswith("g_"):
            pkg = m.group(1)
        elif m and pkg:
            ms.append(pkg + "::" + m.group(1))
    return ms


def run(ctx):
    with Lock("verus"):
        _run(ctx)


def _run(ctx):
    o, e = text(ctx.pid)
    if o is None:
        ctx.undecided.append("Verus: the contracts of the generated code could not be written: " + e)
        return
    src = os.path.join(B, "verus", "gen.rs")
    external, undec, log = [], {}, []
    for attempt in range(5):
        x = extract(src, o, external)
        if x["rc"]:
            ctx.undecided.append("Verus: extraction of the generated code failed: " + x["err"])
            return
        txt = open(src).read()
        idx = L.index(txt)
        mods = [w for m in modules(txt) for w in ("--verify-module", m)]
        r = L.verify(src, mods + ["--rlimit", "30"], timeout=600)
        es = L.errs(r, idx)
        bad = [k for k in es if not L.PROOF_FAIL.search(k[2]) and not L.TOOLMSG.search(k[2])]
        if r["json"] and not bad and not r["json"]["verification-results"].get("encountered-vir-error"):
            break
        names = {strip(f): f for f in x["functions"]}
        new = {names[k[0]] for k in (bad or es) if k[0] in names and names[k[0]] not in external}
        log += ["%s: %s" % (k[0], k[2]) for k in bad][:4]
        if not new:
            ctx.undecided.append("Verus: the verifier could not take the generated text: " + "; ".join(log)[:1200] + " ".join(r["tool"]))
            return
        for k in new:
            undec[strip(k)] = "not accepted by the verifier in this form (%s)" % next((b[2] for b in bad if b[0] == strip(k)), "")
        external += sorted(new)
    else:
        ctx.undecided.append("Verus: the verifier could not take the generated text: " + "; ".join(log)[:1200])
        return
    fails = {}
    if es and r["json"]:
        # once more, with another seed and more resources
        r2 = L.verify(src, mods + ["--rlimit", "60", "--smt-option", "smt.random_seed=11"], timeout=600)
        k2 = {k[0] for k in L.errs(r2, idx)} if r2["json"] else {k[0] for k in es}
        es = [k for k in es if k[0] in k2]
    base = json.load(open(os.path.join(V, "verus", "gen_baseline.json")))
    for p in x["problems"]:
        undec.setdefault(strip(p.split(": ")[0].replace("contract for ", "")), p)
    for k, mode, msg, clause, rendered in es:
        fails.setdefault(k, (mode, msg, clause, rendered))
    mine = sorted(f for f in KNOWN(x) if ctx.pid in props(f))
    if ctx.pid in ("C25", "C26"):
        mine += sorted({k for k, m in idx.values() if k.startswith(ctx.pid.lower() + "_")})
    ext = {strip(f) for f in x["external"]}
    shapes = {strip(f): s for f, s in x["shapes"].items()}
    why = {}
    for k, (mode, msg, clause, rendered) in fails.items():
        if k in undec:
            why[k] = undec[k]
        elif L.TOOLMSG.search(msg):
            why[k] = "the solver gave up"
        elif mode != "exec" and not k.startswith(("c25_", "c26_")):
            why[k] = "a lemma, not an obligation of the code"
        elif mode == "exec":
            a, b = [s[0] for s in shapes.get(k, [])], [s[0] for s in base["shapes"].get(k, [])]
            if a != b:
                why[k] = "the generated function has another structure than the one the proof was written for"
    missing = [f for f in base["functions"] if f not in KNOWN(x)]
    for f in missing:
        undec.setdefault(f, "no longer in the generated code")
    ran, ms = L.functions_run(r["json"])
    done = [f for f in mine if f not in fails and f not in undec and f not in ext]
    ctx.verus = dict(cmd="vgen.py %s; extract from the generated files; %s" % (" ".join(packages(ctx.pid)), re.sub(r"( --verify-module \S+)+", " --verify-module (every generated module)", r["cmd"])),
                     trusted_base=TRUSTED + L.scan(txt, ext)[:2],
                     functions_under_contract=mine, discharged_functions=done, obligations=len(mine), discharged=len(done),
                     whole_file=dict(functions_verified=r["json"]["verification-results"]["verified"], failed=sorted(fails), solver_ms=ms, wall_s=round(r["wall"], 1), backend="Z3"),
                     types=sorted({f.split("::")[0] for f in KNOWN(x)}), rewrites=x["rewrites"], undecided=undec,
                     note="an obligation is one generated function with its whole contract, for every value of its type, every length and every start position; the schemas are those of the packages named")
    ctx.vgen_failures = [(k, v, why.get(k)) for k, v in fails.items() if ctx.pid in props(k)]
    for k, w in undec.items():
        if ctx.pid in props(k):
            ctx.undecided.append("Verus: %s: %s" % (k, w))


def triage(ctx):
    fs = getattr(ctx, "vgen_failures", [])
    if not fs:
        return
    if not any(v[2] for v in ctx.violations):
        ms = int(max(1500, min(15_000, (ctx.left() - 200) * 1000 * 6 / max(1, len(ctx.names)))))
        with ThreadPoolExecutor(7) as ex:
            for r in ex.map(lambda n: native.search_one(ctx, n, ctx.seed + 77, ms), ctx.names):
                if r.get("fail"):
                    native.confirm(ctx, r["harness"], r["fail"]["draws"], r["fail"]["message"], "search after a failed Verus obligation")
    found = any(v[2] for v in ctx.violations)
    for k, (mode, msg, clause, rendered), why in fs:
        name = "verus:generated %s: %s%s" % (k, msg, ": " + clause[:300] if clause else "")
        if found:
            print("FAILED OBLIGATION: " + name)
        elif why:
            ctx.undecided.append("%s [%s]" % (name, why))
        else:
            ctx.violation(name, dict(message=msg, clause=clause, function=k, verifier_output=rendered), False)


if __name__ == "__main__":
    # records the functions the contracts cover and their structure
    o, e = text("C25")
    x = extract(os.path.join(B, "verus", "gen_base.rs"), o)
    assert x["rc"] == 0 and not x["problems"], (e, x["err"], x["problems"])
    k = KNOWN(x)
    json.dump(dict(functions=sorted(k), shapes={strip(f): s for f, s in x["shapes"].items() if "." in f and strip(f) in k}), open(os.path.join(V, "verus", "gen_baseline.json"), "w"), indent=0, sort_keys=True)
    print(len(k), "functions")
