"""Verus on functions extracted from /repo: extract, verify, map every failed obligation to its function
and its properties, and decide whether the failure speaks about the code or about the annotations."""
import hashlib, json, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from layers import B, REPO, V, Lock, sh
import native

PARTS = "prelude leaf varint types extern delta deltac deltac2 ints scalars objects array api end".split()
EXTRACT = os.path.join(B, "native", "debug", "extract")

# function -> properties its contract decides (first match)
MAP = [
    (r"^(numbits|bit_length)$", "C12"),
    (r"^align_(reader|writer|bitsize|to)$", "C10"),
    (r"^align_array_element_bitsize$", "C06 C13"),
    (r"^align_array_element_", "C13 C06 C07"),
    (r"^(write|read)_bytes$", "C05 C07"),
    (r"^(write|read)_(un)?signed_bits$", "C03 C07"),
    (r"^(write|read)_float", "C04 C07"),
    (r"^(write|read)_u?int(8|16|32|64)$", "C03 C07"),
    (r"^bitsize_", "C05 C06"),
    (r"^varsize_length$", "C02 C05"),
    (r"^write_(string|bytes_type|extern_type)$", "C05"),
    (r"^read_(string|bytes_type|extern_type)$", "C05 C07 C11"),
    (r"^ExternType::from_object$", "C14"),
    (r"^(to_bytes|to_writer|from_bytes|from_reader)$", "C14"),
    (r"^DeltaContext::(bitsize.*)$", "C06 C09"),
    (r"^DeltaContext::read.*$", "C07 C08"),
    (r"^DeltaContext::(new|init|finish_init|write.*)$", "C08 C09"),
    (r"^PackingContextNode::", "C08 C24"),
    (r"^Array::zserio_bitsize", "C06"),
    (r"^Array::(zserio_read|read_one_element|zserio_read_array_length)$", "C07 C08 C11 C13"),
    (r"^Array::zserio_write$", "C08 C13"),
    (r"::(is_bitsizeof_constant|needs_bitsizeof_position|bitsize_of|bitsize_of_packed|initialize_offsets|initialize_offsets_packed)$", "C06"),
    (r"ArrayTrait::read$", "C07 C13"),
    (r"ArrayTrait::write$", "C13"),
    (r"ArrayTrait::read_packed$", "C07 C08"),
    (r"ArrayTrait::(write_packed|init_context|create_context|to_u64|from_u64|abs_delta)$", "C08 C09"),
]


def props(key):
    for r, p in MAP:
        if re.search(r, key):
            return p.split()
    return []


# a failed obligation that says something more specific than its function
def clause_props(key, msg, clause, mine):
    if "may_allocate" in clause:
        return ["C11"]
    reader = "C07" in mine
    if reader and re.search(r"arithmetic|precondition|overflow|bounds|divisor|bit shift", msg):
        return [p for p in mine if p != "C11"]
    return [p for p in mine if p != "C11"]


TRUSTED = [
    "Verus 0.2026.09.13 and Z3; vstd; one SMT query per function, no bound on input sizes or iterations",
    "extraction (/verif/extract): the rewrites it applies are listed with their counts under coverage.verus.rewrites; module paths are flattened, attributes and error payloads dropped, everything else is the source text",
    "contracts of the bit-stream dependencies: BitReader and BitWriter as sequences of bits with a position (/verif/verus/prelude.vspec)",
    "usize is 64 bits; byte slices and strings hold at most 2^60 bytes",
    "contracts of the functions of core/alloc that the code calls (prelude.vspec: to/from_be_bytes, from_utf8, div_ceil, Vec, Write, Read, half::f16)",
]

SIG = re.compile(r"^\s*(?:pub(?:\([a-z]+\))? )?((?:open |closed |uninterp |broadcast |axiom |const |unsafe |#\[[^\]]*\] )*)(spec |proof |axiom |exec )?fn (\w+)")
IMPL = re.compile(r"^(?:pub )?(impl|trait)\b(.*)")


def index(txt):
    """line -> (key, mode); key as the extractor names it"""
    owner, cur, out = "", ("", ""), {}
    for n, l in enumerate(txt.split("\n"), 1):
        m = IMPL.match(l)
        if m:
            h = m.group(2)
            if m.group(1) == "trait":
                owner = re.match(r"\s*(\w+)", h).group(1)
            else:
                h = re.sub(r"\bwhere\b.*", "", h).split("{")[0]
                if " for " in h:
                    h = h.split(" for ")[-1]
                else:
                    h = re.sub(r"^<[^{]*?>\s+", " ", h, count=1) if h.startswith("<") else h
                w = re.match(r"\s*([\w:]+)", h)
                owner = w.group(1).split("::")[-1] if w else ""
        elif l[:1] not in ("", " ", "\t", "}", "/", "#") and not SIG.match(l):
            pass
        m = SIG.match(l)
        if m:
            if not l.startswith((" ", "\t")):
                owner = ""
            mode = (m.group(2) or "exec").strip()
            cur = ((owner + "::" if owner else "") + m.group(3), mode)
        out[n] = cur
    return out


def subseq(a, b):
    it = iter(b)
    return all(c in it for c in a)


def extract(out, external=(), probe=False):
    os.makedirs(os.path.join(B, "verus"), exist_ok=True)
    cat = os.path.join(B, "verus", os.path.basename(out) + ".vspec")
    open(cat, "w").write("".join(open(os.path.join(V, "verus", p + ".vspec")).read() for p in PARTS))
    return extracted(cat, out, external, probe)


def extracted(cat, out, external=(), probe=False):
    from layers import ENV
    e = dict(ENV, EXTRACT_EXTERNAL=",".join(external))
    if probe:
        e["EXTRACT_PROBE"] = "1"
    rc, o, err = sh([EXTRACT, cat, out, REPO], env=e, timeout=60)
    r = dict(rc=rc, err=err[-800:], problems=[], uncontracted=[], functions=[], rewrites={}, shapes={}, hints={}, external=[])
    for l in o.splitlines():
        w = l.split("\t")
        if w[0] == "REWRITE": r["rewrites"][w[2]] = int(w[1])
        elif w[0] == "PROBLEM": r["problems"].append(w[1])
        elif w[0] == "UNCONTRACTED": r["uncontracted"].append(w[1])
        elif w[0] == "FUNCTION": r["functions"].append(w[1])
        elif w[0] == "EXTERNAL": r["external"].append(w[1])
        elif w[0] == "HINTS": r["hints"][w[1]] = int(w[2])
        elif w[0] == "SHAPE": r["shapes"].setdefault(w[1], []).append((w[2], hashlib.sha1(w[3].encode()).hexdigest()[:12]))
    r["shape_text"] = [l.split("\t") for l in o.splitlines() if l.startswith("SHAPE")]
    return r


def verify(src, extra=(), timeout=300):
    cmd = ["verus", src, "--num-threads", "8", "--multiple-errors", "4", "--output-json", "--time-expanded", "--error-format=json"] + list(extra)
    t = time.time()
    rc, o, e = sh(cmd, timeout=timeout)
    r = dict(rc=rc, wall=time.time() - t, cmd=" ".join(cmd), json=None, errors=[], failed=set(), tool=[])
    try:
        r["json"] = json.loads(o[o.index("{"):])
    except ValueError:
        r["tool"].append("no result: " + (e or o)[-600:])
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans"):
            r["errors"].append(d)
    if r["json"]:
        for m in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m["function-breakdown"]:
                if not f["success"]:
                    r["failed"].add(f["function"])
    return r


def functions_run(j):
    n, ms, q = {}, 0, 0
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m["function-breakdown"]:
            n[f["function"]] = f
            ms += f["time"]
    return n, ms


PROOF_FAIL = re.compile(r"not satisfied|arithmetic underflow|overflow|assertion failed|invariant not|decreases not|division by zero|bounds|possible|may |must ")
TOOLMSG = re.compile(r"rlimit|resource limit|timed out|not supported|does not yet support|The verifier does not")


def errs(r, idx):
    """[(key, mode, message, clause text, rendered)]"""
    out = []
    for d in r["errors"]:
        site, clause = None, ""
        for s in d["spans"]:
            lab = s.get("label") or ""
            if lab.startswith("failed"):
                clause = s["text"][0]["text"].strip() if s["text"] else ""
            elif site is None or s["is_primary"]:
                site = s["line_start"]
        if site is None:
            site = d["spans"][0]["line_start"]
        key, mode = idx.get(site, ("", ""))
        out.append((key, mode, d["message"], clause, d.get("rendered", "")))
    return out


def run(ctx):
    with Lock("verus"):
        ctx.verus = _run(ctx)


def _run(ctx):
    d = os.path.join(B, "verus")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "all.rs")
    external, log = [], []
    undec = {}                    # function -> why it is not decided
    for attempt in range(6):
        x = extract(src, external)
        if x["rc"] != 0:
            ctx.undecided.append("extraction failed: " + x["err"])
            return None
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:24]
        cache = os.path.join(d, "ok-%s.json" % h)
        txt = open(src).read()
        idx = index(txt)
        if os.path.exists(cache):
            r = json.load(open(cache)); r["errors"] = []; r["failed"] = set(); r["cached"] = True
        else:
            r = verify(src)
            # an obligation refused once is tried again with another solver seed and more resources
            if r["json"] and r["errors"] and not r["json"]["verification-results"].get("encountered-vir-error"):
                e1 = errs(r, idx)
                if e1 and all(PROOF_FAIL.search(e[2]) or TOOLMSG.search(e[2]) for e in e1):
                    r2 = verify(src, ["--rlimit", "40", "-V", "no-solver-version-check", "--smt-option", "smt.random_seed=11"])
                    if r2["json"] and not r2["tool"]:
                        k2 = {(e[0]) for e in errs(r2, idx)}
                        r["errors_first"] = e1
                        keep = [d for d, e in zip(r["errors"], e1) if e[0] in k2]
                        r["errors"] = keep
                        r["retried"] = True
        bad = [e for e in errs(r, idx) if not PROOF_FAIL.search(e[2]) and not TOOLMSG.search(e[2])]
        if r["json"] and not bad and not r["json"]["verification-results"].get("encountered-vir-error"):
            break
        # the verifier (or rustc) does not take some function as it is now: assume its contract, say so, go on with the others
        new = {e[0] for e in (bad or errs(r, idx)) if e[0] in x["functions"] and e[0] not in external}
        log += ["%s: %s" % (e[0], e[2]) for e in bad][:6]
        if not new:
            ctx.undecided.append("the verifier could not take the extracted text: " + "; ".join(log)[:1500] + " ".join(r["tool"]))
            return None
        for k in new:
            undec[k] = "not accepted by the verifier in this form (%s)" % next((e[2] for e in bad if e[0] == k), "")
        external += sorted(new)
    else:
        ctx.undecided.append("the verifier could not take the extracted text: " + "; ".join(log)[:1500])
        return None
    if not r["errors"] and not r.get("cached") and not r["tool"]:
        json.dump({k: r[k] for k in ("rc", "wall", "cmd", "json", "tool")}, open(cache, "w"))
    base = json.load(open(os.path.join(V, "verus", "baseline.json")))
    for p in x["problems"]:
        k = p.split(": ")[0].replace("contract for ", "")
        undec.setdefault(k, p)
    helpers = [u for u in x["uncontracted"] if u not in base["uncontracted"]]
    text = {w[1]: w[3] for w in x["shape_text"]}
    for u in helpers:
        undec.setdefault(u, "new function without a contract")
        name = u.split("::")[-1]
        for k, t in text.items():
            if re.search(r"\b%s\b" % name, t) and k != u:
                undec.setdefault(k, "calls %s, which has no contract" % u)
    changed = {}
    for k, v in x["shapes"].items():
        b = base["shapes"].get(k)
        if b is None or [list(s) for s in v] != [list(s) for s in b]:
            changed[k] = (v, b)
    es = errs(r, idx)
    failures = []
    for key, mode, msg, clause, rendered in es:
        failures.append(dict(function=key, mode=mode, message=msg, clause=clause, rendered=rendered))
    ran, ms = functions_run(r["json"])
    mine = sorted({f for f in x["functions"] if ctx.pid in props(f)})
    ext = set(x["external"])
    # is the failure about the code, or about annotations that no longer fit it?
    for f in failures:
        k = f["function"]
        f["why"] = None
        if k in undec:
            f["why"] = undec[k]
        elif f["mode"] != "exec":
            f["why"] = "a lemma, not an obligation of the code"
        elif TOOLMSG.search(f["message"]):
            f["why"] = "the solver gave up"
        elif k in changed and x["hints"].get(k, 0) > 0:
            v, b = changed[k]
            sh_new, sh_old = [s[0] for s in v], [s[0] for s in (b or [])]
            same = sh_new == sh_old or (len(sh_new) == len(sh_old) and all(subseq(a, c) or subseq(c, a) for a, c in zip(sh_new, sh_old)))
            if not same:
                f["why"] = "the function was restructured and its loop invariants and proof hints were written for the old structure"
    nver = r["json"]["verification-results"]["verified"]
    fails = {f["function"] for f in failures}
    done = [f for f in mine if f not in fails and f not in undec and f not in ext]
    v = dict(cmd="extract verus/*.vspec from /repo; " + r["cmd"], trusted_base=TRUSTED + scan(txt, ext),
             functions_under_contract=mine, discharged_functions=done,
             assumed_contracts=sorted(set(mine) & ext),
             obligations=len([f for f in mine if f not in ext]), discharged=len(done),
             whole_file=dict(functions_verified=nver, failed=sorted(fails), solver_ms=ms, wall_s=round(r["wall"], 1), cached=bool(r.get("cached")), backend="Z3"),
             rewrites=x["rewrites"], changed_functions=sorted(changed), undecided=undec,
             note="an obligation here is one function with its whole contract (postconditions, absence of panics and overflow, loop invariants); Verus verified %d functions and lemmas in the same run" % nver)
    ctx.verus_failures = [f for f in failures if ctx.pid in clause_props(f["function"], f["message"], f["clause"], props(f["function"]))]
    for k, why in undec.items():
        if ctx.pid in props(k) or not props(k):
            ctx.undecided.append("Verus: %s: %s" % (k, why))
    if ctx.tier != "quick":
        v["vacuity_probe"] = probe(ctx, x, external)
    return v


def scan(txt, ext):
    """every assumption written into the verified text, found by a scan"""
    r = []
    ax = re.findall(r"(?:axiom fn|broadcast axiom fn|assume_specification[^\[]*\[)\s*([\w:<>\s,&]+)", txt)
    n_ext = len(re.findall(r"external_body", txt))
    n_un = re.findall(r"uninterp spec fn (\w+)", txt)
    r.append("axioms and assumed specifications in the verified text: " + ", ".join(sorted({a.strip() for a in ax})))
    r.append("%d external_body items; uninterpreted functions: %s" % (n_ext, ", ".join(sorted(set(n_un)))))
    r.append("functions of the code whose contract is assumed here: " + ", ".join(sorted(ext)) + " (the variable-length integer functions are decided by the Kani checks of C01 and C02)")
    if re.search(r"\bassume\s*\(", txt) or "admit()" in txt:
        r.append("assume/admit statements in the verified text: %d" % len(re.findall(r"\bassume\s*\(|admit\(\)", txt)))
    return r


def probe(ctx, x, external):
    """assert(false) at the start of every function under contract must be refused"""
    src = os.path.join(B, "verus", "probe.rs")
    extract(src, external, probe=True)
    r = verify(src, timeout=900)
    if not r["json"]:
        return "no result"
    idx = index(open(src).read())
    refused = {e[0] for e in errs(r, idx)}
    passed = [k for k in x["shapes"] if k not in refused and k not in x["external"] and k in x["functions"]]
    return dict(refused=len(refused), accepted=[k for k in passed if "ArrayTrait" not in k or True])


def triage(ctx):
    fs = getattr(ctx, "verus_failures", [])
    if not fs:
        return
    if not any(v[2] for v in ctx.violations):
        ms = int(max(1500, min(20_000, (ctx.left() - 120) * 1000 * 6 / max(1, len(ctx.names)))))
        with ThreadPoolExecutor(7) as ex:
            for r in ex.map(lambda n: native.search_one(ctx, n, ctx.seed + 77, ms), ctx.names):
                if r.get("fail"):
                    native.confirm(ctx, r["harness"], r["fail"]["draws"], r["fail"]["message"], "search after a failed Verus obligation")
    found = any(v[2] for v in ctx.violations)
    seen = set()
    for f in fs:
        name = "verus:%s: %s%s" % (f["function"], f["message"], ": " + f["clause"] if f["clause"] else "")
        if name in seen:
            continue
        seen.add(name)
        if f["why"] and not found:
            ctx.undecided.append("%s [%s]" % (name, f["why"]))
        elif not found:
            ctx.violation(name, dict(message=f["message"], clause=f["clause"], function=f["function"], verifier_output=f["rendered"]), False)
        else:
            print("FAILED OBLIGATION: " + name)
