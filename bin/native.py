"""Contract harnesses executed natively: build, seeded search, replay."""
import json, os, re, resource, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from layers import B, V, ENV, Broken, Lock, sh

CRATE = {"runtime": "harness_native", "gen": "harness_gen"}


def binary(ctx):
    return os.path.join(B, "gentgt" if ctx.plan["suite"] == "gen" else "native", "debug", CRATE[ctx.plan["suite"]])


def build(ctx):
    suite = ctx.plan["suite"]
    with Lock("native-" + suite):
        ctx.names = []
        if suite == "gen":
            import gen
            if not gen.build(ctx):
                return
            rc = 0
        else:
            rc, o, e = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(B, "native")], cwd=os.path.join(V, CRATE[suite]), timeout=840)
        if rc == 0 and (ctx.plan["verus"] or suite == "gen"):
            rc, o, e = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(B, "native")], cwd=os.path.join(V, "extract"), timeout=840)
    if rc != 0:
        raise Broken("native harness does not build:\n" + e[-4000:])
    rc, o, e = sh([binary(ctx), "list"])
    ctx.names = [n for n in o.split() if n.startswith(ctx.plan["native"])]
    if not ctx.names:
        raise Broken("no native harness for " + ctx.pid)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def search_one(ctx, name, seed, ms):
    """Arbitrary input can claim arrays of any number of elements which occupy no bits: such an input takes time and
    memory in proportion to the claimed length, which is not what these harnesses are about.  When a run of them exhausts
    the memory limit or takes seconds the search goes on behind it, unless it never gets anywhere."""
    guard = ctx.plan["suite"] == "gen" and name.startswith("c22_")
    t0, k, spent, done = time.time(), 0, 0, 0
    while True:
        left = int(ms - (time.time() - t0) * 1000) if k else ms
        rc, o, e = sh([binary(ctx), "search", "=" + name, str(seed + 7919 * k), str(max(left, 200))], timeout=ms / 1000 + 120,
                      env=dict(ENV, ZV_GUARD="1") if guard else None, pre=limit if guard else None)
        r = None
        for l in o.splitlines():
            if l.startswith("{"):
                r = json.loads(l)
        k += 1
        exhausted = guard and (rc == 77 or "memory allocation of" in e)
        if r is None and exhausted:
            spent += 1
            done += max([int(n) for n in re.findall(r"ZV-RUNS (\d+)", o)] or [0])
            if k < 12 and (time.time() - t0) * 1000 < max(ms, 20_000):
                continue
            r = dict(harness=name, runs=0, skipped=0, distinct=0, reached=False, sample="", fail=None)
            r["runs"] = done
            if done < 20:
                r.update(died=True, rc=rc, err="every run exhausts memory or time")
        if r is None:
            # the process died (abort, stack overflow) or hung
            r = dict(harness=name, runs=0, skipped=0, distinct=0, reached=False, sample="", died=True, fail=None, rc=rc, err=(o + e)[-1500:])
        if spent:
            r["exhausted"] = spent
        return r


def ms_each(ctx):
    n = max(1, len(ctx.names))
    budget = 40_000 if ctx.tier == "quick" else 900_000     # wall ms on 8 cores
    return int(max(300, min(4000 if ctx.tier == "quick" else 120_000, budget * 6 / n)))


def search(ctx):
    ms = ms_each(ctx)
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda n: search_one(ctx, n, ctx.seed, ms), ctx.names))
    for r in res:
        ctx.native.append(r)
        if r.get("died"):
            # once more: only a repeatable death is a failing run
            r2 = search_one(ctx, r["harness"], ctx.seed, ms)
            if not r2.get("died"):
                r.update(r2); r["died"] = False
        if r.get("died"):
            ctx.violation(r["harness"], dict(message="the process running the harness died or hung: " + r["err"], seed=ctx.seed,
                          reproduce="%s search =%s %d %d" % (binary(ctx), r["harness"], ctx.seed, ms)), True)
        elif r["fail"]:
            confirm(ctx, r["harness"], r["fail"]["draws"], r["fail"]["message"], "native search")


def replay(ctx, name, draws):
    with tempfile.NamedTemporaryFile("w", suffix=".hex", delete=False) as f:
        f.write(draws)
    try:
        rc, o, e = sh([binary(ctx), "replay", name, f.name], timeout=60)
    finally:
        os.unlink(f.name)
    return rc, (o + e).strip()


def confirm(ctx, name, draws, message, source):
    """A failing input counts only if it fails again on the real code."""
    rc, out = replay(ctx, name, draws)
    if rc == 1 or rc < 0 or rc in (101, 134, 139):
        ctx.violation(name, dict(message=message + " | " + out[-800:], input=draws, found_by=source,
                      reproduce="write the input to FILE; %s replay %s FILE" % (binary(ctx), name)), True)
        return True
    return False
