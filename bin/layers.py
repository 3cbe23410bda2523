"""The three layers and the verdict."""
import json, os, re, subprocess, sys, time, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
REPO = "/repo"


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("CARGO_TERM_COLOR", "never")
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode(errors="replace")
    # nothing is built inside /repo or the repository's own target folders
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


ENV = env()


def sh(cmd, cwd=V, timeout=None, env=None, pre=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, errors="replace", timeout=timeout, start_new_session=True, preexec_fn=pre)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-9", "-f", "cbmc --"], capture_output=True) if cmd[0] == "cargo" and "kani" in cmd else None
        f = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, f(e.stdout), f(e.stderr)


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class Broken(Exception):
    """The check itself cannot run (never an alarm)."""


class Ctx:
    def __init__(self, pid, tier, seed, plan, t0):
        self.pid, self.tier, self.seed, self.plan, self.t0 = pid, tier, seed, plan, t0
        self.violations = []      # (what, replay path, has_input)
        self.undecided = []       # strings
        self.verus = None
        self.kani = []            # dicts
        self.native = []          # dicts
        self.assumptions = []
        self.replays = os.path.join(V, "replay")
        self.known = known(pid)
        self.known_hit = {}
        self.notes = []

    def left(self):
        return (780 if self.tier == "quick" else 3 * 3600) - (time.time() - self.t0)

    # ---------------------------------------------------------------- run
    def run(self):
        import native, kani_layer, glob
        for f in glob.glob(os.path.join(self.replays, self.pid + "-*.json")):
            os.unlink(f)
        try:
            native.build(self)
            jobs = []
            with ThreadPoolExecutor(3) as ex:
                if self.plan["verus"]:
                    import verus_layer
                    jobs.append(ex.submit(verus_layer.run, self))
                if self.plan["suite"] == "gen" and self.names:
                    import verus_gen
                    jobs.append(ex.submit(verus_gen.run, self))
                if self.plan["kani"]:
                    jobs.append(ex.submit(kani_layer.run, self))
                jobs.append(ex.submit(native.search, self))
                for j in jobs:
                    j.result()
            kani_layer.triage(self)
            if self.verus is not None and self.plan["verus"]:
                import verus_layer
                verus_layer.triage(self)
            if self.plan["suite"] == "gen":
                import verus_gen
                verus_gen.triage(self)
        except Broken as e:
            print("CHECK-ERROR: %s" % e, file=sys.stderr)
            print(str(e)[-3000:])
            self.evidence()
            sys.exit(2)

    # ---------------------------------------------------------------- results
    def violation(self, name, body, has_input):
        for k in self.known:
            if k.get("match") and re.search(k["match"], name + " " + body.get("message", "")):
                self.known_hit[k["id"]] = k["what"]
                return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s.json" % (self.pid, re.sub(r"\W+", "_", name)[:80]))
        body = dict(body, property=self.pid, obligation=name)
        json.dump(body, open(path, "w"), indent=1)
        self.violations.append((name, path, has_input))

    def finish(self):
        self.evidence()
        for k in self.known:
            if k["kind"] == "known" :
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for u in self.undecided:
            print("UNDECIDED: " + u)
        # alarms with a failing input first
        done = False
        for name, path, has in sorted(self.violations, key=lambda v: not v[2])[:8]:
            done = True
            print("FAILED OBLIGATION: " + name)
            print("VIOLATION property=%s replay=%s%s" % (self.pid, path, "" if has else " no-failing-input-found"))
        return 1 if done else 0

    def evidence(self):
        import evidence
        evidence.write(self)


def known(pid):
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) id=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append(dict(kind="known", id=m.group(2), match=m.group(3), what=m.group(4)))
    return r
