#!/usr/bin/env python3
"""Supervisor of the runtime monitors.

  check.py PROP [--tier quick|thorough]   run the check of one property
  check.py replay FILE                    run the failing case of a replay file again
  check.py setup                          build both profiles

Rebuilds the harness (and with it the crate in /repo's working tree) in two build profiles, runs
the monitors in worker processes, watches the workers from outside (crash, non-termination,
memory), and writes evidence/<PROP>.json.

Exit 0: held. Exit 1 (and a VIOLATION line): violated. Exit 2: no answer (build or harness error).
"""
import json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
EVID = os.path.join(VERIF, "evidence")
PROFILES = ["checked", "plain"]
# CPU seconds for one case (cases take milliseconds; the slowest known ones a few seconds)
CASE_CPU = 40
CASE_CPU_ALONE = 90
AS_LIMIT = 3 << 30
BUDGET = {"quick": 420, "thorough": 780}

RULES = json.load(open(os.path.join(VERIF, "rules.json")))
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def fail(msg):
    log("CHECK-ERROR " + msg)
    sys.exit(2)


def build():
    """Build vmon in all profiles from /repo's current tree."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".vmon-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "CARGO_PROFILE", "RUSTC_")) or k == "CARGO_TARGET_DIR":
            del env[k]
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    procs = []
    for p in PROFILES:
        # cargo decides by modification times: never trust a previous build
        fp = os.path.join(TARGET, p, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("aws-smt-strings-", "vmon-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        exe = os.path.join(TARGET, p, "vmon")
        if os.path.exists(exe):
            os.remove(exe)
        procs.append((p, subprocess.Popen(["cargo", "build", "--offline", "--quiet", "--profile", p], cwd=HARNESS, env=env,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = None
    for p, q in procs:
        out = q.communicate()[0].decode(errors="replace")
        if q.returncode != 0 or not os.path.exists(os.path.join(TARGET, p, "vmon")):
            bad = f"build of profile {p} failed:\n{out[-4000:]}"
    if bad:
        fail(bad)
    # private copies: another check may rebuild while this one runs
    d = tempfile.mkdtemp(prefix="vmon-")
    for p in PROFILES:
        shutil.copy2(os.path.join(TARGET, p, "vmon"), os.path.join(d, "vmon-" + p))
    lock.close()
    return d


def limits(cpu=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def cpu_of(pid):
    try:
        s = open(f"/proc/{pid}/stat").read()
        f = s[s.rindex(")") + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


class Worker:
    def __init__(self, d, prop, profile, k, n, tier, seed, deadline):
        self.d, self.prop, self.profile, self.k, self.n, self.tier, self.seed = d, prop, profile, k, n, tier, seed
        self.deadline = deadline
        self.fam, self.idx = 0, 0
        self.base = os.path.join(d, f"{profile}-{k}")
        self.lines, self.runs = [], 0
        self.finished = False
        self.start()

    def start(self):
        self.runs += 1
        self.outf = f"{self.base}.out.{self.runs}"
        self.errf = f"{self.base}.err.{self.runs}"
        self.prog = f"{self.base}.progress"
        with open(self.prog, "wb") as f:
            f.write(b"\0" * 24)
        left = max(1, int(self.deadline - time.time()))
        cmd = [os.path.join(self.d, "vmon-" + self.profile), "run", self.prop, "--worker", self.k, "--workers", self.n, "--tier", self.tier,
               "--seed", self.seed, "--profile", self.profile, "--start-family", self.fam, "--start-index", self.idx, "--seconds", left,
               "--max-violations", 1, "--out", self.base + ".hashes", "--progress", self.prog]
        self.p = subprocess.Popen([str(x) for x in cmd], stdout=open(self.outf, "wb"), stderr=open(self.errf, "wb"), stdin=subprocess.DEVNULL,
                                  preexec_fn=limits())
        self.last, self.last_cpu = None, 0.0

    def position(self):
        try:
            b = open(self.prog, "rb").read(24)
            return struct.unpack("<3Q", b)
        except Exception:
            return (0, 0, 0)

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()

    def stuck(self):
        """True when the current case used too much CPU time."""
        pos = self.position()
        cpu = cpu_of(self.p.pid)
        if cpu is None:
            return False
        if pos != self.last:
            self.last, self.last_cpu = pos, cpu
            return False
        return cpu - self.last_cpu > CASE_CPU


def family_names(d, prop):
    out = subprocess.run([os.path.join(d, "vmon-plain"), "families"], stdout=subprocess.PIPE, check=True).stdout.decode()
    r = []
    for l in out.splitlines():
        f = l.split()
        if f[0] == prop:
            r.append({"name": f[1], "quick": int(f[2][6:]), "thorough": int(f[3][9:]), "enumerated": f[4] == "enumerated=true"})
    return r


def run_one(exe, case, cpu=CASE_CPU_ALONE):
    """Run one case in its own process: (verdict, detail)."""
    cmd = [exe, "one", case["property"], "--family", case["family"], "--index", case["index"], "--seed", case["seed"],
           "--profile", case["profile"], "--tier", case["tier"], "--verbose", "0"]
    p = subprocess.run([str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, preexec_fn=limits(cpu))
    out = p.stdout.decode(errors="replace")
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if p.returncode == 0:
        return "held", last
    if p.returncode == 1:
        return "violated", last[len("VIOLATED "):]
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "timeout", f"the case does not end within {cpu} s of CPU time (or was killed)"
    if p.returncode < 0:
        return "crash", f"the process died with signal {-p.returncode} (memory exhausted, stack overflow or abort)"
    return "harness", last


def known():
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            # finding: property=<id> case=<family>:<exact detail>
            if l.startswith("finding: property="):
                prop, rest = l[len("finding: property="):].rstrip("\n").split(" ", 1)
                r.append((prop, rest.removeprefix("case=")))
    return r


def main(prop, tier, seed):
    d = build()
    t_build = time.time() - T0
    try:
        code = check(d, prop, tier, seed, t_build)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


def check(d, prop, tier, seed, t_build):
    fams = family_names(d, prop)
    if not fams:
        fail(f"no families for {prop}")
    ncpu = max(2, len(os.sched_getaffinity(0)))
    per = max(1, ncpu // 2)
    deadline = T0 + BUDGET[tier]
    ws = [Worker(d, prop, pr, k, per, tier, seed, deadline) for pr in PROFILES for k in range(per)]
    found, errors, ends, skipped = [], [], [], []
    grace = deadline + 120

    def case_at(w, fam, idx):
        return {"property": prop, "profile": w.profile, "seed": seed, "tier": tier, "family": fams[fam]["name"], "index": idx, "workers": per, "worker": w.k}

    def collect(w):
        end = None
        for l in open(w.outf, errors="replace"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m["type"] == "violation":
                c = {"property": prop, "profile": w.profile, "seed": seed, "tier": tier, "family": m["family"], "index": m["index"],
                     "workers": per, "worker": w.k, "detail": m["detail"], "kind": "monitor"}
                found.append(c)
            elif m["type"] == "harness":
                errors.append(f"{w.profile} {m['family']}:{m['index']}: {m['detail']}")
            elif m["type"] == "end":
                end = m
        return end

    while not all(w.finished for w in ws) and not found and not errors:
        time.sleep(0.05 if time.time() - T0 < t_build + 10 else 0.2)
        for w in ws:
            if w.finished:
                continue
            rc = w.p.poll()
            if rc is None:
                if w.stuck():
                    fam, idx, _ = w.position()
                    w.kill()
                    c = case_at(w, fam - 1, idx)
                    v, detail = run_one(os.path.join(d, "vmon-" + w.profile), c)
                    if v == "timeout" and c["family"].startswith("giant"):
                        # sizes far beyond use: slowness is no violation, the other families decide termination
                        log(f"# {c['family']}:{idx} ({w.profile}) skipped: {detail}")
                        skipped.append(f"{c['family']}:{idx} {w.profile}")
                        w.fam, w.idx = fam - 1, idx + per
                        w.start()
                    elif v == "held":
                        log(f"# slow case {c['family']}:{idx} ({w.profile}) held when run alone")
                        w.fam, w.idx = fam - 1, idx + per
                        w.start()
                    elif v == "harness":
                        errors.append(detail)
                    else:
                        c["detail"], c["kind"] = detail, v
                        found.append(c)
                elif time.time() > grace:
                    w.kill()
                    errors.append(f"worker {w.profile}-{w.k} did not stop in time at {w.position()}")
                continue
            end = collect(w)
            if end is None:
                # died without a report
                fam, idx, _ = w.position()
                err = open(w.errf, errors="replace").read()[-400:]
                if fam == 0:
                    errors.append(f"worker {w.profile}-{w.k} died at start ({rc}): {err}")
                    w.finished = True
                    continue
                c = case_at(w, fam - 1, idx)
                v, detail = run_one(os.path.join(d, "vmon-" + w.profile), c)
                if v == "held":
                    w.crashes = getattr(w, "crashes", 0) + 1
                    if w.crashes > 3:
                        errors.append(f"worker {w.profile}-{w.k} died repeatedly ({rc}): {err}")
                        w.finished = True
                    else:
                        log(f"# worker died at {c['family']}:{idx} ({rc}), the case held when run alone")
                        w.fam, w.idx = fam - 1, idx + per
                        w.start()
                elif v == "harness":
                    errors.append(detail)
                else:
                    c["detail"], c["kind"] = detail + " " + err.strip()[-200:], v
                    found.append(c)
                continue
            ends.append((w.profile, end))
            if end["state"] == "paused":
                w.fam, w.idx = end["family"], end["index"]
                w.start()
            else:
                w.finished = True
    for w in ws:
        w.kill()

    # listed findings
    kn = known()
    listed = [c for c in found if (prop, f"{c['family']}:{c['detail']}") in kn]
    new = [c for c in found if c not in listed]
    for p, what in kn:
        if p == prop:
            log(f"KNOWN-FINDING: property={prop} {what}")

    code = 0
    if new:
        os.makedirs(EVID, exist_ok=True)
        c = new[0]
        v, _ = run_one(os.path.join(d, "vmon-" + c["profile"]), c)
        c["reproduced_alone"] = v not in ("held", "harness")
        path = os.path.join(EVID, f"replay-{prop}.json")
        c["replay_cmd"] = f"python3 check.py replay {os.path.relpath(path, VERIF)}"
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        log(f"# {c['profile']} {c['family']}:{c['index']}: {c['detail'][:2000]}")
        log(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        for e in errors[:5]:
            log("CHECK-ERROR " + e[:2000])
        code = 2

    # evidence
    stats, famd, samples, slow = {}, {}, [], [0, ""]
    evals = 0
    enum = {p: 0 for p in PROFILES}
    for pr, e in ends:
        evals += e["evals"]
        enum[pr] += e["enumerated"]
        for k, v in e["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
        for n, done, trunc in e["families"]:
            x = famd.setdefault(n, {"cases": 0, "stopped_by_time": False})
            x["cases"] += done
            x["stopped_by_time"] |= bool(trunc)
        samples += e["samples"]
        slow = max(slow, e["slowest"])
    hf = [w.base + ".hashes" for w in ws if os.path.exists(w.base + ".hashes")]
    out = subprocess.run([os.path.join(d, "vmon-plain"), "merge"] + hf, stdout=subprocess.PIPE, check=True).stdout
    distinct = max(enum.values()) + int(out)
    for f in fams:
        if f[tier] and f["name"] in famd:
            famd[f["name"]]["space"] = f[tier]
            famd[f["name"]]["enumerated"] = f["enumerated"]
    if code == 0:
        missing = [f["name"] for f in fams if f[tier] and famd.get(f["name"], {}).get("cases", 0) == 0 and not f["name"].startswith("giant")]
        if evals == 0 or distinct == 0 or missing:
            log(f"CHECK-ERROR nothing observed ({evals} evaluations; families without cases: {missing})")
            code = 2
    r = RULES[prop]
    # a few distinct samples of each family
    by_fam = {}
    for x in samples:
        x = x if len(x) < 600 else x[:600] + "..."
        l = by_fam.setdefault(x[:x.find("]") + 1], [])
        if x not in l:
            l.append(x)
    samples = []
    while len(samples) < 16 and any(by_fam.values()):
        for l in by_fam.values():
            if l:
                samples.append(l.pop(len(l) // 2))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": r["rule"],
            "samples": samples[:24],
            "observed": dict(sorted(stats.items())),
            "families": famd,
            "profiles": {"checked": "overflow checks and the crate's debug assertions on", "plain": "both off"},
            "workers": len(ws),
            "slowest_case_ms": slow,
            "skipped_as_too_slow": skipped,
        },
        "assumptions": r["assumptions"],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    log(f"# {prop} {tier} seed {seed}: {evals} evaluations, {distinct} distinct, {len(new)} violations, build {t_build:.0f} s, total {time.time() - T0:.0f} s")
    return code


def replay(path):
    c = json.load(open(path))
    d = build()
    try:
        v, detail = run_one(os.path.join(d, "vmon-" + c["profile"]), c)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    log(f"{v} {detail}")
    if v in ("violated", "timeout", "crash"):
        log(f"VIOLATION property={c['property']} replay={os.path.abspath(path)}")
        sys.exit(1)
    sys.exit(0 if v == "held" else 2)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "setup":
        shutil.rmtree(build(), ignore_errors=True)
    elif len(a) == 2 and a[0] == "replay":
        replay(a[1])
    elif a and a[0] in RULES:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        if tier not in BUDGET:
            fail(f"unknown tier {tier}")
        try:
            seed = int(os.environ.get("VERIF_SEED", "1")) & ((1 << 63) - 1)
        except ValueError:
            fail("VERIF_SEED is not an integer")
        try:
            main(a[0], tier, seed)
        except SystemExit:
            raise
        except Exception as e:
            import traceback
            traceback.print_exc()
            fail(repr(e))
    else:
        print(__doc__)
        sys.exit(64)
