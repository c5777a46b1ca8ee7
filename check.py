#!/usr/bin/env python3
"""Run the check of one property:  check.py C01   or replay a failure:  check.py --replay FILE"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
KNOWN = os.path.join(ROOT, "known_findings.txt")

# config name -> (cargo profile, features)
CONFIGS = {
    "std-checked": ("checked", ["--features", "std"]),
    "nostd-plain": ("plain", []),
    "std-plain": ("plain", ["--features", "std"]),
    "nostd-checked": ("checked", []),
    "bare-plain": ("plain", ["--no-default-features"]),
    "std-optimised": ("optimised", ["--features", "std"]),
}
PAIR = ["std-checked", "nostd-plain"]
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_files():
    out = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def strip_tests(text):
    """Cut `#[cfg(test)]`-like modules off (they come last in this code base) and comments."""
    text = re.split(r"#\[cfg\((?:all\()?test\b[^\n]*\]\s*\n\s*mod \w+ \{", text)[0]
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)


def dictionary():
    """Numeric literals of the library's non-test sources: the generators mix them into inputs."""
    vals = set()
    for f in repo_files():
        if not f.endswith(".rs") or "test" in os.path.relpath(f, REPO):
            continue
        with open(f, encoding="utf-8", errors="replace") as fh:
            text = strip_tests(fh.read())
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?(?![\w])", text):
            try:
                vals.add(float(m.group(1).replace("_", "")))
            except ValueError:
                pass
        for m in re.finditer(r"\b0x([0-9a-fA-F_]+)|\b0b([01_]+)", text):
            g = (m.group(1) or m.group(2)).replace("_", "")
            if g:
                vals.add(float(int(g, 16 if m.group(1) else 2)))
    return ",".join(repr(v) for v in sorted(vals) if v not in (0.0, 1.0))[:20000]


def env():
    e = dict(os.environ)
    e["VH_DICT"] = dictionary()
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e["RUSTFLAGS"] = "-Awarnings"
    return e


def target_dir(cfg):
    return os.path.join(TARGET, cfg)


def freshen(tdir):
    """Cargo compares times; make sure that changed contents with older times are rebuilt too."""
    stamp = os.path.join(tdir, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h and os.path.isdir(tdir):
        for d, ds, _ in os.walk(tdir):
            for x in list(ds):
                if x.startswith("vecmat-") and os.path.basename(d) == ".fingerprint":
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h)


def start_build(cfg, binname):
    prof, feats = CONFIGS[cfg]
    tdir = target_dir(cfg)
    freshen(tdir)
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
           "--target-dir", tdir, "--profile", prof, "--bin", binname] + feats
    return subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), os.path.join(tdir, prof, binname)


def build(cfgs, binname):
    ps = {c: start_build(c, binname) for c in cfgs}
    exes = {}
    for c, (p, exe) in ps.items():
        out, _ = p.communicate()
        if p.returncode != 0:
            log(out)
            log(f"build of {binname} ({c}) failed")
            sys.exit(2)
        exes[c] = exe
    return exes


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) finding=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.labels = {}
        self.known_lines = []
        self.extra = {}
        self.level = "exploration"
        self.assumptions = []

    def replay_path(self, cfg, sub):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        s = re.sub(r"[^A-Za-z0-9]+", "-", sub).strip("-")
        return os.path.join(d, f"{self.pid}-{cfg}-{s}.json")

    def violation(self, cfg, data):
        path = self.replay_path(cfg, data.get("sub", "x"))
        data = dict(data, property=self.pid, config=cfg)
        data["how"] = f"python3 {ROOT}/check.py --replay {path}"
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((path, data))

    def merge(self, cfg, o):
        self.cov["evaluations"] += o["evaluations"]
        self.cov["distinct_nontrivial"] += o["distinct_nontrivial"]
        self.cov["rule"] = o["rule"]
        for l, n in o["labels"].items():
            self.labels[l] = self.labels.get(l, 0) + n
        if len(self.cov["samples"]) < 24:
            self.cov["samples"] += o["samples"][: 24 - len(self.cov["samples"])]
        self.extra.setdefault("per_config", {}).setdefault(cfg, {"evaluations": 0, "nontrivial": 0, "subchecks": o["subchecks"]})
        pc = self.extra["per_config"][cfg]
        pc["evaluations"] += o["evaluations"]
        pc["nontrivial"] += o["nontrivial"]
        for f in o["fails"]:
            self.violation(cfg, dict(f, seed=self.seed))
        kn = known()
        for f in o["findings"]:
            if not f["fails"]:
                continue
            if (self.pid, f["id"]) in kn:
                line = f"KNOWN-FINDING: property={self.pid} {f['id']}: {f['what']}"
                if line not in self.known_lines:
                    self.known_lines.append(line)
            else:
                self.violation(cfg, {"sub": "finding:" + f["id"], "message": f["message"], "input": f["what"], "choices": [], "seed": self.seed})

    def run_exe(self, cfg, exe, args, timeout=800):
        """Run a search to its end; returns its parsed result, or None after recording a crash."""
        out = exe + f".{os.getpid()}.out.json"
        cmd = [exe, "--seed", str(self.seed), "--out", out] + args
        p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p, out, cmd

    def finish_exe(self, cfg, exe, p, out, cmd, timeout=800):
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            log(f"{self.pid} {cfg}: no result within {timeout} s")
            sys.exit(2)
        rc = p.returncode
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                o = json.load(f)
            os.remove(out)
            return o
        if (rc < 0 and -rc in CRASH) or "ERROR: AddressSanitizer" in text:
            # find the case that crashes
            trace = exe + f".{os.getpid()}.trace"
            q = subprocess.run(cmd + ["--threads", "1", "--trace", trace], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            d = {"sub": "crash", "message": (f"the process died of signal {-rc}: " if rc < 0 else "") + (text[text.find("ERROR: AddressSanitizer"):][:400] if "ERROR: AddressSanitizer" in text else text[-400:]), "seed": self.seed, "args": cmd[1:]}
            if (q.returncode not in (0, 1) or "ERROR: AddressSanitizer" in q.stdout) and os.path.exists(trace):
                t = open(trace).read()
                d["sub"], d["case"] = t[:200].strip(), int(t[201:221])
            self.violation(cfg, d)
            return None
        log(text[-3000:])
        log(f"{self.pid} {cfg}: unexpected end {rc}")
        sys.exit(2)

    def finish(self):
        if self.labels:
            self.cov["labels"] = self.labels
        self.cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for l in self.known_lines:
            print(l)
        for path, d in self.violations:
            log(f"  {d.get('config')} {d.get('sub')}: {d.get('message')}\n    input: {d.get('input')}")
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={self.violations[0][0]}", flush=True)
            sys.exit(1)
        print(f"{self.pid}: held on {self.cov['evaluations']} cases, {self.cov['distinct_nontrivial']} distinct non-trivial ({ev['wall_s']} s)")
        sys.exit(0)


# How many times the cases of a check are multiplied: quick, thorough.
SCALES = {"C06": (1, 60), "C25": (4, 150), "C27": (4, 150), "C33": (1, 30), "C36": (4, 100)}


def scale_for(tier, pid):
    quick, thorough = SCALES.get(pid, (8, 400))
    return float(os.environ.get("VERIF_SCALE", quick if tier == "quick" else thorough))


def simple(pid, tier, seed, cfgs=PAIR):
    r = Run(pid, tier, seed)
    exes = build(cfgs, pid.lower())
    scale = scale_for(tier, pid)
    ps = [(c, e) + r.run_exe(c, e, ["--scale", str(scale)]) for c, e in exes.items()]
    for c, e, p, out, cmd in ps:
        o = r.finish_exe(c, e, p, out, cmd, timeout=800 if tier == "quick" else 6 * 3600)
        if o:
            r.merge(c, o)
    r.finish()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid, cfg = d["property"], d["config"]
    import special
    if pid in special.REPLAY:
        sys.exit(special.REPLAY[pid](sys.modules[__name__], d))
    exe = build([cfg], pid.lower())[cfg]
    if d["sub"] == "crash":
        cmd = [exe] + [a for a in d["args"] if a != "--out"]
    elif d.get("choices") is None:
        cmd = [exe, "--replay-sub", d["sub"], "--case", str(d["case"]), "--seed", str(d["seed"])]
    else:
        cmd = [exe, "--replay-sub", d["sub"], "--choices", ",".join(map(str, d["choices"]))]
    p = subprocess.run(cmd, env=env())
    print("reproduced" if p.returncode != 0 else "did not reproduce")
    sys.exit(1 if p.returncode != 0 else 0)


def main():
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    if sys.argv[1] == "--setup":
        # checks build what they need; this only makes sure that the toolchain works here
        build(["std-checked"], "c09")
        print("setup done")
        return
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import special
    if pid in special.CHECKS:
        special.CHECKS[pid](sys.modules[__name__], pid, tier, seed)
    else:
        simple(pid, tier, seed)


if __name__ == "__main__":
    main()
