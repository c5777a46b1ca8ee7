"""Checks that need more than one search binary in two configurations."""
import json, math, os, subprocess, sys, tempfile, time

# ---------------------------------------------------------------- C36: six builds of the same cases
# The last but one has no optional feature of the library at all, the last is optimised.
BUILDS = ["std-checked", "nostd-plain", "std-plain", "nostd-checked", "bare-plain", "std-optimised"]


def _same(a, b):
    """None if two result lines agree, else what differs. The second part of a line needs optional features: "-" without."""
    (a, c), (b, d) = a.split("\t|\t"), b.split("\t|\t")
    return _same_part(a, b) or (None if "-" in (c, d) else _same_part(c, d))


def _same_part(a, b):
    """A digest, then groups `tol,x,y,...`."""
    x, y = a.split("\t"), b.split("\t")
    if x[0] != y[0]:
        return "exact results differ"
    if len(x) != len(y):
        return "another number of results"
    for g, h in zip(x[1:], y[1:]):
        if g == h:
            continue
        p, q = [float(t) for t in g.split(",")], [float(t) for t in h.split(",")]
        if len(p) != len(q):
            return "another number of components"
        tol = max(p[0], q[0])
        for s, t in zip(p[1:], q[1:]):
            if s == t or (math.isnan(s) and math.isnan(t)) or abs(s - t) <= tol:
                continue
            return f"{s} and {t} (allowed difference {tol})"
    return None


def _eval(m, exes, sub, seqs, scratch):
    """Result lines of choice sequences in every build: [(recorded choices, [line per build])]."""
    src = os.path.join(scratch, "seqs")
    with open(src, "w") as f:
        for s in seqs:
            f.write(",".join(map(str, s)) + "\n")
    ps = []
    for c, e in exes.items():
        out = os.path.join(scratch, "res." + c)
        ps.append((c, out, subprocess.Popen([e, "--out", out, "--sub", sub, "--choices", src], env=m.env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    cols = {}
    for c, out, p in ps:
        _, err = p.communicate(timeout=300)
        if p.returncode != 0:
            return None
        cols[c] = [l.split("\t", 1) for l in open(out).read().splitlines()]
    res = []
    for i in range(len(seqs)):
        recs = {cols[c][i][0] for c in exes}
        rec = [int(t) for t in cols[BUILDS[0]][i][0].split(",") if t]
        res.append((rec if len(recs) == 1 else None, [cols[c][i][1] for c in exes]))
    return res


def _differs(lines):
    for l in lines[1:]:
        d = _same(lines[0], l)
        if d:
            return d
    return None


def _shrink(m, exes, sub, choices, scratch, end):
    key = lambda c: (len(c), sum(x.bit_length() for x in c), c)
    best = choices
    for _ in range(40):
        if time.time() > end:
            break
        cand = []
        n = len(best)
        size = n
        while size > 0:
            for i in range(0, n - size + 1, size):
                cand.append(best[:i] + best[i + size:])
            size //= 2
        for i in range(n):
            for v in {0, best[i] >> 32, best[i] >> 8, best[i] >> 1, best[i] - 1}:
                if 0 <= v < best[i]:
                    cand.append(best[:i] + [v] + best[i + 1:])
        res = _eval(m, exes, sub, cand[: max(64, min(4000, 200_000 // (n + 1)))], scratch)
        if res is None:
            break
        good = []
        for rec, lines in res:
            if rec is None or not _differs(lines):
                continue
            while rec and rec[-1] == 0:
                rec = rec[:-1]
            if key(rec) < key(best):
                good.append(rec)
        if not good:
            break
        best = min(good, key=key)
    return best


def _detail(m, exes, sub, choices, scratch):
    """Input and the results that differ."""
    files = {}
    for c, e in exes.items():
        out = os.path.join(scratch, "det." + c)
        subprocess.run([e, "--out", out, "--sub", sub, "--detail", ",".join(map(str, choices))], env=m.env(), stdout=subprocess.DEVNULL, timeout=120, check=True)
        files[c] = open(out).read().splitlines()
    first = files[BUILDS[0]]
    msgs = []
    for c in list(exes)[1:]:
        for a, b in zip(first[1:], files[c][1:]):
            if a == b:
                continue
            ka, ta, va = a.split("\t")
            vb = b.split("\t")[2]
            d = "exact results" if ka == "exact" else _same_part("0\t" + va, "0\t" + vb)
            if d:
                msgs.append(f"{ta}: {va} in {BUILDS[0]}, {vb} in {c}")
    return first[0], "; ".join(msgs[:6])


def c36(m, pid, tier, seed):
    r = m.Run(pid, tier, seed)
    exes = m.build(BUILDS, "c36")
    scale = m.scale_for(tier, pid)
    if tier != "quick":
        scale /= 4
    r.cov["rule"] = "a case that exercises at least one operation on a non-empty value; distinct by its recorded choices"
    with tempfile.TemporaryDirectory(dir=m.TARGET) as scratch:
        ps = []
        for c, e in exes.items():
            out = os.path.join(scratch, "out." + c)
            log = open(os.path.join(scratch, "err." + c), "w+")
            ps.append((c, e, out, log, subprocess.Popen([e, "--out", out, "--seed", str(seed), "--scale", str(scale)], env=m.env(), stdout=log, stderr=subprocess.STDOUT)))
        died = []
        for c, e, out, log, p in ps:
            p.wait(timeout=6 * 3600)
            if p.returncode < 0 and -p.returncode in m.CRASH:
                died.append((c, p.returncode))
            elif p.returncode != 0:
                log.seek(0)
                m.log(log.read()[-3000:])
                m.log(f"{pid} {c}: unexpected end {p.returncode}")
                sys.exit(2)
        if died and len(died) < len(ps):
            c, rc = died[0]
            r.violation(c, {"sub": "crash", "message": f"only {', '.join(x[0] for x in died)} died of signal {-rc}", "seed": seed, "args": ["--seed", str(seed), "--scale", str(scale)]})
            r.finish()
        if died:
            m.log("all builds died: not a difference between builds")
            sys.exit(2)
        fails = {}
        distinct = set()
        subs = {}
        n_lines = 0
        fs = [open(x[2]) for x in ps]
        for rows in zip(*fs):
            rows = [x.rstrip("\n").split("\t", 5) for x in rows]
            a = rows[0]
            n_lines += 1
            sub = a[0]
            subs[sub] = subs.get(sub, 0) + 1
            if any(x[:4] != a[:4] for x in rows[1:]):
                m.log(f"{pid}: builds generated different inputs for {sub} case {a[1]}")
                sys.exit(2)
            if a[2] == "1":
                distinct.add(a[0] + a[3])
            d = _differs([x[5] for x in rows])
            if d and len(fails.setdefault(sub, [])) < 1:
                fails[sub].append((int(a[1]), d))
            elif a[4] and len(r.cov["samples"]) < 24 and len(subs) % 4 == 1:
                r.cov["samples"].append(f"{sub} case {a[1]}: " + _detail(m, {BUILDS[0]: exes[BUILDS[0]]}, sub, a[4].split(","), scratch)[0][:400])
        for f in fs:
            f.close()
        r.cov["evaluations"] = n_lines * len(BUILDS)
        r.cov["distinct_nontrivial"] = len(distinct)
        r.cov["explored"] = {"cases": n_lines, "builds": BUILDS, "subchecks": len(subs)}
        end = time.time() + 120  # for shrinking them all
        for sub, l in sorted(fails.items())[:4]:
            case, d = l[0]
            # the choices of that case
            out = os.path.join(scratch, "rec")
            subprocess.run([exes[BUILDS[0]], "--out", out, "--seed", str(seed), "--scale", str(scale), "--only", sub, "--record"], env=m.env(), timeout=3600, check=True)
            ch = []
            for line in open(out):
                x = line.split("\t", 5)
                if x[0] == sub and int(x[1]) == case:
                    ch = [int(t) for t in x[4].split(",") if t]
            ch = _shrink(m, exes, sub, ch, scratch, end)
            shown, msg = _detail(m, exes, sub, ch, scratch)
            r.violation("builds", {"sub": sub, "case": case, "message": msg or d, "input": shown, "choices": ch, "seed": seed})
        for sub, l in sorted(fails.items())[4:]:
            r.violation("builds", {"sub": sub, "case": l[0][0], "message": l[0][1], "input": "", "choices": None, "seed": seed})
    r.finish()


def c36_replay(m, d):
    exes = m.build(BUILDS, "c36")
    with tempfile.TemporaryDirectory(dir=m.TARGET) as scratch:
        if d.get("choices") is None:
            rcs = [subprocess.run([e, "--out", os.path.join(scratch, "o"), "--seed", str(d["seed"]), "--scale", d.get("args", ["", "", "", "1"])[3]], env=m.env()).returncode for e in exes.values()]
            print("ends of the builds:", rcs)
            bad = len({rc < 0 for rc in rcs}) > 1
        else:
            shown, msg = _detail(m, exes, d["sub"], d["choices"], scratch)
            print("input:", shown)
            bad = bool(msg)
            print("FAIL: " + msg if bad else "PASS")
    print("reproduced" if bad else "did not reproduce")
    return 1 if bad else 0


# ---------------------------------------------------------------- C06: Miri and AddressSanitizer
SHARDS = 8


def _miri_cmd(m):
    e = m.env()
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    tdir = os.path.join(m.TARGET, "miri")
    m.freshen(tdir)
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--manifest-path", os.path.join(m.HARNESS, "Cargo.toml"),
            "--target-dir", tdir, "--bin", "c06", "--features", "std", "--"], e


def _miri_built(m):
    cmd, e = _miri_cmd(m)
    p = subprocess.run(cmd + ["--list"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        m.log(p.stdout[-4000:])
        m.log("cannot run under Miri")
        sys.exit(2)


def _asan_start(m):
    e = m.env()
    e["RUSTFLAGS"] = "-Zsanitizer=address -Awarnings"
    tdir = os.path.join(m.TARGET, "asan")
    m.freshen(tdir)
    t = "x86_64-unknown-linux-gnu"
    p = subprocess.Popen(["cargo", "+nightly", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(m.HARNESS, "Cargo.toml"), "--target", t,
                          "--target-dir", tdir, "--profile", "checked", "--bin", "c06", "--features", "std"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, os.path.join(tdir, t, "checked", "c06")


def _verdict(text):
    """The error Miri found, or None."""
    for l in text.splitlines():
        if l.startswith("error: Undefined Behavior") or l.startswith("error: abnormal termination") or l.startswith("error: the evaluated program"):
            return l[7:]
        if "unsafe precondition(s) violated" in l:
            return l
    return None


def _miri_replay(m, sub, choices, timeout=120):
    cmd, e = _miri_cmd(m)
    p = subprocess.run(cmd + ["--replay-sub", sub, "--choices", ",".join(map(str, choices))], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def _miri_shrink(m, sub, choices, budget):
    import concurrent.futures as cf, time
    end = time.time() + budget
    best = choices
    key = lambda c: (len(c), sum(x.bit_length() for x in c))

    def bad(c):
        if time.time() > end:
            return None
        try:
            return c if _verdict(_miri_replay(m, sub, c)[1]) else None
        except subprocess.TimeoutExpired:
            return None

    with cf.ThreadPoolExecutor(SHARDS) as ex:
        while time.time() < end:
            cand, n = [], len(best)
            size = n
            while size > 0:
                cand += [best[:i] + best[i + size:] for i in range(0, n - size + 1, size)]
                size //= 2
            cand += [best[:i] + [0] + best[i + 1:] for i in range(n) if best[i]]
            cand = [c for c in cand if key(c) < key(best)][:64]
            good = [c for c in ex.map(bad, cand) if c is not None]
            if not good:
                break
            best = min(good, key=key)
    return best


def c06(m, pid, tier, seed):
    r = m.Run(pid, tier, seed)
    quick = tier == "quick"
    scale = m.scale_for(tier, pid)
    scale = scale if quick else scale / 3
    limit = 700 if quick else 6 * 3600
    asan, exe = _asan_start(m)
    _miri_built(m)
    cmd, e = _miri_cmd(m)
    with tempfile.TemporaryDirectory(dir=m.TARGET) as scratch:
        ps = []
        for k in range(SHARDS):
            out, trace, err = (os.path.join(scratch, f"{x}{k}") for x in ("out", "trace", "err"))
            f = open(err, "w")
            ps.append((out, trace, err, subprocess.Popen(cmd + ["--seed", str(seed), "--scale", str(scale), "--threads", "1", "--shard", f"{k}/{SHARDS}", "--out", out, "--trace", trace], env=e, stdout=f, stderr=subprocess.STDOUT)))
        text, _ = asan.communicate(timeout=800)
        if asan.returncode != 0:
            m.log(text[-4000:])
            m.log("build with AddressSanitizer failed")
            sys.exit(2)
        os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        a = r.run_exe("asan", exe, ["--scale", str(300 * scale)])
        found = []
        for out, trace, err, p in ps:
            try:
                p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                for x in ps:
                    x[3].kill()
                m.log(f"{pid}: Miri did not finish within {limit} s")
                sys.exit(2)
            text = open(err, errors="replace").read()
            if p.returncode in (0, 1) and os.path.exists(out):
                r.merge("miri", json.load(open(out)))
                continue
            v = _verdict(text)
            if not v or not os.path.exists(trace):
                m.log(text[-4000:])
                m.log(f"{pid}: Miri ended with {p.returncode}")
                sys.exit(2)
            t = open(trace).read()
            found.append((t[:200].strip(), int(t[201:221]), v, text))
        r.extra["per_config"] = r.extra.get("per_config", {})
        for n, (sub, case, v, text) in enumerate(sorted(found)[:3]):
            log = os.path.join(scratch, "choices")
            if os.path.exists(log):
                os.remove(log)
            subprocess.run(cmd + ["--replay-sub", sub, "--case", str(case), "--seed", str(seed), "--choice-log", log], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            ch = [int(x) for x in open(log).read().split()] if os.path.exists(log) else []
            if n == 0:
                ch = _miri_shrink(m, sub, ch, 60 if quick else 300)
                text = _miri_replay(m, sub, ch)[1]
            shown = [l for l in text.splitlines() if l.startswith("input: ")]
            where = [l.strip() for l in text.splitlines() if l.strip().startswith("-->") or " inside " in l][:6]
            r.violation("miri", {"sub": sub, "case": case, "message": _verdict(text) or v, "input": " ".join(shown) or "; ".join(where), "where": where, "choices": ch, "seed": seed})
        o = r.finish_exe("asan", exe, *a, timeout=limit)
        if o:
            r.merge("asan", o)
    r.finish()


def c06_replay(m, d):
    if d["config"] == "miri":
        _miri_built(m)
        rc, text = _miri_replay(m, d["sub"], d["choices"])
        print(text[-4000:])
        bad = rc != 0
    else:
        p, exe = _asan_start(m)
        text, _ = p.communicate()
        if p.returncode != 0:
            m.log(text)
            return 2
        e = m.env()
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        if d["sub"] == "crash":
            cmd = [exe] + [a for a in d["args"] if a != "--out"]
        elif d.get("choices") is None:
            cmd = [exe, "--replay-sub", d["sub"], "--case", str(d["case"]), "--seed", str(d["seed"])]
        else:
            cmd = [exe, "--replay-sub", d["sub"], "--choices", ",".join(map(str, d["choices"]))]
        bad = subprocess.run(cmd, env=e).returncode != 0
    print("reproduced" if bad else "did not reproduce")
    return 1 if bad else 0


CHECKS = {"C06": c06, "C36": c36}
REPLAY = {"C06": c06_replay, "C36": c36_replay}
