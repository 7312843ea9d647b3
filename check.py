#!/usr/bin/env python3
"""Builds and runs the monitors of one property.

  check.py setup              verify the tool chain
  check.py run ID             quick or thorough (VERIF_TIER), seeded by VERIF_SEED
  check.py replay FILE        run the recorded failing case again

Exit 0: held on everything explored.  1: violation.  2: no answer (machinery).
"""
import concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
import monitors  # noqa: E402

WRAP_ALLOC = ["malloc", "calloc", "realloc", "free"]
SAN = {
    # pointer-overflow and nonnull-attribute flag harmless idioms (NULL + 0,
    # memcpy(NULL, x, 0)); everything else is fatal.
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment,vptr",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=1"],
    "none": [],
}


def log(*a):
    print(*a, flush=True)


class Broken(Exception):
    pass


def read_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what>' lines."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def build(var, bdir):
    """Compile one variant from /repo's working tree; returns the binary."""
    cc = var.get("cc", "clang" if var["san"] == "msan" else "gcc")
    out = os.path.join(bdir, var["name"])
    repo_src = [os.path.join(REPO, s) for s in var["repo"]]
    incs = sorted({os.path.dirname(s) for s in repo_src} | {os.path.join(REPO, d) for d in var.get("inc", [])})
    own = [os.path.join(ROOT, "harness", h) for h in var["harness"]]
    own.append(os.path.join(ROOT, "lib", "vt.c"))
    wraps = list(var.get("wraps", []))
    if var.get("alloc", True):
        own.append(os.path.join(ROOT, "lib", "vt_alloc.c"))
        wraps += WRAP_ALLOC
    san = SAN[var["san"]]
    base = [cc, "-g", var.get("opt", "-O1"), "-fno-omit-frame-pointer", "-w", "-pthread", "-fno-builtin", "-U_FORTIFY_SOURCE"] + san
    base += ["-I" + os.path.join(ROOT, "lib")] + ["-I" + i for i in incs]
    base += ["-D" + d for d in var.get("defs", [])]
    jobs, objs = [], []
    for n, s in enumerate(repo_src + own):
        o = "%s.%d.o" % (out, n)
        objs.append(o)
        cmd = list(base)
        is_repo = n < len(repo_src)
        if is_repo:
            # as the project builds it: C99 without extensions
            cmd += [var.get("std", "-std=c99"), "-DHAVE_BACKTRACE=1"] + var.get("repo_flags", [])
            cmd += ["-D" + d for d in var.get("repo_defs", [])]
            if cc == "gcc":
                # what is read without having been written is the same nonsense every time
                cmd += ["-ftrivial-auto-var-init=pattern"]
        else:
            cmd += ["-std=gnu11"]
        cmd += ["-c", s, "-o", o]
        jobs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for cmd, p in jobs:
        txt = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            raise Broken("compile failed: %s\n%s" % (" ".join(cmd), txt[-3000:]))
    cmd = [cc, "-pthread"] + san + objs + ["-o", out] + ["-Wl,--wrap=" + w for w in wraps] + var.get("libs", []) + ["-lm"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Broken("link failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
    for o in objs:
        os.unlink(o)
    return out


def run_env(var):
    e = {k: v for k, v in os.environ.items() if not k.startswith("NOTIFY_")}
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=71:abort_on_error=0:" \
                        "detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=64:" + var.get("asan_opt", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=72"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=73:second_deadlock_stack=1:" + var.get("tsan_opt", "")
    e["MSAN_OPTIONS"] = "exitcode=74:allocator_may_return_null=1"
    return e


class Shard:
    def __init__(self, pid, var, binary, k, n, cases, budget, seed, tier, work):
        self.pid, self.var, self.bin, self.k, self.n = pid, var, binary, k, n
        self.cases, self.budget, self.seed, self.tier = cases, budget, seed, tier
        self.tmp = os.path.join(work, "%s.%d" % (var["name"], k))
        os.makedirs(self.tmp, exist_ok=True)
        self.first = 0
        self.part = 0
        self.t_end = time.time() + budget
        self.stats = []
        self.proc = None
        self.done = False

    def argv(self, stats, prog, only=None):
        a = [self.bin, "--seed", str(self.seed), "--tier", self.tier, "--salt", str(self.var.get("salt", 0)), "--tmp", self.tmp]
        if only is not None:
            a += ["--from", str(only), "--step", "1", "--cases", str(only + 1)]
        else:
            a += ["--from", str(self.k), "--step", str(self.n), "--cases", str(self.cases),
                  "--first", str(self.first), "--budget", "%.1f" % max(0.1, self.t_end - time.time())]
        if stats:
            a += ["--stats", stats]
        if prog:
            a += ["--progress", prog]
        return a

    def start(self):
        self.part += 1
        self.st = os.path.join(self.tmp, "stats.%d" % self.part)
        self.prog = os.path.join(self.tmp, "progress.%d" % self.part)
        self.err = os.path.join(self.tmp, "err.%d" % self.part)
        with open(self.err, "wb") as ef, open(os.devnull, "rb") as nul:
            self.proc = subprocess.Popen(self.argv(self.st, self.prog), stdin=nul, stdout=ef, stderr=ef,
                                         env=run_env(self.var), start_new_session=True, cwd=self.tmp)
        self.seen = None
        self.seen_at = time.time()

    def progress(self):
        try:
            with open(self.prog, "rb") as f:
                d = f.read(16)
            if len(d) == 16:
                return struct.unpack("<QQ", d)
        except OSError:
            pass
        return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()


def run_only(sh, case, limit, verbose=False):
    """Run one case alone; returns (code or None for a hang, output)."""
    out = os.path.join(sh.tmp, "only.%d" % case)
    a = sh.argv(None, None, only=case) + (["--verbose", "1"] if verbose else [])
    with open(out, "wb") as ef, open(os.devnull, "rb") as nul:
        p = subprocess.Popen(a, stdin=nul, stdout=ef, stderr=ef, env=run_env(sh.var), start_new_session=True, cwd=sh.tmp)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(out, errors="replace") as f:
        return rc, f.read()


def fail_key(text):
    m = re.search(r"VT-FAIL key=(\S+)", text)
    return m.group(1) if m else "-"


def summary(text):
    for pat in (r"VT-FAIL .*", r"ERROR: AddressSanitizer.*", r".*runtime error.*", r"WARNING: ThreadSanitizer.*",
                r"WARNING: MemorySanitizer.*", r".*Assertion .* failed.*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)[:600]
    t = text.strip().splitlines()
    return (t[-1] if t else "no output")[:300]


def judge(sh, case, code, text, hang, notes):
    """Decide what an abnormal end means: ('violation', text) / ('ignore', why) / ('broken', why)."""
    lim = sh.var.get("case_limit", 60)
    if code == 80:
        return "broken", summary(text)
    mode = sh.var.get("confirm", "any")
    if hang:
        # A stuck case is believed only if it sticks again, alone, with more time.
        rc, t2 = run_only(sh, case, lim * 2)
        if rc is None:
            return "violation", "case %d does not finish (waited %d s, then %d s alone)\n%s" % (case, lim, lim * 2, text[-4000:] + t2[-4000:])
        if rc == 0:
            notes.append("%s case %d was slow once and finished when run alone" % (sh.var["name"], case))
            return "ignore", "slow"
        if rc == 80:
            return "broken", summary(t2)
        return "violation", t2
    if mode == "any":
        # The execution that was observed counts; the re-run only tells whether it is deterministic.
        rc, t2 = run_only(sh, case, lim * 2)
        tag = "reproduced alone" if rc not in (0, None, 80) else "not reproduced alone (schedule or history dependent)"
        return "violation", text + "\n[%s]\n" % tag
    # 'repeat': measurements of elapsed time; believed when seen again in a majority of reruns
    hits = 0
    last = text
    for _ in range(3):
        rc, t2 = run_only(sh, case, lim * 2)
        if rc not in (0, 80) or rc is None:
            hits += 1
            last = t2
    if hits >= 2:
        return "violation", last
    notes.append("%s case %d: %s seen once, %d/3 on re-run: not counted" % (sh.var["name"], case, summary(text), hits))
    return "ignore", "timing"


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = monitors.PROPS[pid]
    bdir = os.path.join(ROOT, "build", pid)
    work = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    known = read_known()
    viol = None
    found = {}
    notes = []
    stats = []
    variants = [v for v in cfg["variants"] if tier == "thorough" or not v.get("thorough_only")]
    ev_path = os.path.join(ROOT, "evidence", pid + ".json")
    try:
        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                bins = dict(zip([v["name"] for v in variants], ex.map(lambda v: build(v, bdir), variants)))
        except Broken as e:
            log("BROKEN: property=%s %s" % (pid, e))
            return 2
        t_build = time.time() - t0
        pending = []
        for v in variants:
            cases = v["cases"][1 if tier == "thorough" else 0]
            budget = v.get("budget", (max(60, 240 // len(variants)), 780 // len(variants)))[1 if tier == "thorough" else 0]
            n = max(1, min(v.get("shards", 8), cases))
            for k in range(n):
                pending.append((v, k, n, cases, budget))
        pending.sort(key=lambda p: p[0]["name"] != "giant")  # long cases first
        running = []
        slots = cfg.get("slots", 8)
        while (pending or running) and viol is None:
            while pending and len(running) < slots:
                # exclusive variants (timing) do not share the machine
                v, k, n, cases, budget = pending[0]
                if v.get("exclusive") and running and not all(r.var["name"] == v["name"] for r in running):
                    break
                if running and any(r.var.get("exclusive") and r.var["name"] != v["name"] for r in running):
                    break
                pending.pop(0)
                sh = Shard(pid, v, bins[v["name"]], k, n, cases, budget, seed, tier, work)
                sh.start()
                running.append(sh)
            time.sleep(0.02)
            for sh in list(running):
                rc = sh.proc.poll()
                pr = sh.progress()
                hang = False
                if rc is None:
                    if pr != sh.seen:
                        sh.seen, sh.seen_at = pr, time.time()
                    if time.time() - sh.seen_at > sh.var.get("case_limit", 60):
                        hang = True
                        sh.kill()
                    else:
                        continue
                if not hang:
                    try:  # leftovers of the monitored process (forked children)
                        os.killpg(sh.proc.pid, signal.SIGKILL)
                    except OSError:
                        pass
                if rc == 0 and not hang:
                    stats.append((sh.var["name"], sh.st))
                    running.remove(sh)
                    continue
                with open(sh.err, errors="replace") as f:
                    text = f.read()[-60000:]
                if pr is None:
                    if hang or rc == 80 or sh.part > 1:
                        log("BROKEN: property=%s %s did not start: %s" % (pid, sh.var["name"], summary(text)))
                        for r in running:
                            r.kill()
                        return 2
                    case = sh.k
                else:
                    case = pr[0]
                what, detail = judge(sh, case, rc, text, hang, notes)
                if what == "broken":
                    log("BROKEN: property=%s %s: %s" % (pid, sh.var["name"], detail))
                    for r in running:
                        r.kill()
                    return 2
                if what == "violation":
                    key = fail_key(detail)
                    if (pid, key) in known:
                        found[key] = known[(pid, key)]
                    else:
                        viol = (sh, case, detail)
                        break
                # go on behind the case
                if os.path.exists(sh.st):
                    stats.append((sh.var["name"], sh.st))
                sh.first = (case - sh.k) // sh.n + 1
                if sh.k + sh.first * sh.n >= sh.cases or time.time() > sh.t_end:
                    running.remove(sh)
                else:
                    sh.start()
        for sh in running:
            if sh.proc.poll() is None:
                sh.kill()
        # ---------------------------------------------------------- evidence
        tot_cases = tot_events = 0
        classes, samples, hashes = {}, [], set()
        per = {}
        for name, st in stats:
            if not os.path.exists(st):
                continue
            d = json.load(open(st))
            tot_cases += d["cases"]
            tot_events += d["events"]
            p = per.setdefault(name, {"cases": 0, "oracle_decisions": 0})
            p["cases"] += d["cases"]
            p["oracle_decisions"] += d["events"]
            for k, n in d["classes"].items():
                classes[k] = classes.get(k, 0) + n
            for s in d["samples"]:
                if len(samples) < 8 and s not in samples:
                    samples.append(s)
            hp = st + ".hash"
            if os.path.exists(hp):
                raw = open(hp, "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
              "coverage": {"evaluations": tot_cases, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                           "samples": samples, "oracle_decisions": tot_events, "classes_seen": dict(sorted(classes.items())),
                           "per_variant": per, "build_s": round(t_build, 1)},
              "assumptions": cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
        if notes:
            ev["coverage"]["set_aside"] = notes[:20]
        if found:
            ev["coverage"]["known_findings"] = found
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if viol:
            sh, case, detail = viol
            rp = os.path.join(ROOT, "replays", "%s-%s-%d-%d.json" % (pid, sh.var["name"], seed, case))
            with open(rp, "w") as f:
                json.dump({"property": pid, "variant": sh.var["name"], "seed": seed, "tier": tier, "case": case,
                           "summary": summary(detail), "output": detail[-30000:],
                           "how": "python3 /verif/check.py replay " + rp}, f, indent=1)
            log("property %s, monitor %s, case %d: %s" % (pid, sh.var["name"], case, summary(detail)))
            log("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        for k, w in found.items():
            log("KNOWN-FINDING: property=%s %s" % (pid, w))
        missing = [c for c in cfg.get("must_see", []) if c not in classes]
        if tot_events == 0 or len(hashes) < 2 or not samples or missing:
            log("BROKEN: property=%s observed too little (events=%d distinct=%d missing=%s)" % (pid, tot_events, len(hashes), missing))
            return 2
        log("property %s held: %d cases, %d oracle decisions, %d distinct behaviours, %.1f s%s" % (
            pid, tot_cases, tot_events, len(hashes), time.time() - t0, (" [%s]" % "; ".join(notes[:3])) if notes else ""))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    cfg = monitors.PROPS[d["property"]]
    var = [v for v in cfg["variants"] if v["name"] == d["variant"]][0]
    work = tempfile.mkdtemp(prefix="vt_replay_")
    try:
        b = build(var, work)
        sh = Shard(d["property"], var, b, 0, 1, 1, 60, d["seed"], d["tier"], work)
        rc, text = run_only(sh, d["case"], 300, verbose=True)
        sys.stdout.write(text)
        log("exit code", rc)
        if rc != 0:
            log("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "t.c")
        open(src, "w").write("#include <stdlib.h>\nint main(void){char*p=malloc(4);p[3]=1;int r=p[3]-1;free(p);return r;}\n")
        for name, fl in SAN.items():
            cc = "clang" if name == "msan" else "gcc"
            exe = os.path.join(d, name)
            r = subprocess.run([cc, "-g"] + fl + [src, "-o", exe])
            if r.returncode != 0:
                log("setup: %s with %s does not compile" % (cc, name))
                return 1
            r = subprocess.run([exe], env=run_env({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            log("setup: %s %s runs: %s %s" % (cc, name, r.returncode == 0, r.stdout.decode(errors="replace")[:200]))
    return 0


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == "run":
        sys.exit(run(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
