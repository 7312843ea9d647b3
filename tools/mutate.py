#!/usr/bin/env python3
"""Mutation trial of the checks: small random edits of the original sources in
scratch copies, each run through the checks of the file until one objects.
usage: mutate.py OUT.jsonl [-j N] [-n PER_FILE] [-s SEED] [FILE...]"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "array/sc_array.h": "A01 Z01", "queue/sc_queue.h": "Q01 Z01", "linked-list/sc_list.c": "L01", "linked-list/sc_list.h": "L01",
    "heap/sc_heap.c": "H01 Z01", "map/sc_map.c": "P02 P01 Z01", "map/sc_map.h": "P02 P01", "buffer/sc_buf.c": "B01 B03 B02 Z01",
    "buffer/sc_buf.h": "B01 B03 B02", "crc32/sc_crc32.c": "R01", "ini/sc_ini.c": "I01 I02 Z01", "option/sc_option.c": "O01",
    "string/sc_str.c": "U02 U01 S01 Z01", "uri/sc_uri.c": "Y01 Z01", "timer/sc_timer.c": "X01 Z01", "condition/sc_cond.c": "C01",
    "mutex/sc_mutex.c": "M01", "thread/sc_thread.c": "T01 Z01", "logger/sc_log.c": "G01 G03 G02 Z01", "signal/sc_signal.c": "N01 N02",
    "memory-map/sc_mmap.c": "F01", "perf/sc_perf.c": "E01", "socket/sc_sock.c": "K04 K03 K02 K01 Z01", "time/sc_time.c": "W01",
    "sc/sc.c": "S02 S03 S01", "sc/sc.h": "S02 S03", "buffer/sc_buf.h": "B03",
}
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("<", "<="), (">", ">="), ("&&", "||"), ("||", "&&")]


def line_mutants(l):
    out = []
    s = l.strip()
    if not s or s.startswith(("#", "//", "*", "/*", "assert")):
        return out
    code = l.rstrip("\\ \t")
    tail = l[len(code):]
    cont = tail
    mask = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group(0)), code)

    def rep(a, b, new, tag):
        out.append((tag, code[:a] + new + code[b:] + cont))
    for m in re.finditer(r"(?<![-<>=!&|+*/^])(<=|>=|==|!=|<|>|&&|\|\|)(?![<>=])", mask):
        if m.group(1) in "<>" and not re.search(r"\s[<>]\s", code[max(0, m.start() - 1):m.end() + 1]):
            continue
        for o, n in REL:
            if o == m.group(1):
                rep(m.start(), m.end(), n, "%s->%s" % (o, n))
                break
    for m in re.finditer(r"\s([-+*/%&|])\s(?!=)", mask):
        o = m.group(1)
        n = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "&": "|", "|": "&"}[o]
        if o == "*" and re.search(r"\b(char|void|struct \w+|int|T|const)\s$", mask[:m.start() + 1]):
            continue
        rep(m.start(1), m.end(1), n, "%s->%s" % (o, n))
    for m in re.finditer(r"\s[-+]\s1\b", mask):
        rep(m.start(), m.end(), "", "drop%s" % m.group(0))
    for m in re.finditer(r"(?<![\w.\"])(\d+)(u?)(?![\w.])", mask):
        v = int(m.group(1))
        for d in ((1,) if v == 0 else (v + 1, v - 1)):
            rep(m.start(), m.end(), "%d%s" % (d, m.group(2)), "%d->%d" % (v, d))
    for m in re.finditer(r"\b(true|false)\b", mask):
        rep(m.start(), m.end(), "false" if m.group(1) == "true" else "true", "bool")
    m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$", code)
    if m:
        out.append(("cond0", m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3) + cont))
        if "while" not in m.group(1):
            out.append(("cond1", m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3) + cont))
    if re.match(r"^\s*[^{}]*;$", code) and not re.match(r"^\s*(return|case|default|uint\d+_t|int\d+_t|double|u?int\w*|typedef|extern|struct|const|char|int|uint|size_t|void \*|bool|static|unsigned|long)\b", code) \
            and code.count("(") == code.count(")"):
        out.append(("delete", re.match(r"^\s*", code).group(0) + ";" + cont))
    for m in re.finditer(r"<<|>>", mask):
        rep(m.start(), m.end(), ">>" if m.group(0) == "<<" else "<<", "shift")
    for m in re.finditer(r"\s(\|=|&=|\+=|-=)\s", mask):
        rep(m.start(1), m.end(1), {"|=": "=", "&=": "|=", "+=": "-=", "-=": "+="}[m.group(1)], "assign")
    for m in re.finditer(r"!(?=[\w(])", mask):
        rep(m.start(), m.end(), "", "not")
    m = re.match(r"^(\s*)return ([^;]+);$", code)
    if m and m.group(2) not in ("0", "-1", "NULL", "true", "false"):
        out.append(("ret0", m.group(1) + "return 0;" + cont))
    return [(t, x) for t, x in out if x != l]


def mutants(path):
    lines = open(path).read().split("\n")
    res = []
    com = False
    for i, l in enumerate(lines):
        if "/*" in l and "*/" not in l:
            com = True
        if not com:
            for t, x in line_mutants(l):
                res.append((i, t, l, x))
        if "*/" in l:
            com = False
    return lines, res


def objs(repo, f):
    """Object code of the file under several configurations: equal to the original's = no mutant."""
    d = os.path.dirname(f)
    src = f
    if f.endswith(".h"):
        if True:
            c = [x for x in os.listdir(repo + "/" + d) if x.endswith("_test.c")]
            assert c, d
            src = d + "/" + c[0]
    r = b""
    for fl in ([], ["-D__STDC_NO_ATOMICS__"], ["-DHAVE_CRC32C", "-DSC_HAVE_CRC32C", "-msse4.2"], ["-DSC_ARRAY_MAX=100", "-DSC_QUEUE_MAX=100", "-DSC_HEAP_MAX=100", "-DSC_MAP_MAX=100"]):
        p = subprocess.run(["gcc", "-std=c99", "-O1", "-w", "-DHAVE_BACKTRACE=1", "-U__FILE__", "-D__FILE__=\"f\"", "-S", "-o", "-", "-I" + d, src] + fl, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if p.returncode and not fl:
            return None
        r += p.stdout
    return hashlib.sha1(r).hexdigest()


def trial(a):
    k, f, i, t, old, new, base = a
    w = "/tmp/mut/%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/verif")
    res = {"file": f, "line": i + 1, "op": t, "old": old.strip(), "new": new.strip()}
    try:
        subprocess.run("git -C /repo archive HEAD | tar x --one-top-level=%s/repo" % w, shell=True, check=True)
        p = w + "/repo/" + f
        ls = open(p).read().split("\n")
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        o = objs(w + "/repo", f)
        if o is None or o == base:
            res["r"] = "no build" if o is None else "same code"
            return res
        subprocess.run("cd %s && cp -a check.py monitors.py known_findings.txt lib harness properties.jsonl %s/verif/" % (ROOT, w), shell=True, check=True)
        res["r"] = "SURVIVES"
        t0 = time.time()
        for c in CHECKS[f].split():
            e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
            try:
                q = subprocess.run(["python3", "check.py", "run", c], cwd=w + "/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired:
                res["odd"] = c + " timeout"
                continue
            if q.returncode == 1:
                res["r"] = "killed " + c
                res["what"] = q.stdout.decode(errors="replace").splitlines()[0][:160]
                res.pop("odd", None)
                break
            if q.returncode != 0:
                res["odd"] = "%s: %s" % (c, q.stdout.decode(errors="replace")[-200:])
        res["t"] = round(time.time() - t0, 1)
    except Exception as e:
        res["r"] = "error " + repr(e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    opt = {"-j": 2, "-n": 40, "-s": 1}
    for o in list(opt):
        if o in a:
            k = a.index(o)
            opt[o] = int(a[k + 1])
            del a[k:k + 2]
    rnd = random.Random(opt["-s"])
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    jobs = []
    shutil.rmtree("/tmp/mut/base", ignore_errors=True)
    subprocess.run("mkdir -p /tmp/mut; git -C /repo archive HEAD | tar x --one-top-level=/tmp/mut/base", shell=True, check=True)
    for f in (a or CHECKS):
        if not os.path.exists("/repo/" + f):
            print("no", f)
            continue
        lines, ms = mutants("/repo/" + f)
        base = objs("/tmp/mut/base", f)
        assert base, f
        rnd.shuffle(ms)
        ms = [m for m in ms if (f, m[0] + 1, m[3].strip()) not in done]

        def live(a):
            """Does the object code change?"""
            k, (i, t, old, new) = a
            w = "/tmp/mut/c%d" % k
            shutil.copytree("/tmp/mut/base", w)
            ls = list(lines)
            ls[i] = new
            open(w + "/" + f, "w").write("\n".join(ls))
            o = objs(w, f)
            shutil.rmtree(w)
            return o is not None and o != base
        n = 0
        while ms and n < opt["-n"]:
            part, ms = ms[:opt["-n"] - n], ms[opt["-n"] - n:]
            with ThreadPoolExecutor(8) as ex:
                for m, ok in zip(part, ex.map(live, enumerate(part))):
                    if ok:
                        n += 1
                        jobs.append((f,) + m + (base,))
        print(f, n, "chosen", flush=True)
    rnd.shuffle(jobs)
    fh = open(out, "a")
    with ThreadPoolExecutor(opt["-j"]) as ex:
        for r in ex.map(trial, [(k,) + j for k, j in enumerate(jobs)]):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


main()
