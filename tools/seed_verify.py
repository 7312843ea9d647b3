#!/usr/bin/env python3
"""Verify planted bugs in scratch copies: patch applies and touches original
lines, builds, stable tests pass, demo 0 on the clean tree and non-zero with
the patch; then report whether the property's check catches it.
usage: seed_verify.py [--no-tests] [--all-checks] [-j N] [ID...]"""
import json, os, re, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "c5abfc991b57907dd529b7f234b365db6e119637"
SC = "/tmp/sv"
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
NS = r"""
import fcntl,socket,struct,sys,subprocess,os
s=socket.socket(socket.AF_INET,socket.SOCK_DGRAM)
f=fcntl.ioctl(s,0x8913,struct.pack('16sh14s',b'lo',0,b''))
fl=struct.unpack('16sh14s',f)[1]|1
fcntl.ioctl(s,0x8914,struct.pack('16sh14s',b'lo',fl,b''))
sys.exit(subprocess.call(sys.argv[1:]))
"""


def in_ns(repo, script, limit=600, extra=""):
    """Run a script with `repo` at /repo, a private /tmp and its own loopback."""
    pre = "mkdir -p %s/tmp && mount --bind %s /repo && mount --bind %s/tmp /tmp && cd /repo && " % (repo + ".d", repo, repo + ".d")
    try:
        p = subprocess.run(["unshare", "-Urmnpf", "--mount-proc", "python3", "-c", NS, "bash", "-c", pre + script], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"


def original_lines(patch):
    """The lines the patch removes or replaces must be lines of the base tree."""
    added = set()
    d = subprocess.run(["git", "-C", "/repo", "diff", BASE, "HEAD", "-U0"], stdout=subprocess.PIPE).stdout.decode()
    f = None
    for l in d.splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        elif l.startswith("+") and not l.startswith("+++"):
            added.add((f, l[1:].strip()))
    bad = []
    n = 0
    for l in patch.splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if (f, l[1:].strip()) in added and len(l.strip()) > 4:
                bad.append(l)
    return n, bad


def verify(sid, tests, allchecks):
    d = os.path.join(ROOT, "seeded", sid)
    w = os.path.join(SC, sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    res = {"id": sid}
    try:
        meta = json.load(open(d + "/meta.json"))
        patch = open(d + "/patch.diff").read()
        res["prop"] = meta["property"]
        n, bad = original_lines(patch)
        if bad:
            res["bad"] = "touches lines of our own: %s" % bad[:2]
        if n == 0:
            res["note"] = "only adds lines"
        repo = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        demo = w + "/demo"
        shutil.copytree(d, demo)
        for f in glob.glob(demo + "/*.diff") + [demo + "/meta.json"]:
            os.unlink(f)
        os.makedirs(repo + ".d/tmp")
        shutil.copytree(demo, repo + ".d/tmp/dm")
        rc, out = in_ns(repo, "bash /opt/vp/build.sh >/dev/null 2>&1; bash /tmp/dm/demo.sh", 320)
        if rc != 0:
            res["bad"] = "demo on the clean tree: %s %s" % (rc, out[-600:])
        a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, stderr=subprocess.PIPE)
        if a.returncode:
            res["bad"] = "does not apply: " + a.stderr.decode()
            return res
        if tests:
            rc, out = in_ns(repo, "bash /opt/vp/test.sh /tmp/out.json", 900)
            try:
                r = json.load(open(repo + ".d/tmp/out.json"))
                miss = [t for t in stable if t not in r["passed"]]
            except Exception as e:
                miss = ["no result: %s %s" % (e, out[-500:])]
            if miss:
                res["bad"] = "tests fail: %s" % miss[:6]
        else:
            in_ns(repo, "bash /opt/vp/build.sh", 300)
        rc, out = in_ns(repo, "bash /tmp/dm/demo.sh", 320)
        res["demo"] = rc
        if rc == 0:
            res["bad"] = "demo passes with the patch"
        vf = w + "/verif"
        subprocess.run("mkdir -p %s && cd %s && cp -a check.py monitors.py known_findings.txt lib harness properties.jsonl %s/" % (vf, ROOT, vf), shell=True, check=True)
        t0 = time.time()
        ids = [meta["property"]] + ([c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"] if c["property"] != meta["property"]] if allchecks else [])
        caught = []
        for i in ids:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            p = subprocess.run(["python3", "check.py", "run", i], cwd=vf, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            if p.returncode == 1 and "VIOLATION property=%s" % i in o:
                caught.append(i)
                res.setdefault("what", o.strip().splitlines()[0][:200])
            elif p.returncode != 0:
                res["note"] = "%s exits %s: %s" % (i, p.returncode, o[-300:])
        res["caught"] = caught
        res["t"] = round(time.time() - t0, 1)
    except Exception as e:
        res["bad"] = repr(e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


def main():
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    allc = "--all-checks" in a
    j = 4
    if "-j" in a:
        k = a.index("-j")
        j = int(a[k + 1])
        del a[k:k + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
    os.makedirs(SC, exist_ok=True)
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: verify(i, tests, allc), ids):
            ok = "BAD " + r["bad"] if r.get("bad") else "ok"
            print("%-22s %-4s %-7s caught=%s %ss | %s %s" % (r["id"], r.get("prop"), ok, ",".join(r.get("caught", [])) or "NO", r.get("t"), r.get("what", ""), r.get("note", "")),
                  flush=True)


main()
