"""Plants and evaluates bugs (development only; no check uses this).
 seed.py make SPEC.py        SPEC defines SEEDS=[dict(id,prop,edits=[(file,old,new)],demo=str,needs,breaks)]
 seed.py eval [ID...]        runs the property's check against each planted bug
Works in a scratch copy /tmp/sw of /repo."""
import sys, os, subprocess, json, re, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"
S = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def prep():
    if not os.path.isdir(W):
        assert sh("git clone -q /repo %s" % W).returncode == 0
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)" % W)
    assert r.returncode == 0, r.stdout
    sh("sed 's#^R=/repo B=/repo/_build#R=%s B=%s/_build#' /opt/vp/build.sh > /tmp/sw-build.sh" % (W, W))


def build():
    r = sh("bash /tmp/sw-build.sh")
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    r = sh("cd %s && LC_ALL=C TZ=UTC TERM=dumb python3 /opt/vp/run_baselines.py %s %s/_build %s/_build/_test > /tmp/sw-res.txt" % (W, W, W, W))
    t = open("/tmp/sw-res.txt").read()
    need = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return all(("PASS " + n) in t for n in need), t[:500]


def demo(d):
    try:
        r = sh("bash %s/demo.sh" % d, cwd=W, timeout=300)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def make(spec):
    prep()
    ns = runpy.run_path(spec)
    only = sys.argv[3:]
    ok, o = build()
    assert ok, o
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(S, s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -q -- ." % W)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(W, f)
                t = open(p, errors="surrogateescape", newline="").read()
                if t.count(old) != 1:
                    raise ValueError("%s: %d matches of %r" % (f, t.count(old), old))
                open(p, "w", errors="surrogateescape", newline="").write(t.replace(old, new))
        except ValueError as e:
            print(s["id"], "EDIT", e)
            sh("git -C %s checkout -q -- ." % W)
            continue
        open(os.path.join(d, "patch.diff"), "w", errors="surrogateescape", newline="").write(
            subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE).stdout.decode("utf8", "surrogateescape"))
        open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
        for n, c in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(c)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        orig = 0
        for f in sh("git -C %s diff --name-only" % W).stdout.split():
            bl = sh("git -C %s blame -s HEAD -- %s" % (W, f)).stdout.splitlines()
            for h in re.finditer(r"^@@ -(\d+)", sh("git -C %s diff -U0 -- %s" % (W, f)).stdout, re.M):
                orig += bl[int(h.group(1)) - 1].startswith("^")
        if not orig:
            print(s["id"], "NOT ON ORIGINAL LINES")
        ok, o = build()
        tok, to = tests() if ok else (False, "")
        rc1, o1 = demo(d)
        sh("git -C %s checkout -q -- ." % W)
        build()
        rc0, o0 = demo(d)
        good = ok and tok and rc1 != 0 and rc0 == 0
        print(s["id"], "OK" if good else "BAD build=%s tests=%s demo patched=%s clean=%s" % (ok, tok, rc1, rc0))
        if not good:
            print("   patched:", (o if not ok else o1)[-600:], "\n   clean:", o0[-600:])
        sys.stdout.flush()
    sh("git -C %s checkout -q -- ." % W)


def evaluate(ids):
    prep()
    m = {c["property"]: c["quick_cmd"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    for i in ids or sorted(os.listdir(S)):
        d = os.path.join(S, i)
        p = json.load(open(d + "/meta.json"))["property"]
        sh("git -C %s checkout -q -- ." % W)
        r = sh("git -C %s apply %s/patch.diff" % (W, d))
        if r.returncode:
            print(i, p, "DOES NOT APPLY"); continue
        t = time.time()
        e = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh(m[p] if p in m else "false", cwd=V, env=e)
        k = re.findall(r"key=(\S+) ::", r.stdout)
        print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc=%d" % r.returncode,
              "%.0fs" % (time.time() - t), k[:3])
        sys.stdout.flush()
        sh("git -C %s checkout -q -- ." % W)


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    evaluate(sys.argv[2:])
