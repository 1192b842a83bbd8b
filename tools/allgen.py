"""dev: allgen.py MODE CASES [harness.cc] [sim...] : runs a generic monitor on every simulator type"""
import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
os.environ["VERIF_KEEP"] = "1"
import vbuild
from cpus import CPUS
from concurrent.futures import ThreadPoolExecutor
mode, cases, src = sys.argv[1], sys.argv[2], sys.argv[3]
only = sys.argv[4:]
fl = os.environ.get("FL", "plain")
sims = sorted({s for s, t in CPUS if not only or s in only})
b = vbuild.build(sims, fl, name="iterall-" + os.environ.get("TAG", "") + fl)
hs = {s: b.harness(s, [os.path.join(vbuild.VERIF, "harness", x) for x in ["vh.cc", src]], "hg_" + s) for s in sims}
os.makedirs("/tmp/ag" + os.environ.get("TAG", ""), exist_ok=True)
import time
def one(x):
    t0=time.time(); r=one_(x); return r[0], r[1], "%s %.1fs" % (r[2], time.time()-t0), r[3]
def one_(x):
    s, t = x
    out = "/tmp/ag" + os.environ.get("TAG", "") + "/%s-%s.out" % (s, t)
    if os.path.exists(out): os.unlink(out)
    env = dict(os.environ, VH_TYPE=s + "-" + t, VH_RESET="/verif/conf/reset.txt", VH_NAMES="/verif/conf/names.txt", VH_OUT=out, VH_CASE=out + ".case", VH_CASES=cases, VH_MODE=mode, VH_SEED=os.environ.get("VH_SEED", "1"), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    d = out + ".d"; os.makedirs(d, exist_ok=True)
    try: p = subprocess.run([hs[s], "-b"] + (["-t", t] if t else []), env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=900)
    except subprocess.TimeoutExpired: return s, t, "TIMEOUT", ""
    return s, t, p.returncode, p.stderr.decode(errors="replace")[-1200:]
with ThreadPoolExecutor(8) as ex:
    for s, t, rc, err in ex.map(one, [c for c in CPUS if not only or c[0] in only]):
        out = "/tmp/ag" + os.environ.get("TAG", "") + "/%s-%s.out" % (s, t)
        txt = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
        fails = {}; nf = {}
        for l in txt:
            f = l.split("\t")
            if f[0] == "FAIL": fails.setdefault(f[1], f[2])
            if f[0] == "NFAIL": nf[f[1]] = f[2]
        done = any(l.startswith("DONE") for l in txt)
        print("==", s, t, "rc", rc, "" if done else "NOT DONE case=" + (open(out + ".case", "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(out + ".case") else "?"), len(fails), "keys", [l.replace("\t"," ")[5:] for l in txt if l.startswith("STAT")])
        if not done or (err and not fails and fl != "plain"): print(err[-1000:])
        for k in sorted(fails)[:int(os.environ.get("MAXK", "8"))]: print("   ", k, nf.get(k), fails[k][:300])
