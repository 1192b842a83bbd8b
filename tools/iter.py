"""dev helper: iter.py sim harness.cc [--asan] -- argv : build & run, summarise FAIL keys"""
import sys, os, subprocess, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
os.environ["VERIF_KEEP"] = "1"
import vbuild
a = sys.argv[1:]
fl = "plain"
if "--asan" in a: a.remove("--asan"); fl = os.environ.get("VH_FL","asan")
i = a.index("--") if "--" in a else len(a)
sim, srcs, argv = a[0], a[1:i], a[i+1:]
b = vbuild.build([sim], fl, name="iter-" + sim)
h = b.harness(sim, [os.path.join(vbuild.VERIF, "harness", x) for x in ["vh.cc"] + srcs], "h")
out = "/tmp/iter.out"
if os.path.exists(out): os.unlink(out)
env = dict(os.environ, VH_OUT=out, VH_CASE="/tmp/iter.case"); env.setdefault("VH_CASES", "200000")
env["ASAN_OPTIONS"]="detect_leaks=0"
p = subprocess.run([h] + argv, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
print("rc", p.returncode, p.stderr.decode(errors="replace")[-3000:])
first = {}; nf = {}; ok = False
for l in open(out, errors="replace"):
    f = l.rstrip("\n").split("\t")
    if f[0] == "FAIL": first.setdefault(f[1], f[2])
    elif f[0] == "NFAIL": nf[f[1]] = int(f[2])
    elif f[0] == "DKEYS": print("DKEYS", f[1], len(f[2].split()))
    else: print(l.rstrip()[:300])
    ok |= f[0] == "DONE"
if not ok: print("LAST CASE", open("/tmp/iter.case", "rb").read().split(b"\0")[0])
print("%d keys" % len(first))
for k in sorted(first)[:int(os.environ.get("MAXK", "60"))]: print(k, nf.get(k), first[k][:400])
