"""Setup: warms the compiler cache used by the checks (nothing the checks rely on)."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
try:
    vbuild.make_conf_tar()
except Exception as e:
    print("configure cache not made:", e)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
from cpus import CPUS
from concurrent.futures import ThreadPoolExecutor
sims = sorted({s for s, t in CPUS})
H = lambda *n: [os.path.join(vbuild.VERIF, "harness", x) for x in ("vh.cc",) + n]
for fl in ("plain", "asan"):
    try:
        b = vbuild.build(sims, fl, app=(fl == "plain"))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda s: b.harness(s, H("gen.cc"), "hg_" + s), sims))
        print(fl, "compiled")
    except vbuild.BuildError as e:
        print("build failed:", str(e)[-2000:])
        if fl == "plain":
            sys.exit(1)
try:
    b = vbuild.build(["s51"], "asanonly", app=False)
    b.harness("s51", H("c06.cc"), "h_s51")
except vbuild.BuildError as e:
    print("build failed:", str(e)[-2000:])
