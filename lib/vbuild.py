"""Out-of-tree builds of /repo for the checks.

build(sims, flavour) compiles the core libraries and the named simulators from
/repo's current working tree into /verif/build/<flavour>-<pid>, using the
project's own makefiles (so added/removed sources are followed).  Always a fresh
tree (never trusts mtimes); ccache, when present, makes repeats cheap.
"""
import hashlib, os, shutil, subprocess, sys, tarfile, glob, re, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = str(min(8, os.cpu_count() or 2))

FLAVOURS = {
    "plain": "-O1 -g0 -fno-omit-frame-pointer",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=vptr -fno-sanitize-recover=all",
    "rec": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr",   # triage only
    "asanonly": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address",
}
WARN = "-w"


class BuildError(Exception):
    pass


def _conf_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("_build", ".git"))
        for n in names:
            if n.endswith(".in") or "_in." in n or n in ("configure", ".version", "config.guess", "config.sub"):
                files.append(os.path.join(root, n))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(REPO.encode())
    return h.hexdigest()[:16]


def _env():
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MFLAGS", "MAKELEVEL"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    env["CC"], env["CXX"] = "gcc", "g++"
    env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_SLOPPINESS"] = "include_file_mtime,include_file_ctime"
    env["CCACHE_BASEDIR"] = BUILD
    env["CCACHE_NOHASHDIR"] = "1"
    env["CCACHE_COMPILERCHECK"] = "content"
    return env


def _run(cmd, cwd, log):
    with open(log, "ab") as lf:
        r = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return r.returncode


def configure(dst):
    """Populate dst with configured makefiles."""
    key = _conf_hash()
    tarf = os.path.join(VERIF, "conf", "conf-%s.tar.gz" % key)
    if os.path.exists(tarf):
        with tarfile.open(tarf) as t:
            t.extractall(dst, filter="fully_trusted")
    else:
        log = os.path.join(dst, "configure.log")
        if _run(["bash", os.path.join(REPO, "configure"), "CC=gcc", "CXX=g++"], dst, log):
            raise BuildError("configure failed, see " + log)
    if not os.path.exists(os.path.join(dst, "src", "common.mk")):
        raise BuildError("no configured tree")


def make_conf_tar():
    key = _conf_hash()
    tarf = os.path.join(VERIF, "conf", "conf-%s.tar.gz" % key)
    if os.path.exists(tarf):
        return tarf
    d = os.path.join(BUILD, "conf-tmp")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    log = os.path.join(BUILD, "conf.log")
    if _run(["bash", os.path.join(REPO, "configure"), "CC=gcc", "CXX=g++"], d, log):
        raise BuildError("configure failed")
    with tarfile.open(tarf, "w:gz") as t:
        for root, dirs, names in os.walk(d):
            for n in sorted(names):
                if n in ("config.log",):
                    continue
                p = os.path.join(root, n)
                t.add(p, arcname=os.path.relpath(p, d))
    shutil.rmtree(d, ignore_errors=True)
    return tarf


class Built:
    def __init__(self, root, flavour):
        self.root = root
        self.flavour = flavour
        self.flags = FLAVOURS[flavour]

    def simbin(self, sim):
        n = "51" if sim == "s51" else sim
        return os.path.join(self.root, "src/sims/%s.src/ucsim_%s" % (sim, n))

    def appbin(self):
        return os.path.join(self.root, "src/apps/ucsim.src/ucsim")

    def harness(self, sim, sources, out, extra=()):
        """Link a harness: repo objects of `sim` + our sources; cl_app::run is
        replaced by the strong definition in the harness."""
        cxx = _cxx()
        objs = []
        outp = os.path.join(self.root, out)
        inc = ["-I" + os.path.join(VERIF, "harness"),
               "-I" + os.path.join(self.root, "src/sims/%s.src" % sim),
               "-I" + os.path.join(REPO, "src/sims/%s.src" % sim),
               "-I" + os.path.join(self.root, "src/core/utils.src")]
        inc += ["-I" + os.path.join(REPO, "src/core/%s.src" % c) for c in ("utils", "sim", "cmd", "gui", "motorola")]
        log = os.path.join(self.root, "build.log")
        procs = []
        for s in sources:
            o = outp + "." + os.path.basename(s) + ".o"
            cmd = cxx.split() + ["-std=gnu++17", "-w"] + self.flags.split() + list(extra) + inc + ["-c", s, "-o", o]
            lf = open(log, "ab")
            procs.append((subprocess.Popen(cmd, cwd=self.root, env=_env(), stdout=lf, stderr=lf), s))
            objs.append(o)
        for p, s in procs:
            if p.wait():
                raise BuildError("compiling harness %s failed, see %s\n%s" % (s, log, tail(log)))
        weak = os.path.join(self.root, "libucsimutil_weak.a")
        if not os.path.exists(weak):
            lib = os.path.join(self.root, "libucsimutil.a")
            tmp = outp + ".weak.a"
            if _run(["objcopy", "--weaken-symbol=_ZN6cl_app3runEv", lib, tmp], self.root, log):
                raise BuildError("objcopy failed")
            os.rename(tmp, weak)
        mk = subprocess.run(["make", "-s", "-f", "-", "print"], input=
                            "include %s/src/sims/%s.src/objs.mk\nprint:\n\t@echo $(OBJECTS)\n" % (REPO, sim),
                            text=True, capture_output=True, env=_env(), cwd=self.root)
        if mk.returncode:
            raise BuildError("objs.mk: " + mk.stderr)
        so = [os.path.join(self.root, "src/sims/%s.src" % sim, x) for x in mk.stdout.split()]
        libs = [os.path.join(self.root, l) for l in
                ("libmotorola.a", "libsim.a")] + [weak] + [os.path.join(self.root, l) for l in
                ("libgui.a", "libcmd.a", "libsim.a")]
        cmd = ["g++"] + self.flags.split() + objs + so + ["-Wl,--start-group"] + libs + ["-Wl,--end-group",
               "-lpanel", "-lcurses", "-ltinfo", "-lm", "-lrt", "-lpthread", "-o", outp]
        if _run(cmd, self.root, log):
            raise BuildError("linking harness failed, see %s\n%s" % (log, tail(log)))
        return outp


def tail(f, n=25):
    try:
        return "".join(open(f, errors="replace").readlines()[-n:])
    except OSError:
        return ""


def _cxx():
    return os.path.join(VERIF, "lib", "cxx.sh")


def build(sims, flavour="plain", app=False, name=None):
    os.makedirs(BUILD, exist_ok=True)
    root = os.path.join(BUILD, name or ("%s-%d" % (flavour, os.getpid())))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    if not os.environ.get("VERIF_KEEP"):
        atexit.register(shutil.rmtree, root, ignore_errors=True)
    configure(root)
    log = os.path.join(root, "build.log")
    d = os.path.join(root, "src/sims/i8048.src")
    os.makedirs(d, exist_ok=True)
    for h in ("genal.h", "decode.h", "gen.h"):
        p = os.path.join(d, h)
        if not os.path.lexists(p):
            os.symlink(os.path.join(REPO, "src/sims/i8048.src", h), p)
    flags = FLAVOURS[flavour]
    mkargs = ["MAKEDEP=true", "CXX=" + _cxx(), "CXXFLAGS=%s %s" % (flags, WARN), "CFLAGS=%s %s" % (flags, WARN), "LDFLAGS="]
    if _run(["make", "-j" + JOBS, "-C", "src", "libs"] + mkargs, root, log):
        raise BuildError("building core libraries failed:\n" + tail(log))
    # One parallel make for all simulators.
    mk = "all: %s\n" % " ".join(sims)
    for s in sims:
        mk += ".PHONY: %s\n%s:\n\t+$(MAKE) -C src/sims/%s.src simulator\n" % (s, s, s)
    with open(os.path.join(root, "sims.mk"), "w") as f:
        f.write(mk)
    if sims and _run(["make", "-j" + JOBS, "-f", "sims.mk"] + mkargs, root, log):
        raise BuildError("building simulators failed:\n" + tail(log))
    if app and _run(["make", "-j" + JOBS, "-C", "src/apps/ucsim.src", "all"] + mkargs, root, log):
        raise BuildError("building app failed:\n" + tail(log))
    b = Built(root, flavour)
    for s in sims:
        if not os.path.exists(b.simbin(s)):
            raise BuildError("no binary for " + s + "\n" + tail(log))
    return b


if __name__ == "__main__":
    if sys.argv[1] == "conf":
        print(make_conf_tar())
    else:
        os.environ["VERIF_KEEP"] = "1"
        b = build(sys.argv[2:], sys.argv[1], name="manual-" + sys.argv[1])
        print(b.root)
