"""Check driver: runs monitors, matches known findings, writes evidence."""
import json, os, re, subprocess, sys, time, tempfile, shutil, hashlib, signal, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO, BUILD

KNOWN = os.path.join(VERIF, "known_findings.txt")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:handle_abort=1:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86",
}


class Inconclusive(Exception):
    pass


def load_known(pid):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if sys.argv[-1] in ("quick", "thorough"):
            self.tier = sys.argv[-1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.known = load_known(pid)
        self.known_seen = {}
        self.viol = {}            # key -> [details]
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.stats = {}
        self.tmp = tempfile.mkdtemp(prefix="v-%s-" % pid)
        self.rep_dir = os.path.join(VERIF, "build", "replay")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- verdict collection
    def fail(self, key, detail, replay=None):
        key = re.sub(r"\s+", "_", key)
        for k, what in self.known:
            if k == key:
                self.known_seen[k] = self.known_seen.get(k, 0) + 1
                return False
        self.viol.setdefault(key, []).append((detail, replay))
        return True

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])

    def stat(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def case(self, key=None):
        self.evals += 1
        if key is not None:
            self.distinct.add(key if isinstance(key, int) else hash_key(key))

    # ---- finishing
    def finish(self, min_evals=1, extra=None):
        shutil.rmtree(self.tmp, ignore_errors=True)
        nd = len(self.distinct) + self.ndistinct
        cov = {"evaluations": self.evals, "distinct_nontrivial": nd, "rule": self.rule,
               "samples": self.samples or ["(none)"], "observed": self.stats}
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for k, what in self.known:
            print("KNOWN-FINDING: property=%s %s [key=%s, seen %d times in this run]" %
                  (self.pid, what, k, self.known_seen.get(k, 0)))
        if self.viol:
            os.makedirs(self.rep_dir, exist_ok=True)
            for i, (k, ds) in enumerate(sorted(self.viol.items())):
                if i >= 40:
                    print("... and %d more keys" % (len(self.viol) - 40))
                    break
                rp = os.path.join(self.rep_dir, "%s-%d.txt" % (self.pid, i))
                with open(rp, "w") as f:
                    f.write("property %s\nkey %s\nseed %d tier %s\n" % (self.pid, k, self.seed, self.tier))
                    for d, r in ds[:5]:
                        f.write("detail: %s\n" % d)
                        if r:
                            f.write("replay:\n%s\n" % r)
                print("  key=%s :: %s" % (k, str(ds[0][0])[:700]))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            sys.exit(1)
        if self.evals < min_evals:
            print("INCONCLUSIVE property=%s: only %d evaluations (needed %d)" % (self.pid, self.evals, min_evals))
            sys.exit(3)
        print("HELD property=%s on %d evaluations (%d distinct) in %.1fs" % (self.pid, self.evals, nd, time.time() - self.t0))
        sys.exit(0)

    # ---- in-process harness runs
    def run_harness(self, binary, argv, mode, cases, shards=8, env=None, timeout=400, label="", seedoff=0):
        """Runs `shards` processes; merges their reports."""
        jobs = []
        for sh in range(shards):
            jobs.append((binary, argv, mode, max(1, cases // shards), sh, shards, env or {}, timeout, label, seedoff))
        with ThreadPoolExecutor(max_workers=min(8, shards)) as ex:
            res = list(ex.map(lambda j: self._one(*j), jobs))
        for r in res:
            self._merge(r, label)
        return res

    def run_many(self, jobs, timeout=300, env=None):
        """jobs: (binary, argv, mode, cases, shard number, label); one process each, 8 at a time."""
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda j: self._one(j[0], j[1], j[2], j[3], j[4], 1, env or {}, timeout, j[5], 0), jobs))
        for r, j in zip(res, jobs):
            self._merge(r, j[5])
        return res

    def _one(self, binary, argv, mode, cases, sh, shards, env, timeout, label, seedoff, attempt=0):
        tag = "%s-%s-%d-%d" % (os.path.basename(binary), re.sub(r"\W", "_", label + mode), sh, attempt)
        outf = os.path.join(self.tmp, tag + ".out")
        casef = os.path.join(self.tmp, tag + ".case")
        errf = os.path.join(self.tmp, tag + ".err")
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update({"VH_OUT": outf, "VH_CASE": casef, "VH_MODE": mode, "VH_CASES": str(cases),
                  "VH_SEED": str(self.seed * 1000003 + sh * 7919 + seedoff), "VH_SHARD": str(sh), "VH_SHARDS": str(shards)})
        e.setdefault("VH_TYPE", label.replace("/", "-"))
        e.update({k: str(v) for k, v in env.items()})
        cmd = [binary] + list(argv)
        for f in (outf, casef):
            if os.path.exists(f):
                os.unlink(f)
        to = False
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=self.tmp,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                to = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
        if to and attempt == 0:
            return self._one(binary, argv, mode, cases, sh, shards, env, timeout * 2, label, seedoff, 1)
        rpl = " ".join("%s=%s" % (k, e[k]) for k in sorted(e) if k.startswith("VH_") and k not in ("VH_OUT", "VH_CASE"))
        rpl += " " + " ".join(cmd)
        r = {"rc": rc, "to": to, "out": open(outf, errors="replace").read() if os.path.exists(outf) else "",
             "err": open(errf, errors="replace").read()[-6000:], "replay": rpl}
        r["case"] = open(casef, "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(casef) else ""
        return r

    def _merge(self, r, label):
        done = False
        for l in r["out"].splitlines():
            f = l.split("\t")
            if f[0] == "FAIL":
                self.fail((label + ":" if label else "") + f[1], f[2] if len(f) > 2 else "", r["replay"])
            elif f[0] == "STAT":
                if f[1] == "cases":
                    self.evals += int(f[2])
                else:
                    self.stat((label + "." if label else "") + f[1], int(f[2]))
            elif f[0] == "DKEYS":
                for k in f[2].split(" "):
                    if k:
                        self.distinct.add(hash_key(label + f[1] + k))
            elif f[0] == "SAMPLE":
                self.sample((label + ": " if label else "") + "\t".join(f[1:]))
            elif f[0] == "ERROR":
                raise Inconclusive("harness error: " + l + "\n" + r["replay"])
            elif f[0] == "DONE":
                done = True
        if not done:
            if r["to"]:
                self.fail("%s:hang:%s" % (label, r["case"].split(" ")[0]), "no progress; last case: " + r["case"], r["replay"])
            elif not r["case"] and not r["out"] and r["rc"] not in (86,) and r["rc"] >= 0:
                raise Inconclusive("harness did not start rc=%s %s\n%s" % (r["rc"], r["err"], r["replay"]))
            else:
                self.fail("%s:crash:%s:%s" % (label, crash_sig(r["rc"], r["err"]), r["case"].split(" ")[0]),
                          "process died rc=%s; last case: %s; %s" % (r["rc"], r["case"], r["err"][-1500:]), r["replay"])


def crash_sig(rc, err):
    m = re.search(r"SUMMARY: (\S+): (\S+) (?:\S*/)?([^\s/:]+)(?::\d+)*(?: in (\S+))?", err)
    if m:
        return "%s-%s-%s" % (m.group(2), m.group(3), (m.group(4) or "").split("(")[0])
    m = re.search(r"([\w.]+\.(?:cc|h|y|l)):\d+:\d+: runtime error: (.*)", err)
    if m:
        return "ub-%s-%s" % (m.group(1), re.sub(r"\W+", "_", re.sub(r"-?\d+", "N", m.group(2)))[:60])
    return "rc%d" % rc


def hash_key(s):
    return int.from_bytes(hashlib.blake2b(str(s).encode(), digest_size=7).digest(), "big")


def main(fn):
    """Wraps a check: harness trouble is exit 3 (neither held nor violated)."""
    try:
        fn()
    except (Inconclusive, vbuild.BuildError) as e:
        print("INCONCLUSIVE: " + str(e)[:3000])
        sys.exit(3)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
