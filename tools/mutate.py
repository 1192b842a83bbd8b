"""Random source mutants against a property's quick check (development only).
 mutate.py PROP N SEED [FILE...]   mutates files of the property's anchors in /tmp/mw; prints caught/survived"""
import sys, os, re, json, random, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MW", "/tmp/mw")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
src = "/tmp/r2"
if not os.path.isdir(W): sh("git clone -q %s %s" % (src, W))
sh("cd %s && git checkout -q -- . && git fetch -q %s && git reset -q --hard $(git -C %s rev-parse HEAD)" % (W, src, src))
files = sys.argv[4:]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] == pid and not files: files = p["anchors"]["files"]
rng = random.Random(seed)
OPS = [(r"(?<![=!<>+\-*/&|^%])==(?!=)", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![<\-])<(?![<=])", "<="), (r"(?<![>\-])>(?![>=])", ">="),
       (r"<=", "<"), (r">=", ">"), (r"(?<!\+)\+(?![+=])", "-"), (r"(?<![-(,=])-(?![-=>])", "+"), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"&=", "|="), (r"\|=", "&="),
       (r"(?<![&])&(?![&=])", "|"), (r"(?<!\|)\|(?![|=])", "&"), (r"\^", "|"), (r"<<", ">>"), (r">>", "<<"), (r"\b0x([0-9a-fA-F]+)\b", "HEX"), (r"\b(\d+)\b", "DEC"),
       (r"^(\s+)[A-Za-z_][\w\->.\[\]]*\s*(=|\+=|-=|\|=|&=|\()[^;{}]*;\s*$", "DEL"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-zA-Z(])", "")]
def cands(f):
    t = open(os.path.join(W, f), encoding="latin1", newline="").read().split("\n")
    out = []; com = False
    for i, l in enumerate(t):
        s = l.strip()
        if "/*" in s and "*/" not in s: com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith(("//", "#", "case", "*", "/*", "int\n")) or "printf" in s or "cfg_help" in s or "return \"" in s or not l.startswith((" ", "\t", "{")) or s.startswith("{"): continue
        code = re.sub(r'"[^"]*"', lambda m: "_" * len(m.group()), l.split("//")[0])
        for rx, rep in OPS:
            for m in re.finditer(rx, code): out.append((f, i, m.start(), m.end(), rep))
    return t, out
allc = []; texts = {}
for f in files:
    if not os.path.isfile(os.path.join(W, f)): continue
    texts[f], c = cands(f)
    # at most one candidate of each kind per line
    by = {}
    for x in c: by.setdefault((x[1]), []).append(x)
    allc += [rng.choice(v) for v in by.values()]
rng.shuffle(allc)
chk = {c["property"]: c["quick"] for c in []} if 0 else None
man = json.load(open(V + "/MANIFEST.json"))
cmd = None
for c in man["checks"]:
    if c.get("property", c.get("property_id")) == pid or c.get("id") == pid: cmd = c.get("quick_cmd") or c.get("quick") or c.get("cmd")
if cmd is None: cmd = "python3 checks/%s.py %s" % ("isa" if pid[0] == "I" else "core", pid)
if isinstance(cmd, list): cmd = " ".join(cmd)
done = 0; surv = 0
for f, i, a, b, rep in allc:
    if done >= n: break
    t = list(texts[f]); l = t[i]; old = l[a:b]
    if rep == "HEX": new = hex(int(old, 16) ^ (1 << rng.randrange(max(1, 4 * (len(old) - 2)))))
    elif rep == "DEC": new = str(int(old) + rng.choice([1, -1]) if int(old) else 1)
    elif rep == "DEL": new = re.match(r"\s*", l).group() + ";"
    else: new = rep
    t[i] = l[:a] + new + l[b:]
    open(os.path.join(W, f), "w", encoding="latin1", newline="").write("\n".join(t))
    t0 = time.time()
    try:
        r = sh("cd %s && VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 800 %s" % (V, W, cmd))
        rc, o = r.returncode, r.stdout
    except Exception as e: rc, o = 99, str(e)
    open(os.path.join(W, f), "w", encoding="latin1", newline="").write("\n".join(texts[f]))
    if "error:" in o or rc not in (0, 1):
        if "VIOLATION" not in o: print("SKIP rc=%d %s:%d %r" % (rc, f, i + 1, t[i].strip()[:80]), flush=True); continue
    done += 1
    if rc == 1 and "VIOLATION" in o: print("caught %3ds %s:%d | %s | %s" % (time.time() - t0, f.split("/")[-1], i + 1, l.strip()[:70], t[i].strip()[:70]), flush=True)
    else: surv += 1; print("SURVIVED %3ds %s:%d | %s | %s" % (time.time() - t0, f.split("/")[-1], i + 1, l.strip()[:90], t[i].strip()[:90]), flush=True)
print("== %s %d mutants, %d survived" % (pid, done, surv))
