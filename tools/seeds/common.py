import shlex
def con(sim, cmds, want, args="", absent=()):
    """demo.sh: feed console commands, require every wanted regex in the output"""
    n = "51" if sim == "s51" else sim
    s = "#!/bin/bash\nT=$(mktemp -d); trap 'rm -rf \"$T\"' EXIT\nB=$PWD/_build\ncd \"$T\" || exit 2\n"
    s += "cat > in.cmd <<'XEOF'\n%s\nquit\nXEOF\n" % cmds.strip()
    s += "timeout 60 $B/src/sims/%s.src/ucsim_%s %s -q -b < in.cmd > out.txt 2>&1\nrc=$?\n" % (sim, n, args)
    s += "[ $rc = 0 ] || { echo \"exit code $rc\"; tail -5 out.txt; exit 1; }\n"
    for w in want:
        s += "grep -qE -e %s out.txt || { echo missing: %s; tail -30 out.txt; exit 1; }\n" % (shlex.quote(w), shlex.quote(w))
    for w in absent:
        s += "grep -qE -e %s out.txt && { echo unexpected: %s; tail -30 out.txt; exit 1; }\n" % (shlex.quote(w), shlex.quote(w))
    return s + "exit 0\n"
