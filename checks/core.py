#!/usr/bin/env python3
"""In-process monitors of the simulator core: core.py <property>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vbuild
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cpus import CPUS

# property -> (rule, [(sim, flavour, [sources], [(label, argv, mode, quick cases, thorough cases)])])
T = {
    "C01": ("Each evaluation is one operation (decoder/banker/bank/bander/chip creation or removal, write through a space, "
            "a chip, a command or an expression) on a randomly built memory world; after it every cell of every space and "
            "chip is compared with an explicit model of the map. Distinct cases are distinct (form, width, begin, end) "
            "decoders, bankers, banks and banders.",
            [("s51", "plain", ["c01.cc"], [("map", ["-t", "C52"], "", 400000, 6000000)]),
             ("s51", "asan", ["c01.cc"], [("map-asan", ["-t", "C52"], "", 24000, 400000)])]),
    "C06": ("Each evaluation is one random expression tree, printed with random (minimal or redundant) parentheses, number bases and white "
            "space, evaluated by the console in one of its three forms and compared with the model's value, printed formats and memory "
            "effects; or an invalid text that must be rejected. Distinct cases are distinct tree shapes.",
            [("s51", "plain", ["c06.cc"], [("expr", ["-t", "C52"], "", 300000, 8000000)]),
             ("p1516", "plain", ["c06.cc"], [("expr-word", [], "", 200000, 4000000)]),
             ("s51", "asanonly", ["c06.cc"], [("expr-asan", ["-t", "C52"], "", 40000, 1000000)])]),
    "C07": ("Each evaluation is one file in Intel HEX, S record, OMF-51, ASC or P2H form, built in a random way from a random image and loaded "
            "with the load, file or dl command into a random memory with random offset and range (every cell of all 19 memories is then compared "
            "with a model), or one check command on it, or one damaged file on the instrumented build. Distinct cases are distinct files.",
            [("s51", "plain", ["c07.cc"], [("load", ["-t", "C52"], "load", 40000, 1500000)]),
             ("s51", "asanonly", ["c07.cc"], [("load-asan", ["-t", "C52"], "load", 3000, 100000), ("damaged", ["-t", "C52"], "fuzz", 50000, 2000000)])]),
    "C08": ("Each evaluation is one dump of a random range of a random memory in hexadecimal, Intel HEX, binary or string form, compared with "
            "the cells; HEX dumps are loaded back. Distinct cases are distinct dump texts.",
            [("s51", "plain", ["c07.cc"], [("dump", ["-t", "C52"], "dump", 150000, 3000000)])]),
    "C19": ("Each evaluation is one memory or variable command (set memory with data or bits, fill, where, hole, memory cell, var, rmvar, info variables, use of a "
            "name in an expression) on memories of 8 to 32 bits; all cells and names are compared with a model after it. Distinct cases are distinct "
            "command texts.",
            [("s51", "plain", ["c19.cc"], [("cmds", ["-t", "C52"], "", 500000, 12000000)]),
             ("s51", "asanonly", ["c19.cc"], [("cmds-asan", ["-t", "C52"], "", 40000, 1000000)])]),
    "H01": ("Each evaluation is one instruction or one idle cycle of an 8052 whose timers, external interrupt pins, interrupt enable and "
            "priority registers are set at random by the program and the surroundings; the timer and interrupt registers, program counter, stack, "
            "service levels and clock are compared with a model after it. Distinct cases are distinct (modes, flags, event) combinations.",
            [("s51", "plain", ["h01.cc"], [("C52", ["-t", "C52"], "", 5000000, 80000000), ("C52-updown", ["-t", "C52"], "t2mod", 2500000, 40000000)])]),
    "H02": ("Each evaluation is one byte sent or received by the serial port of an 8052: modes, baud rate sources and rates set at random, SBUF, TI, RI and "
            "REN used by a running program, the line connected to files. Distinct cases are distinct line configurations.",
            [("s51", "plain", ["h02.cc"], [("C52", ["-t", "C52"], "", 800000, 12000000)])]),
    "H03": ("Each evaluation is one operation of a multiplication/division unit, started by a program through its registers; results and status are "
            "compared with arithmetic. Distinct cases are distinct (operation, magnitudes, steps) combinations.",
            [("s51", "plain", ["h03.cc"], [("517", ["-t", "517"], "", 1500000, 30000000), ("XC88X", ["-t", "XC88X"], "xc", 700000, 15000000)])]),
}
# property -> (rule, flavour, mode, excluded (sim, type) pairs, quick cases, thorough cases per processor type)
G = {
    "C02": ("Each evaluation is one run of a random program with up to 5 random breakpoints (fetch and memory event, permanent "
            "and temporary, with hit counts, conditions and scripts), continued until no stop remains; an undisturbed run of the "
            "same program gives the expected stops. Distinct cases are distinct machine states compared at a stop.",
            "plain", "brk", [], 700, 30000),
    "C03": ("Each evaluation is one short random program run twice, once with random inspection commands between its "
            "instructions; the complete machine state is compared after each command and at the end. Distinct cases are "
            "distinct final machine states.", "plain", "obs", [], 600, 30000),
    "C04": ("Each evaluation is one random program of up to 150 instructions executed six ways (step N, N times step, run and "
            "stop, run with a limit, in two parts, again) in copies of the same simulator; complete machine states are compared. "
            "Distinct cases are distinct final machine states.", "plain", "step", [], 600, 30000),
    "C09": ("Each evaluation is one random code sequence at one address that is measured, disassembled, checked for "
            "independence of the following bytes, and executed; a few are listed with the `dc` command. Distinct cases are "
            "distinct disassembled texts.", "plain", "dis", [], 40000, 1500000),
}
GSRC = {"C05": "c05.cc", "C11": "c11.cc", "C13": "c13.cc"}
G["C05"] = ("Each evaluation is one action on a processor that runs random programs: up to 12 instructions or waiting cycles, a tick, step, timer, state, xtal or reset "
            "command, an interrupt level or a low power state from outside; after each instruction all timers, their real time, and the ticks given to devices are "
            "compared with a model. Distinct cases are distinct (state, interrupt level, code, clocks) combinations.", "plain", "", [], 30000, 1500000)
G["C11"] = ("Each evaluation is one console line: a command of the processor type's own command set with parameters of right, almost right and wrong kinds, an expression, or damaged text, "
            "given to an instrumented simulator directly or through a console that reads a file; a sanitizer report, crash, exit or endless loop is a violation. Distinct cases are "
            "distinct lines.", "asanonly", "", [], 1500, 60000)
G["C13"] = ("Each evaluation is one action (instructions, a write, ticks, a vcd command) after which a recording is parsed further and compared with the watched cells and the simulated "
            "time, or the cells are compared with the events of a replayed file. Distinct cases are distinct (action, number of variables, pause state, piece of file or event) combinations.", "plain", "", [], 100, 8000)
EXEC = ("Each evaluation is a stretch of 100 to 400 instructions of random bytes executed from a random or running state, with "
        "inspections in between, in a simulator instrumented with AddressSanitizer and UndefinedBehaviorSanitizer; any report, crash or "
        "program counter outside of the code space is a violation. Distinct cases are distinct (address, code) pairs executed.")
FAM = {"C10A": ("s51", "i8048", "i8085"), "C10B": ("z80", "rxk", "tlcs", "f8"),
       "C10C": ("m6800", "m6809", "m68hc08", "m68hc11", "m68hc12", "mos6502"),
       "C10D": ("avr", "stm8", "st7", "pdk", "pblaze", "p1516", "oisc")}
for k in FAM:
    G[k] = (EXEC, "asan", "exec", [x for x in CPUS if x[0] not in FAM[k]], 500, 15000)
ASSUME = ["the harness replaces only the console main loop; commands go through the project's own command interpreter"]


def run(pid):
    rule, groups = T[pid]
    c = vlib.Check(pid, rule, assumptions=ASSUME)
    tot = 0
    for sim, fl, srcs, runs in groups:
        b = vbuild.build([sim], fl, name="%s-%s-%s-%d" % (pid, fl, sim, os.getpid()))
        h = b.harness(sim, [os.path.join(vbuild.VERIF, "harness", s) for s in ["vh.cc"] + srcs], "h_" + sim)
        for label, argv, mode, q, t in runs:
            tot += q
            c.run_harness(h, ["-b"] + argv, mode, c.n(q, t), label=label)
    c.finish(min_evals=tot // 2)


def run_gen(pid):
    rule, fl, mode, excl, q, t = G[pid]
    c = vlib.Check(pid, rule, assumptions=ASSUME)
    cpus = [x for x in CPUS if x not in excl]
    sims = sorted({s for s, _ in cpus})
    b = vbuild.build(sims, fl, name="%s-%s-%d" % (pid, fl, os.getpid()))
    srcs = [os.path.join(vbuild.VERIF, "harness", s) for s in ("vh.cc", GSRC.get(pid, "gen.cc"))]
    with ThreadPoolExecutor(8) as ex:
        hs = dict(zip(sims, ex.map(lambda s: b.harness(s, srcs, "hg_" + s), sims)))
    n = c.n(q, t)
    c.run_many([(hs[s], ["-b", "-t", ty], mode, n, i, "%s/%s" % (s, ty)) for i, (s, ty) in enumerate(cpus)],
               timeout=c.n(300, 3000))
    if pid == "C04":
        run_det(c, hs, cpus)
    c.finish(min_evals=q * len(cpus) // 2)


def run_det(c, hs, cpus):
    """The same history in three processes whose heaps are filled with different bytes."""
    def one(j):
        i, (s, ty) = j
        out = []
        for fill in ("0", "90", "255"):
            f = os.path.join(c.tmp, "det-%s-%s-%s" % (s, ty, fill))
            r = c._one(hs[s], ["-b", "-t", ty], "det", c.n(40, 2000), i, 1, {"VH_DET": f, "MALLOC_PERTURB_": fill},
                       c.n(300, 3000), "%s/%s-det%s" % (s, ty, fill), 0)
            r["replay"] = "MALLOC_PERTURB_=%s " % fill + r["replay"]
            out.append((r, f))
        diff = None
        if all(os.path.exists(f) for _, f in out):
            for r, f in out[1:]:
                case = ""
                with open(out[0][1], errors="replace") as a, open(f, errors="replace") as b:
                    for x, y in zip(a, b):
                        if x.startswith("@"):
                            case = x.strip()
                        if x != y:
                            diff = (x.split("=")[0], "%s: %s / %s" % (case, x.strip(), y.strip()), r["replay"])
                            break
                if diff:
                    break
        for _, f in out:
            if os.path.exists(f):
                os.unlink(f)
        return out, diff
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(cpus)))
    for (out, diff), (s, ty) in zip(res, cpus):
        for r, _ in out:
            c._merge(r, "%s/%s-det" % (s, ty))
        if diff:
            c.fail("%s/%s-det:%s" % (s, ty, diff[0]), "two processes, one history: " + diff[1], diff[2])


# types whose devices and memory are all set by reset or by the image, so the run after reset can be compared
RESET_RUN = [x for x in CPUS if x[0] in ("z80", "i8085", "m68hc08", "st7", "mos6502") and x[1] not in ("LR35902", "HUC6280")
             or x[1] in ("C52", "DS390")]


def run_reset(pid):
    c = vlib.Check(pid, "Each evaluation is one reset after a random history (programs, register writes, device ticks) of one processor type: registers "
                   "with a reset value, program counter, state, counters, interrupt levels and stack tracking are compared with the documented "
                   "values and with an untouched simulator; on types without undefined devices the following 240 instructions are "
                   "compared too. Distinct cases are distinct states after reset or after the run.", assumptions=ASSUME)
    sims = sorted({s for s, _ in CPUS})
    b = vbuild.build(sims, "plain", name="%s-plain-%d" % (pid, os.getpid()))
    srcs = [os.path.join(vbuild.VERIF, "harness", s) for s in ("vh.cc", "c12.cc")]
    with ThreadPoolExecutor(8) as ex:
        hs = dict(zip(sims, ex.map(lambda s: b.harness(s, srcs, "hr_" + s), sims)))
    n = c.n(200, 5000)
    slow = ("HUC6280", "R4K", "DS390", "R2K", "R3KA")
    jobs = sorted([(x, r, n * (3 if r else 1) // (6 if x[1] in slow else 1)) for r, t in ((0, CPUS), (2, RESET_RUN)) for x in t],
                  key=lambda j: (j[0][1] not in slow, -j[1]))
    rs = os.path.join(vbuild.VERIF, "conf", "reset.txt")
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: c._one(hs[j[0][0]], ["-b", "-t", j[0][1]], "reset", j[2], j[1], 1, {"VH_TYPE": "%s-%s" % j[0], "VH_RESET": rs, "VH_RUN": j[1]},
                                           c.n(300, 3000), "%s/%s" % j[0], 0), jobs))
    for r, j in zip(res, jobs):
        c._merge(r, "%s/%s" % j[0])
    c.finish(min_evals=n * len(CPUS) // 2)


def run_names(pid):
    c = vlib.Check(pid, "Each evaluation is one predefined name whose memory, address and bits are compared with the table of its processor type, or one assignment to "
                   "or value of a name through the console, after which all register names of the processor are compared. Distinct cases are distinct (name, value) pairs.",
                   assumptions=ASSUME + ["conf/names.txt holds the names of the manuals and data sheets"])
    sims = sorted({s for s, _ in CPUS})
    b = vbuild.build(sims, "plain", name="%s-plain-%d" % (pid, os.getpid()))
    srcs = [os.path.join(vbuild.VERIF, "harness", s) for s in ("vh.cc", "n01.cc")]
    with ThreadPoolExecutor(8) as ex:
        hs = dict(zip(sims, ex.map(lambda s: b.harness(s, srcs, "hn_" + s), sims)))
    n, nf = c.n(1500, 100000), os.path.join(vbuild.VERIF, "conf", "names.txt")
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: c._one(hs[j[0]], ["-b", "-t", j[1]], "names", n, 0, 1, {"VH_TYPE": "%s-%s" % j, "VH_NAMES": nf}, c.n(300, 3000), "%s/%s" % j, 0), CPUS))
    for r, j in zip(res, CPUS):
        c._merge(r, "%s/%s" % j)
    c.finish(min_evals=n * len(CPUS) // 3)


if sys.argv[1] == "N01":
    vlib.main(lambda: run_names("N01"))
if sys.argv[1] == "C12":
    vlib.main(lambda: run_reset("C12"))
vlib.main(lambda: (run_gen if sys.argv[1] in G else run)(sys.argv[1]))
