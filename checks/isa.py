#!/usr/bin/env python3
"""Lockstep instruction-set monitors: isa.py <property>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vbuild

RULE = ("Each evaluation is one instruction executed by the real processor object next to an independent "
        "reference model, from a random or running state; all registers, flags, program counter and every "
        "written memory cell are compared after it, the whole memory every few hundred. Distinct cases are "
        "distinct (opcode, input flags, output flags) triples observed.")

# property -> (sim, [harness sources], [(label, argv, quick cases, thorough cases, mode)])
T = {
    "I01": ("s51", ["m51.cc"], [("C52", ["-t", "C52"], 2500000, 40000000, ""),
                                ("89C51R", ["-t", "89C51R"], 600000, 10000000, "")]),
    "I02": ("i8085", ["m8080.cc"], [("8080", ["-t", "8080"], 3000000, 40000000, ""),
                                    ("8085", ["-t", "8085"], 3000000, 40000000, "")]),
    "I04": ("mos6502", ["m6502.cc"], [("6502", ["-t", "6502"], 1500000, 25000000, ""),
                                      ("65C02", ["-t", "65C02"], 1500000, 25000000, ""),
                                      ("65C02S", ["-t", "65C02S"], 1000000, 20000000, "")]),
    "I05": [("m6800", ["m68.cc"], [("6800", ["-t", "6800"], 1500000, 25000000, ""),
                                   ("6801", ["-t", "6801"], 1500000, 25000000, "")]),
            ("m68hc11", ["m68.cc"], [("68HC11", ["-t", "HC11"], 2000000, 40000000, "")])],
    "I07": ("m68hc08", ["m08.cc"], [("HC08", ["-t", "HC08"], 1500000, 25000000, ""),
                                    ("HCS08", ["-t", "HCS08"], 1500000, 25000000, ""),
                                    ("9S08", ["-t", "9S08"], 1500000, 25000000, "")]),
    "I06": ("m6809", ["m09.cc"], [("6809", [], 3000000, 50000000, ""),
                                  ("6809-irq", [], 1500000, 25000000, "irq")]),
    "I08": ("avr", ["mavr.cc"], [("AVR", [], 3000000, 50000000, "")]),
    "I09": ("stm8", ["mstm8.cc"], [("STM8", ["-t", "STM8S"], 3000000, 50000000, "")]),
    "I13": ("i8048", ["m48.cc"], [("8050", ["-t", "I8050"], 1200000, 20000000, ""), ("UPI-42", ["-t", "C42"], 800000, 15000000, ""),
                                  ("8022", ["-t", "I8022"], 600000, 10000000, ""), ("8021", ["-t", "I8021"], 600000, 10000000, ""),
                                  ("8050-irq", ["-t", "I8050"], 800000, 10000000, "irq"), ("UPI-42-irq", ["-t", "C42"], 500000, 8000000, "irq"),
                                  ("8022-irq", ["-t", "I8022"], 500000, 8000000, "irq"), ("8021-irq", ["-t", "I8021"], 400000, 6000000, "irq")]),
    "I03": ("z80", ["mz80.cc"], [("Z80", ["-t", "Z80"], 4000000, 60000000, "")]),
}

ASSUME = ["the harness sets registers through the simulator's named register variables and drives one instruction "
          "at a time; it replaces only the console main loop",
          "reference models were written from the processor manuals and cover the documented instruction set"]


def run(pid):
    groups = T[pid]
    if isinstance(groups, tuple):
        groups = [groups]
    c = vlib.Check(pid, RULE, assumptions=ASSUME)
    sims = sorted(set(g[0] for g in groups))
    b = vbuild.build(sims, "plain")
    n = 0
    for sim, srcs, runs in groups:
        h = b.harness(sim, [os.path.join(vbuild.VERIF, "harness", s) for s in ["vh.cc"] + srcs], "h_%s_%s" % (sim, srcs[0][:-3]))
        for label, argv, q, t, mode in runs:
            c.run_harness(h, ["-b"] + argv, mode, c.n(q, t), label=label)
            n += q
    c.finish(min_evals=n // 2)


vlib.main(lambda: run(sys.argv[1]))
