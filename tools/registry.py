#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, check=None, technique=None, note=None,
         hook=None, state=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, check, technique, note, na))


ISA_WHY = ("The repository's tests run a handful of fixed programs (most do not even run in this environment) and compare "
           "printed output; they touch a small part of the opcode x operand x flag space, with ordinary values.")
ISA_TECH = "runtime lockstep monitor: real processor object vs independent executable reference model on generated states"
ISA_NOTE = ("Every documented opcode is executed many thousands of times from random and boundary-biased states and in running "
            "sequences; result registers, flags, PC, cycle counts where noted and all memory effects are compared. "
            "Exploration, not proof: 16/32-bit operand spaces are sampled. Trusts the reference model.")


def isa(id, title, what, sim, files, mech, extra=""):
    prop(id, title,
         "For every documented instruction of %s, every operand value and every starting machine state, executing one "
         "instruction leaves the registers, flags, program counter and memory exactly as the processor's manual defines, "
         "and changes nothing else.%s" % (what, (" " + extra) if extra else ""),
         ["inputs", "programs"],
         "all documented opcodes and addressing modes, all operand values, flags, register contents and memory contents "
         "including wrap-around of addresses, operands and stack at the ends of the address space",
         ISA_WHY, files, mech,
         ["register variables and memory after each executed instruction"],
         "isa.py " + id, ISA_TECH, ISA_NOTE)


exec(open(os.path.join(V, "tools", "props_body.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, check, tech, note, nar in P:
        if check and not nar:
            checks.append({"property": d["id"], "quick_cmd": "python3 checks/%s quick" % check,
                           "thorough_cmd": "python3 checks/%s thorough" % check,
                           "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": d["id"], "reason": nar or "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks compile /repo's sources unchanged and "
                   "link in-process monitors against the project's own objects", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Builds go to /verif/build (git-ignored); findings are in known_findings.txt."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
