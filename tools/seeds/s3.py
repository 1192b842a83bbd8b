import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import con
SEEDS = [
 dict(id="b18-daa-6809", prop="I06",
  edits=[("src/sims/m6809.src/m6809.cc", "	     ((A&0xf0) > 0x80) &&\n	     ((A&0x0f) > 0x09)", "	     ((A&0xf0) > 0x90) &&\n	     ((A&0x0f) > 0x09)")],
  demo=con("m6809", "set memory rom 0x200 0x86 0x9b 0x1c 0x00 0x19\npc 0x200\nstep\nstep\nstep\nexpression /d A\n", ["^1$"], ""),
  needs="DAA of 9A..9F without carry", breaks="decimal correction of the high digit when only the low digit makes it necessary"),
 dict(id="b19-mode3-th0", prop="H01",
  edits=[("src/sims/s51.src/timer0.cc", "    while (cyc--)\n      {\n	if (!cell_th->set", "    while (cyc-- && TR)\n      {\n	if (!cell_th->set")],
  demo=con("s51", "set memory rom 0 0x75 0x89 0x03 0x75 0x88 0x40 0x00 0x00 0x00 0x00 0x80 0xfe\nstep 6\nexpression /d TH0>0\n", ["^1$"], "-t C52"),
  needs="timer 0 in mode 3 with TR1 set and TR0 clear", breaks="TH0 of mode 3 is controlled by TR1 alone"),
 dict(id="b20-rec-reload", prop="H02",
  edits=[("src/sims/s51.src/serial.cc", "      s_tr_bit-= _bits;\n", "      s_tr_bit-= _bits-(_mode==2);\n")],
  demo=con("s51", "set hardware uart[0] raw\nset hardware uart[0] file \"/dev/null\" \"/dev/null\"\nset memory rom 0 0x75 0x98 0x90 0x75 0x99 0x55 0x30 0x99 0xfd 0xc2 0x99 0x75 0x99 0xaa 0x30 0x99 0xfd 0x80 0xfe\nbreak 0x9\nbreak 0x11\nrun\ntimer set 0 0\nrun\nstate\nexpression /d 1\ninfo registers\n", ["Total time since last reset= 0\\.0000(5[6-9]|6)"] , "-t C52") if 0 else "",
  needs="", breaks=""),
 dict(id="b21-arith-shift", prop="H03",
  edits=[("src/sims/s51.src/mdu.cc", "    d= (u32_t)d << get_steps();\n  else\n    d>>= get_steps();", "    d= (u32_t)d << get_steps();\n  else\n    d/= (1L << get_steps());")],
  demo="", needs="", breaks=""),
 dict(id="b22-isr-ticks", prop="C05",
  edits=[("src/core/sim.src/uc.cc", "(il->level >= 0 && (t->get_type() == TICK_INISR))", "(il->level > 0 && (t->get_type() == TICK_INISR))")],
  demo=con("s51", """set memory rom 0 0x02 0x00 0x30
set memory rom 0x0b 0x04 0x80 0xfd
set memory rom 0x30 0x75 0x8c 0xff 0x75 0x8a 0xf0 0x75 0xa8 0x82 0xd2 0x8c 0x80 0xfe
timer add "tt" 1 isr
step 60
timer get "tt"
""", [r"\([1-9][0-9]* clks\)"], "-t C52"),
  needs="an in-interrupt timer while an interrupt of level 0 is served", breaks="clocks spent in low level interrupts are not counted"),
 dict(id="b24-vcd-same-high", prop="C13",
  edits=[("src/core/sim.src/vcd.cc", "          (*var_p)->bitnr_high == bitnr_high && (*var_p)->bitnr_low == bitnr_low)", "          ((*var_p)->bitnr_high == bitnr_high || (*var_p)->bitnr_low == bitnr_low))")],
  demo=con("s51", """set hardware vcd[0] output "o.vcd"
set hardware vcd[0] add iram 0x30 3 0
set hardware vcd[0] add iram 0x30 7 0
set hardware vcd[0] start
set memory rom 0 0x75 0x30 0x5a 0x80 0xfe
step 4
set hardware vcd[0] stop
""", [], "-t C52").replace("exit 0\n", "cat out.txt | head -20; cat o.vcd | head -40; grep -q '^b01011010 ' o.vcd || exit 1\nexit 0\n"),
  needs="two watched bit ranges of one cell that share one end", breaks="the second range is refused as a duplicate"),
 dict(id="b25-rmvar-alias", prop="C19",
  edits=[("src/core/sim.src/var.cc", "      by_addr.disconn(var);\n      by_name.disconn_at(name_i);", "      t_index addr_i;\n      if (by_addr.search(var->get_mem(), var->get_addr(), addr_i))\n        by_addr.disconn_at(addr_i);\n      by_name.disconn_at(name_i);")],
  demo=con("s51", "var aaa iram 0x30 7 4\nvar bbb iram 0x30 3 0\nrmvar bbb\ninfo var aaa\nset memory rom 0 0xe5 0x30\ndump iram 0x30 0x30\nvar ccc iram 0x31\nrmvar aaa\nrmvar ccc\nvar bbb iram 0x30\ndump iram 0x30 0x31\n", [], "-t C52").replace("exit 0\n", "") +
   "cat > in2.cmd <<'XEOF'\nvar aaa iram 0x30 7 4\nvar bbb iram 0x30 3 0\nrmvar bbb\ndump /h iram 0x30 0x30\ninfo variables aaa\nset memory rom 0 0xe5 0x30\ndc 0 1\nquit\nXEOF\ntimeout 60 $B/src/sims/s51.src/ucsim_51 -t C52 -q -b <in2.cmd >out2.txt 2>&1 || { cat out2.txt; exit 1; }\ncat out2.txt | tail -12; grep -q 'aaa iram\\[0x30\\]' out2.txt || exit 1\nexit 0\n",
  needs="removing one of two variables that name parts of the same cell", breaks="the other variable is dropped from the address index"),
 dict(id="b27-daa-48", prop="I13",
  edits=[("src/sims/i8048.src/arith.cc", "      if (rA > 0xf9) rF|= flagC;", "      if (rA > 0xfa) rF|= flagC;")],
  demo=con("i8048", "set memory rom 0 0x23 0xf1 0x97 0x03 0x08 0x23 0xf9 0x57\nstep 3\nset memory rom 0x10 0x97 0x23 0xfa 0x57\npc 0x10\nstep 3\nexpression /x ACC\n", ["^0*60$"], ""),
  needs="DA A of FA", breaks="carry of DA A"),
 dict(id="b28-adiw-s", prop="I08",
  edits=[("src/sims/avr.src/arith_inst.cc", """  if ((~D)&res&0x8000)
    sreg|= (BIT_V|BIT_S);
  else
    sreg&= ~(BIT_V|BIT_S);
  if (res & 0x8000)
    {
      sreg|= BIT_N;
      sreg^= BIT_S;
    }
  else
    sreg&= ~BIT_N;
  if ((~res)&D&0x8000)""", """  if ((~D)&res&0x8000)
    sreg|= (BIT_V|BIT_S);
  else
    sreg&= ~(BIT_V|BIT_S);
  if (res & 0x8000)
    {
      sreg|= BIT_N|BIT_S;
    }
  else
    sreg&= ~BIT_N;
  if ((~res)&D&0x8000)""")],
  demo=con("avr", "set memory rom 0 0x9601\nset memory iram 24 0xff 0x7f\npc 0\nstep\nexpression /x iram[0x5f]&0x1c\n", ["^0*c$"], ""),
  needs="ADIW that overflows to a negative number", breaks="S flag of ADIW"),
 dict(id="b29-div-z", prop="I09",
  edits=[("src/sims/stm8.src/inst.cc", "            return (resHALT);\n         }\n         FLAG_ASSIGN (BIT_Z, (quot & 0xffff) == 0);", "            return (resHALT);\n         }\n         FLAG_ASSIGN (BIT_Z, (quot & 0xff) == 0);")],
  demo=con("stm8", "set memory rom 0x100 0xae 0x02 0x00 0xa6 0x02 0x62\npc 0x100\nstep\nstep\nstep\nexpression /d 100+(CC&2)\n", ["^100$"], "-t S208"),
  needs="DIV with a quotient that is a non zero multiple of 256", breaks="zero flag of DIV"),
]
SEEDS = [s for s in SEEDS if s["demo"]]
