import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import con
SEEDS = [
 dict(id="b07-adc-hl-underflow", prop="I03",
  edits=[("src/sims/z80.src/z80mac.h", """    if (hc > 0x0FFF)                                regs.raf.F |= BIT_A; \\
    if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \\""",
  """    if (hc > 0x0FFF)                                regs.raf.F |= BIT_A; \\
    if (res > 32767)                                regs.raf.F |= BIT_P; \\""")],
  demo=con("z80", "set memory rom 0 0x21 0x00 0x80 0x01 0xff 0xff 0xb7 0xed 0x4a\nstep\nstep\nstep\nstep\nexpression /x F&4\n", ["^0*4$"], "-t Z80"),
  needs="ADC HL,rr of two negative numbers that overflow", breaks="overflow flag of ADC HL"),
 dict(id="b08-decimal-adc-carry", prop="I04",
  edits=[("src/sims/mos6502.src/ialu.cc", "      int sum= opint + accint + C;\n      if (sum > 99)", "      int sum= opint + accint + C;\n      if (sum > 99 + C)")],
  demo=con("mos6502", "set memory rom 0x200 0xf8 0x38 0xa9 0x45 0x69 0x54\npc 0x200\nstep\nstep\nstep\nstep\nexpression /x A\n", ["P= 00001111"], "-t 6502"),
  needs="decimal ADC with carry in and digits adding up to exactly 99", breaks="carry of decimal ADC"),
 dict(id="b09-hit-reload", prop="C02",
  edits=[("src/core/sim.src/brk.cc", """      cnt= hit;
      if (condition())
	return(1);      """, """      if (condition())
	{
	  cnt= hit;
	  return(1);
	}""")],
  demo=con("s51", "set memory rom 0 0x04 0x80 0xfd\nbreak 0 3 if \"ACC==5\"\nrun\nexpression ACC\n", [], "-t C52").replace("exit 0\n", "") + "grep -q '^5' out.txt && exit 1\nexit 0\n" if 0 else
   con("s51", "set memory rom 0 0x04 0x80 0xfd\nbreak 0 3 if \"ACC>3\"\nrun\nexpression ACC\n", ["^6$"], "-t C52"),
  needs="a breakpoint with both a hit count and a condition that is false when the count expires", breaks="the hit count is not restarted, the breakpoint then stops at every pass"),
 dict(id="b10-ge-op", prop="C06",
  edits=[("src/core/cmd.src/cmdpars.y", "| relational_expr PTOK_GE_OP shift_expr { $$= ($1 >= $3)?1:0; }", "| relational_expr PTOK_GE_OP shift_expr { $$= ($1 > $3 || !($1 ^ $3 ^ 0x80000000L))?1:0; }") if 0 else
         ("src/core/cmd.src/cmdpars.y", "| relational_expr PTOK_LE_OP shift_expr { $$= ($1 <= $3)?1:0; }", "| relational_expr PTOK_LE_OP shift_expr { $$= ((unsigned long)$1 <= (unsigned long)$3)?1:0; }")],
  demo=con("s51", "expression /d 10+((0-5)<=3)\n", ["^11$"], "-t C52"),
  needs="<= of operands with different signs", breaks="<= compares as unsigned"),
 dict(id="b11-load-range-end", prop="C07",
  edits=[("src/core/sim.src/uc.cc", "  if ((ma < 0xffffffff) && (addr > ma))", "  if ((ma < 0xffffffff) && (addr + (t_addr)(is->offset > 0) > ma))")],
  demo=con("s51", "load \"$T/a.ihx:0x10#0-3\"\nexpression /d rom[0x13]\n", ["^68$"], "-t C52").replace("cat > in.cmd", "printf ':0600000011223344556695\\r\\n:00000001FF\\r\\n' > a.ihx\ncat > in.cmd").replace("$T/a.ihx", "a.ihx"),
  needs="loading with both a positive offset and a range", breaks="last byte of the range is not loaded"),
 dict(id="b12-dump-string-escape", prop="C08",
  edits=[("src/core/sim.src/mem.cc", '	    case \'\\v\': f->write("\\\\v", 2); break;', '	    case \'\\v\': f->write("\\\\f", 2); break;')],
  demo=con("s51", "set memory rom 0 0x41 0x0b 0x42 0\ndump /s rom 0\n", [r"A\\vB"], "-t C52"),
  needs="a string dump of a vertical tab", breaks="escape of one control character"),
 dict(id="b13-dis-length", prop="C09",
  edits=[("src/sims/stm8.src/glob.cc", '{ 0x00f9, 0x00ff, \' \', 2, "addw Y,(%1,SP)" },', '{ 0x00f9, 0x00ff, \' \', 3, "addw Y,(%1,SP)" },')],
  demo=con("stm8", "set memory rom 0x100 0x72 0xf9 0x05 0x4c 0x9d\ndc 0x100 0x104\n", ["0x0*103 +4c"], "-t S208"),
  needs="disassembling 72 F9", breaks="length of addw Y,(shortoff,SP) in the disassembler"),
 dict(id="b14-reset-level0", prop="C12",
  edits=[("src/core/sim.src/uc.cc", "  while (il &&\n	 il->level >= 0)", "  while (il &&\n	 il->level > 0)")],
  demo=con("s51", """set memory rom 0 0x02 0x00 0x30
set memory rom 0x0b 0x04 0x80 0xfd
set memory rom 0x30 0x75 0x8c 0xff 0x75 0x8a 0xf0 0x75 0xa8 0x82 0xd2 0x8c 0x80 0xfe
step 40
reset
step 40
expression /d ACC>0
""", ["^1$"], "-t C52"),
  needs="reset while a priority 0 interrupt is in service", breaks="interrupts stay blocked after reset"),
 dict(id="b15-neg-carry", prop="I05",
  edits=[("src/core/motorola.src/ialu68.cc", "  if (!op) f|= flagZ; else f|= flagC;\n  if ((u8_t)op == 0x80) f|= flagV;", "  if (!op) f|= flagZ; else f|= flagC;\n  if ((u8_t)op == 0x80) f^= flagV|flagC;")],
  demo=con("m6800", "set memory rom 0x200 0x86 0x80 0x40\npc 0x200\nstep\nstep\nexpression /x CC&3\n", ["^0*3$"], "-t 6800"),
  needs="NEG of 0x80", breaks="carry of NEG"),
 dict(id="b16-cphx-sp", prop="I07",
  edits=[("src/sims/m68hc08.src/inst.cc", """    ea = ((unsigned char)fetch())+regs.SP;
    tick(1);
    operand = (get1(ea) << 8) | get1(ea+1);
    tick(2);
    tick(1);
  }""", """    ea = ((signed char)fetch())+regs.SP;
    tick(1);
    operand = (get1(ea) << 8) | get1(ea+1);
    tick(2);
    tick(1);
  }""")],
  demo=con("m68hc08", "set memory rom 0x2100 0x9e 0xf3 0x84\nset memory rom 0x1084 0x12 0x34\nset memory rom 0x0f84 0 0\nstep\npc 0x2100\nexpression SP=0x1000\nexpression H=0x12\nexpression X=0x34\nstep\nexpression /x P&2\n", ["^0*2$"], "-t HCS08"),
  needs="CPHX oprx8,SP with an offset above 0x7F on a HCS08", breaks="the offset is unsigned"),
 dict(id="b17-stm8-div-zero", prop="C10D",
  edits=[("src/sims/stm8.src/inst.cc", """      if (regs.A == 0x00) {
         FLAG_SET(BIT_C);
      } else {
         FLAG_CLEAR(BIT_C);
         if (prefix == 0x00) {""", """      if (regs.A == 0x00 && prefix == 0x00) {
         FLAG_SET(BIT_C);
      } else {
         FLAG_CLEAR(BIT_C);
         if (prefix == 0x00) {""")],
  demo=con("stm8", "set memory rom 0x100 0x4f 0x90 0x62\nstep\npc 0x100\nstep\nstep\n", [], "-t S208"),
  needs="DIV Y,A with A zero", breaks="the simulator divides by zero"),
]
