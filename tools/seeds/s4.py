import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import con
SEEDS = [
 dict(id="b30-smod-mode3", prop="H02",
  edits=[("src/sims/s51.src/serial.cc", "	case 3:\n	  _bits= 11;\n	  _divby= _bmSMOD?16:32;", "	case 3:\n	  _bits= 11;\n	  _divby= 32;")],
  demo=con("s51", "set memory rom 0 0x75 0x87 0x80 0x75 0x98 0xc0 0x75 0x89 0x20 0x75 0x8d 0xff 0x75 0x8b 0xff 0xd2 0x8e 0x75 0x99 0x55 0x80 0xfe\nstep 130\nexpression /d 1000+(sfr[0x98]&2)\n", ["^1002$"], "-t C52"),
  needs="mode 3 selected while SMOD is set already", breaks="baud rate of mode 3 when SCON is written last"),
 dict(id="b31-no-irq-on-step", prop="C04",
  edits=[("src/core/sim.src/uc.cc", "  class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;\n\n  irq= false;", "  class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;\n\n  irq= false;\n  if (sim->steps_todo == 1)\n    return resGO;")],
  demo=con("m6800", "set memory rom 0x1000 0x0e 0x01 0x01\nset memory rom 0xfff8 0x20 0\nexpression SP=0x3000\npc 0x1000\nstep\nset memory irq_0_cfg 3 1\nstep\nexpression /x 0x10000+PC\n", ["^12000$"]),
  needs="an interrupt request while single stepping", breaks="interrupts are not accepted by step of one instruction"),
 dict(id="b32-ccf-bit", prop="N01",
  edits=[("src/sims/s51.src/uc51.cc", '{CPU_89C51R|CPU_251, 0xdb, "CCF3"}', '{CPU_89C51R|CPU_251, 0xdc, "CCF3"}')],
  demo=con("s51", "set memory rom 0x30 0xd2 0xdb 0xd2 0xdc\npc 0x30\nstep\nexpression /d 100+CCF3\n", ["^101$"], "-t 89C51R"),
  needs="bit CCF3 used by its name on the 89C51R", breaks="CCF3 names the bit of CCF4"),
 dict(id="b34-info-reads-sr", prop="C03",
  edits=[("src/sims/stm8.src/serial.cc", '  con->dd_printf("TXE=%d ", (regs[sr]->get() & 0x80)?1:0);', '  con->dd_printf("TXE=%d ", (regs[sr]->read() & 0x80)?1:0);')],
  demo=con("stm8", "set memory rom 0x5232 0\ninfo hardware uart[1]\ninfo hardware uart[1]\n", [], "-t S208", absent=["sr_read=1"]),
  needs="info of the UART between two accesses of the program", breaks="looking at the UART starts its flag clearing sequence"),
 dict(id="b36-bool-format", prop="C06",
  edits=[("src/core/cmd.src/newcmd.cc", "case 'B': con->dd_printf(\"%d\\n\", (v)?1:0); break;", "case 'B': con->dd_printf(\"%d\\n\", (v&0xffff)?1:0); break;")],
  demo=con("s51", "expression /B 0x30000\n", ["^1$"]),
  needs="logic format of a value whose low 16 bits are zero", breaks="format B prints 0 for a non zero value"),
 dict(id="b35-ashift", prop="H03",
  edits=[("src/sims/s51.src/mdu.cc", "    d= (u32_t)d << get_steps();\n  else\n    d>>= get_steps();\n  regs[0]->set(d & 0xff);", "    d= (u32_t)d << get_steps();\n  else\n    d/= (1L << get_steps());\n  regs[0]->set(d & 0xff);")],
  demo="", needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
