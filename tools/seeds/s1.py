import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import con
SEEDS = [
 dict(id="b01-subb-half-borrow", prop="I01",
  edits=[("src/sims/s51.src/arith.cc", """	   (((ac>0x7f && data<0x80 && result<0x80))?bmOV:0)""","") if 0 else
   ("src/sims/s51.src/arith.cc", """  data= fetch();
  ac  = acc->get();
  result= ac-data;
  pw= psw->get();
  if ((c= (pw & bmCY)?1:0))
    result--;
  psw->set((pw & ~(bmCY|bmOV|bmAC)) |
	   (((unsigned int)ac < (unsigned int)(data+c))?bmCY:0) |
	   (((ac<0x80 && data>0x7f && result>0x7f) ||
	     (ac>0x7f && data<0x80 && result<0x80))?bmOV:0) |
	   (((ac&0x0f) < ((data+c)&0x0f) ||
	     (c && ((data&0x0f)==0x0f)))?bmAC:0));""",
   """  data= fetch();
  ac  = acc->get();
  result= ac-data;
  pw= psw->get();
  if ((c= (pw & bmCY)?1:0))
    result--;
  psw->set((pw & ~(bmCY|bmOV|bmAC)) |
	   (((unsigned int)ac < (unsigned int)(data+c))?bmCY:0) |
	   (((ac<0x80 && data>0x7f && result>0x7f) ||
	     (ac>0x7f && data<0x80 && result<0x80))?bmOV:0) |
	   (((ac&0x0f) < ((data+c)&0x0f))?bmAC:0));""")],
  demo=con("s51", """
set memory rom 0 0xd3 0x74 0x25 0x94 0x1f
step
step
step
""", ["PSW= 0x40 CY=0 AC=1"], "-t C52"),
  needs="SUBB A,#data with carry set and a low data nibble of 0xF", breaks="auxiliary carry of SUBB A,#data"),
 dict(id="b02-da-carry", prop="I01",
  edits=[("src/sims/s51.src/arith.cc", """      if (((uint)ac+(uint)0x06) > 255)
	pw|= bmCY;
      ac+= 0x06;""", """      ac+= 0x06;""")],
  demo=con("s51", """
set memory rom 0 0x74 0xfb 0xd4
step
step
""", ["PSW= 0x81 CY=1"], "-t C52"),
  needs="DA A with an accumulator of 0xFA..0xFF", breaks="the low-digit correction of DA A can itself produce the carry"),
 dict(id="b03-dad-carry", prop="I02",
  edits=[("src/sims/i8085.src/ialu.cc", "  if (res > 0xffff) rF|= flagC;\n  rF|= ADDV16(rHL,op,res);", "  if (res >= 0xffff) rF|= flagC;\n  rF|= ADDV16(rHL,op,res);")],
  demo=con("i8085", """
set memory rom 0 0x21 0xff 0x7f 0x01 0x00 0x80 0x09
step
step
step
""", ["Flags= 0x.[02468ace] +[0-9]+ .*A= 0x17"], "-t 8080", ["Flags= 0x.[13579bdf]"]),
  needs="DAD whose sum is exactly 0xFFFF", breaks="carry of DAD"),
 dict(id="b05-split-offset", prop="C01",
  edits=[("src/core/sim.src/mem.cc", "				   end+1, as_end, chip_begin+(end-as_begin)+1);", "				   end+1, as_end, chip_begin+(end-begin)+1);")],
  demo=con("s51", """
memory create chip aa 64 8
memory create chip bb 64 8
memory create addressspace sp 0 64 8
memory create addressdecoder sp 0 63 aa 0
set memory aa 40 0x5a
memory create addressdecoder sp 10 19 bb 0
expr sp[40]
""", ["^90$"], "-t C52"),
  needs="an address decoder split in two by a later decoder in its middle", breaks="cells after the hole map to wrong chip addresses"),
 dict(id="b06-shrink-head", prop="C01",
  edits=[("src/core/sim.src/mem.cc", """      chip_begin+= (end-as_begin+1);
      as_begin= end+1;""", """      chip_begin+= (end-begin+1);
      as_begin= end+1;""")],
  demo=con("s51", """
memory create chip aa 64 8
memory create chip bb 64 8
memory create chip cc 64 8
memory create addressspace sp 0 64 8
memory create addressdecoder sp 10 40 aa 0
memory create addressdecoder sp 5 19 bb 0
set memory aa 25 0x5a
memory create addressdecoder sp 25 30 cc 0
expr sp[35]
""", ["^90$"], "-t C52"),
  needs="a decoder whose head is cut off by an overlapping one starting before it, then split by a third", breaks="cells of the rest map to wrong chip addresses"),
]
