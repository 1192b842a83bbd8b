From 86f766fd72d0434e579017665cb5ac74ac440166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 001/197] fix: i8085: carry and aux carry of ADC, SBB, SUB and
 CMP

---
 src/sims/i8085.src/ialu.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..aa4a926 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,9 +31,8 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  res= rA+op+c;
   rF&= ~fAll_A;
   if (!is_daa) rF&= ~flagA;
   if (res>0xff) rF|= flagC;
@@ -41,7 +40,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
   res&= 0xff;
   if (!res) rF|= flagZ;
   if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
+    if ((rA&0xf)+(op&0xf)+c > 0xf)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
@@ -54,18 +53,16 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t c= (sub_c && (rF & flagC))?1:0;
+  u8_t inv= ~op;
+  u16_t res= rA+inv+1-c;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
-  rF|= ADDV8(rA,op,res);
+  if ((rA&0xf)+(inv&0xf)+1-c > 0xf) rF|= flagA;
+  rF|= ADDV8(rA,inv,res);
   rF|= X5(res);
   rF|= ptab[res];
   if (!cmp) cA.W(res);
-- 
2.43.0


From e855c42450b66daf92ce341d63fce62b485a6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 002/197] fix: i8085: RST vector uses all three bits of the
 operand

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From 0fd361477011d2233d735dbb5f8c324b04867dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 003/197] fix: i8080: aux carry of AND instructions

---
 src/sims/i8085.src/i8080cl.h | 2 ++
 src/sims/i8085.src/i8085cl.h | 2 ++
 src/sims/i8085.src/ialu.cc   | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..84843c3 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -205,6 +205,8 @@ public:
   // Arithmetic
   virtual int add8(u8_t op, bool add_c, bool is_daa= false);
   virtual int sub8(u8_t op, bool sub_c, bool cmp);
+  // Aux carry of AND instructions: OR of operand bits 3
+  virtual u8_t ana_aux(u8_t op) { return ((rA|op)&8)?flagA:flagNON; }
   virtual int ana(u8_t op);
   virtual int ora(u8_t op);
   virtual int xra(u8_t op);
diff --git a/src/sims/i8085.src/i8085cl.h b/src/sims/i8085.src/i8085cl.h
index 0e29e38..d544375 100644
--- a/src/sims/i8085.src/i8085cl.h
+++ b/src/sims/i8085.src/i8085cl.h
@@ -87,6 +87,8 @@ class cl_i8085: public cl_i8080
 
   virtual u16_t *tick_tab(void) { return tick_tab_8085; }
 
+  // AND instructions always set aux carry
+  virtual u8_t ana_aux(u8_t op) { return flagA; }
   virtual int inx(class cl_memory_cell &op);
   virtual int dcx(class cl_memory_cell &op);
 
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index aa4a926..4abf907 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -139,8 +139,9 @@ int
 cl_i8080::ana(u8_t op)
 {
   u8_t res= rA & op;
+  u8_t a= ana_aux(op);
   rF&= ~fAll;
-  rF|= flagA;
+  rF|= a;
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
-- 
2.43.0


From 498c085a3df031b4ccdb387028fb8add862ade84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 004/197] fix: i8085: DAA keeps carry, sets aux carry and
 always updates flags

---
 src/sims/i8085.src/ialu.cc | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 4abf907..5d2b289 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -243,27 +243,19 @@ int
 cl_i8080::DAA(t_mem code)
 {
   u8_t corr= 0;
+  bool c= rF & flagC, a= false;
   if (((rA & 0xf) > 9) || (rF & flagA))
-    corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
-    corr|= 0x60;
-  if (corr)
     {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
+      corr= 6;
+      a= (rA & 0xf) > 9;
     }
+  if ((rA > 0x99) || c)
+    {
+      corr|= 0x60;
+      c= true;
+    }
+  add8(corr, false, true);
+  cF.W((rF & ~(flagC|flagA)) | (c?flagC:flagNON) | (a?flagA:flagNON));
   return resGO;
 }
 
-- 
2.43.0


From 5f94e891471a2a55e701c59215750f798e1db34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 005/197] fix: i8085: clock counts of conditional jumps, LHLX,
 MOV A,H and self modifying code

---
 src/sims/i8085.src/glob.cc  | 12 ++++++------
 src/sims/i8085.src/i8080.cc |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..17aea9f 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -194,10 +194,10 @@ u16_t tick_tab_8080[256]= {
   /* 9_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
-  /* c_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* d_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* e_ */  0x0b05, 0x0a, 0x0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
-  /* f_ */  0x0b05, 0x0a, 0x0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
+  /* c_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* d_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* e_ */  0x0b05, 0x0a, 0x0a0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
+  /* f_ */  0x0b05, 0x0a, 0x0a0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
 };
 
 u16_t tick_tab_8085[256]= {
@@ -209,14 +209,14 @@ u16_t tick_tab_8085[256]= {
   /* 4_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 5_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 6_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x05,   0x04, 0x07, 0x04, 
+  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 8_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 9_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* c_ */  0x0c06, 0x0a, 0x0a07, 0x0a, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x0a, 0x0a07, 0x0c06, 0x1209,   0x12, 0x07, 0x0c, 
   /* d_ */  0x0c06, 0x0a, 0x0a07, 0x0a, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x0a, 0x0a07,   0x0a, 0x1209, 0x0a07, 0x07, 0x0c, 
-  /* e_ */  0x0c06, 0x0a, 0x0a07, 0x10, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209,   0x1a, 0x07, 0x0c, 
+  /* e_ */  0x0c06, 0x0a, 0x0a07, 0x10, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209,   0x0a, 0x07, 0x0c, 
   /* f_ */  0x0c06, 0x0a, 0x0a07, 0x04, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209, 0x0a07, 0x07, 0x0c 
 };
 
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..ab6569e 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -465,11 +465,11 @@ cl_i8080::exec_inst(void)
 {
   int res;
   u16_t *ttab= tick_tab();
+  u8_t code= rom->get(PC);
 
   tick_shift= 0;
   if ((res= exec_inst_tab(itab)) != resNOT_DONE)
     {
-      u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
       t>>= tick_shift;
       t&= 0xff;
-- 
2.43.0


From 73f2ba08242c13585cea2da66fefc9a477ca4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 006/197] fix: i8085: DSUB borrow, JX5/JNX5 polarity and
 LDHI/LDSI results

---
 src/sims/i8085.src/i8085.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..1c4e14a 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -257,16 +257,15 @@ cl_i8085::RDEL(t_mem code)
 int
 cl_i8085::DSUB(t_mem code)
 {
-  u16_t a= rHL, b= rBC;
+  u16_t a= rHL, b= ~rBC;
   u32_t r;
-  b= ~b+1;
-  r= a+b;
+  r= a+b+1;
   rF&= ~fAll;
   if (r <= 0xffff) rF|= flagC;
   if (r & 0x8000) rF|= flagS;
   r&= 0xffff;
   if (!r) rF|= flagZ;
-  if (((a&0xfff) + (b&0xfff)) > 0xfff) rF|= flagA;
+  if (((a&0xfff) + (b&0xfff) + 1) > 0xfff) rF|= flagA;
   rF|= ptab[r>>8];
   cHL.W(r);
   cF.W(rF);
@@ -276,13 +275,13 @@ cl_i8085::DSUB(t_mem code)
 int
 cl_i8085::JNX5(t_mem code)
 {
-  return jmp_if(rF & flagX5);
+  return jmp_if(!(rF & flagX5));
 }
 
 int
 cl_i8085::JX5(t_mem code)
 {
-  return jmp_if(!(rF & flagX5));
+  return jmp_if(rF & flagX5);
 }
 
 int
@@ -300,18 +299,14 @@ cl_i8085::RSTV(t_mem code)
 int
 cl_i8085::LDHI(t_mem code)
 {
-  u16_t a= rHL + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(rHL + fetch());
   return resGO;
 }
 
 int
 cl_i8085::LDSI(t_mem code)
 {
-  u16_t a= rSP + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(rSP + fetch());
   return resGO;
 }
 
-- 
2.43.0


From cfb689e0e4fe68deb06af1eaee85477d38349f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 007/197] fix: 16 bit memory access wraps around at the end of
 address space

---
 src/core/sim.src/uc.cc      | 5 ++++-
 src/sims/i8085.src/imove.cc | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..49727c6 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2894,7 +2894,10 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
 {
   if (!m) return 0;
   // 16 bit little endian, by default
-  return m->read(start_addr) + 256*m->read(start_addr+1);
+  t_addr next= start_addr+1;
+  if (!m->valid_address(next))
+    next= m->lowest_valid_address();
+  return m->read(start_addr) + 256*m->read(next);
 }
 
 /*
diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..faf643f 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -72,7 +72,7 @@ cl_i8080::SHLD_a16(t_mem code)
 {
   u16_t a= fetch16();
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write((a+1)&0xffff, rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -124,7 +124,7 @@ cl_i8080::XTHL(t_mem code)
   u16_t temp= read_addr(rom, rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write((rSP+1)&0xffff, rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From 4b80ddbeb88e1ba03b7e53cb2a23bc30eff6f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 008/197] fix: i8085: POP PSW keeps fixed flag bits

---
 src/sims/i8085.src/i8080cl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index 84843c3..b9ed625 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -198,7 +198,7 @@ public:
   virtual int POP_B(t_mem code) { cBC.W(pop2()); return resGO; }
   virtual int POP_D(t_mem code) { cDE.W(pop2()); return resGO; }
   virtual int POP_H(t_mem code) { cHL.W(pop2()); return resGO; }
-  virtual int POP_PSW(t_mem code) { cAF.W(pop2()); return resGO; }
+  virtual int POP_PSW(t_mem code) { cAF.W(pop2()); cF.W(rF); return resGO; }
   virtual int XTHL(t_mem code);
   virtual int SPHL(t_mem code);
   
-- 
2.43.0


From 76f4bbfa3fa98404851f718bd6e6aeeac57f7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 009/197] fix: validate_address wraps the first address after
 the end of the space

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From 70cea48dafd954f348ff012da7bacdd5e2b895a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 010/197] fix: s51: MOVC address wraps around at the end of
 code memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..ebc7717 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l + acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From 04946758390c53d0ed1919abde8164f654d375ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 011/197] fix: s51: parity flag always reflects the
 accumulator, it can not be written

---
 src/sims/s51.src/uc51.cc  | 7 ++++++-
 src/sims/s51.src/uc51cl.h | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..5d53bbf 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1990,7 +1990,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  psw_p= register_cell(bas, PSW);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2055,6 +2056,10 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    *val= (*val & ~bmP) | ptab51[cell_acc->get()];
+  else if (cell == psw_p)
+    *val= ptab51[cell_acc->get()];
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..51baeae 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -296,7 +296,7 @@ enum uc51cpu_cfg {
 class cl_uc51_cpu: public cl_hw
 {
 protected:
-  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
+  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw, *psw_p;
   class cl_memory_cell *acc_bits[8];
 public:
   chars movxri_expr;
-- 
2.43.0


From 194473b27f9030613202ddad810fd160d18b47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 012/197] fix: z80: half carry of ADC and SBC with a carry in

---
 src/sims/z80.src/z80mac.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..a53107f 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int hc= (accu & 0x0F) + (oper & 0x0F);			\
+    if (regs.raf.F & BIT_C) { ++oper; ++res; ++hc; }			\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if (hc > 0x0F)                             regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +97,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int hc= (accu & 0x0FFF) + (oper & 0x0FFF);			\
+    if (regs.raf.F & BIT_C) { ++oper; ++res; ++hc; }			\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if (hc > 0x0FFF)                                regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +130,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int hc= oper & 0x0F;					\
+    if (regs.raf.F & BIT_C) { ++oper; --res; ++hc; }			\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < hc)                 regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +148,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int hc= oper & 0x0FFF;					\
+    if (regs.raf.F & BIT_C) { ++oper; --res; ++hc; }			\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < hc)               regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From a433279d72fd2072ad6ffa87d71f4c295c84d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 013/197] fix: z80: parity of rotate and shift instructions is
 that of the result

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index a53107f..21eb902 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -190,7 +190,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -205,7 +205,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -224,7 +224,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -238,7 +238,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -250,7 +250,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -268,7 +268,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -280,7 +280,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -293,7 +293,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg))    regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 30962f367ddfd01f434c5a1faa4080ecab3f3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 014/197] fix: z80: IN r,(C) sets sign and zero and clears half
 carry

---
 src/sims/z80.src/inst_ed.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..9955464 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.h);
+      SET_Z(regs.bc.h);
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -143,7 +145,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.l);
+      SET_Z(regs.bc.l);
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -188,7 +192,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.h);
+      SET_Z(regs.de.h);
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -228,7 +234,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.l);
+      SET_Z(regs.de.l);
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -274,7 +282,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.h);
+      SET_Z(regs.hl.h);
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -314,7 +324,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.l);
+      SET_Z(regs.hl.l);
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -354,7 +366,9 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
+        regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+        SET_S(x);
+        SET_Z(x);
         if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
@@ -381,7 +395,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From 0f709f3a2663156a8578d011865eaa88c970f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 015/197] fix: z80: RRD and RLD set flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9955464..2c55d34 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -319,6 +319,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -360,6 +364,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From e3414b386cb0407d84d407bf281db19cef0632e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 016/197] fix: z80: RETN and RETI keep IFF2

---
 src/sims/z80.src/inst_ed.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2c55d34..f89ce0a 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -127,7 +127,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x45: // RETN (return from non-maskable interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;      
       //tick(13);
       return(resGO);
@@ -180,7 +179,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x4D: // RETI (return from interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;
       //tick(13);
       return(resGO);
-- 
2.43.0


From 20421122414e183380f6979e99709a181cda6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 017/197] fix: z80: OUTI and OTIR write the port selected by C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index f89ce0a..1d83430 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -473,7 +473,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -619,7 +619,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From 1d9909ef3f6bed6f635a898929f2a2b600268aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 018/197] fix: z80: flags and pointers of CPI, CPIR, CPD and
 CPDR

---
 src/sims/z80.src/inst_ed.cc | 124 +++++++++++++++---------------------
 1 file changed, 53 insertions(+), 71 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 1d83430..b9341bb 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -44,6 +44,18 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 }
 
 
+/* flags of block compares, carry is not affected */
+#define cp_block(br) {                                         \
+   ubtmp = (br);                                               \
+   regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);             \
+   regs.raf.F |= BIT_N;                                        \
+   if ((regs.raf.A & 0x0f) < (ubtmp & 0x0f)) regs.raf.F |= BIT_A; \
+   ubtmp = regs.raf.A - ubtmp;                                 \
+   SET_S(ubtmp);                                               \
+   SET_Z(ubtmp);                                               \
+}
+
+
 int  cl_z80::inst_ed_(t_mem code)
 {
   unsigned short tw;
@@ -446,15 +458,12 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA1: // CPI
       // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
-        ++regs.HL;
-        --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
-      }
+      cp_block(get1(regs.HL));
+      ++regs.HL;
+      --regs.BC;
+      if (regs.BC != 0) regs.raf.F |= BIT_P;
+      vc.rd++;
+      //tick(15);
       return(resGO);
 
     case 0xA2: // INI
@@ -499,13 +508,8 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
-      }
-      ++regs.HL;
+      cp_block(get1(regs.HL));
+      --regs.HL;
       --regs.BC;
       if (regs.BC != 0) regs.raf.F |= BIT_P;
       vc.rd++;
@@ -563,34 +567,22 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xB1: // CPIR
       // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
-        ++regs.HL;
-        --regs.BC;
-        vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+      cp_block(get1(regs.HL));
+      ++regs.HL;
+      --regs.BC;
+      vc.rd++;
+      //tick(15);
+      //if (regs.BC) //tick(5);
+      if (regs.BC)
+	{
+	  regs.raf.F |= BIT_P;
+	  if (!(regs.raf.F & BIT_Z))
+	    {
+	      cond_true= true;
+	      repeating= true;
+	      PC= instPC;
+	    }
+	}
       return(resGO);
 
     case 0xB2: // INIR
@@ -660,35 +652,25 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
-      {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
+      // compare acc with mem(HL), if ACC=0 set Z flag.  Decr HL, decr BC.
+      cp_block(get1(regs.HL));
+      --regs.HL;
+      --regs.BC;
+      vc.rd++;
+      //tick(15);
+      //if (regs.BC) //tick(5);
+      if (regs.BC)
+	{
+	  regs.raf.F |= BIT_P;
+	  if (!(regs.raf.F & BIT_Z))
 	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
+	      cond_true= true;
+	      repeating= true;
+	      PC= instPC;
 	    }
-	return(resGO);
-      }
+	}
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
-- 
2.43.0


From 9288301f4764288a824ad03d56f86372818a34aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 019/197] fix: z80: LDDR sets P flag while the counter is not
 zero

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index b9341bb..1664635 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -649,6 +649,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From 24c70fb408d22b149e552c86e6a2320adcb85e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 020/197] fix: z80: 16 bit accesses wrap around at the end of
 memory

---
 src/sims/z80.src/z80.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..3e03a71 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -847,31 +847,31 @@ cl_z80::tickt(t_mem code)
   switch (code)
     {
     case 0xdd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((u16_t)(instPC+1));
       if (c2 == 0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((u16_t)(instPC+3));
 	  t= ttab_ddcb[c4];
 	  break;
 	}
       t= ttab_dd[c2];
       break;
     case 0xfd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((u16_t)(instPC+1));
       if (c2==0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((u16_t)(instPC+3));
 	  t= ttab_fdcb[c4];
 	  break;
 	}
       t= ttab_fd[c2];
       break;
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((u16_t)(instPC+1));
       t= ttab_cb[c2];
       break;
     case 0xed:
-      c2= rom->read(instPC+1);
+      c2= rom->read((u16_t)(instPC+1));
       t= ttab_ed[c2];
       break;
     default:
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((u16_t)(addr+1), (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((u16_t)(addr+1));
   
   return (h << 8) | l;
 }
-- 
2.43.0


From 006abf2f9231712382de1b2b3c33bcf0234cd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 021/197] fix: z80: clock counts of INC (HL), DEC (HL), OUT
 (C),E and BIT n,(HL)

---
 src/sims/z80.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..766535a 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -1318,7 +1318,7 @@ u16_t z80_ttab_00[256]= {
   /*0*/        4, 10,  7,  6,       4,   4,  7,  4,      4, 11,  7,  6,       4,  4,  7,  4,
     /*1*/T(13,8), 10,  7,  6,       4,   4,  7,  4,     12, 11,  7,  6,       4,  4,  7,  4,
     /*2*/T(12,7), 10, 16,  6,       4,   4,  7,  4,T(12,7), 11, 16,  6,       4,  4,  7,  4,
-    /*3*/T(12,7), 10, 13,  6,       7,   7, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
+    /*3*/T(12,7), 10, 13,  6,      11,  11, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
     /*4*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*5*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*6*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
@@ -1342,7 +1342,7 @@ u16_t z80_ttab_ed[256]= {
   /*2*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*3*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*4*/ 12, 12, 15, 20,  8, 14,  8,  9, 12, 12, 15, 20,  0, 14,  0,  9,
-  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12,  1, 15, 20,  0,  0,  8,  9,
+  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12, 12, 15, 20,  0,  0,  8,  9,
   /*6*/ 12, 12, 15, 20,  0,  0,  0, 18, 12, 12, 15, 20,  0,  0,  0, 18,
   /*7*/ 12, 12, 15, 20,  0,  0,  0,  0, 12, 12, 15, 20,  0,  0,  0,  0,
   /*     0   1   2   3   4   5   6   7   8   9   a   b   c   d   e   f */
@@ -1368,10 +1368,10 @@ u16_t z80_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-- 
2.43.0


From fad80588a557fcf8fc66c136fd748f42a6319ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 022/197] fix: z80: target of relative jumps wraps around in 16
 bit address space

---
 src/sims/z80.src/inst.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..51fbaac 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -730,7 +730,7 @@ cl_z80::inst_djnz(t_mem code)
   j = fetch1();
   //tick(7);
   if ((--regs.bc.h != 0)) {
-    PC += j;
+    PC = (PC + j) & 0xffff;
     //tick(5);
     cond_true= true;
   } else {
@@ -771,33 +771,33 @@ cl_z80::inst_jr(t_mem code)
   //tick(6);
   switch(code) {
     case 0x18: // JR dd
-      PC += j;
+      PC = (PC + j) & 0xffff;
       //tick(5);
     break;
     case 0x20: // JR NZ,dd
       if (!(regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x28: // JR Z,dd
       if ((regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x30: // JR NC,dd
       if (!(regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x38: // JR C,dd
       if ((regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
-- 
2.43.0


From f7624039c226063b5bd404e0ed8a8727b4eed0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 023/197] fix: z80: DAA sets carry when upper digit is adjusted
 after subtract

---
 src/sims/z80.src/inst.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 51fbaac..3a619ba 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -846,6 +846,8 @@ cl_z80::inst_daa(t_mem code)
     regs.raf.F |= BIT_P;
   regs.raf.F |= N; /* restore N */
   regs.raf.F |= C; /* or with original C */
+  if (incr & 0x60)
+    regs.raf.F |= BIT_C;
 
   //tick(3);
   return(resGO);
-- 
2.43.0


From 5d2777423331cdda3b464184f55426367bacf82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 024/197] fix: z80: CALL reads its operand before storing
 return address

---
 src/sims/z80.src/inst.cc | 47 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 3a619ba..afa1cc1 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -1392,13 +1392,16 @@ cl_z80::inst_ret(t_mem code)
 int
 cl_z80::inst_call(t_mem code)
 {
+  u16_t target;
+
   switch(code)
     {
     case 0xC4: // CALL NZ,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_Z)) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1409,8 +1412,9 @@ cl_z80::inst_call(t_mem code)
     case 0xCC: // CALL Z,nnnn
       //tick(9);
       if (regs.raf.F & BIT_Z) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1419,16 +1423,18 @@ cl_z80::inst_call(t_mem code)
       }
       break;
     case 0xCD: // CALL nnnn
-      push2(PC+2);
-      PC = fetch2();
+      target = fetch2();
+      push2(PC);
+      PC = target;
       vc.wr+= 2;
       //tick(16);
       break;
     case 0xD4: // CALL NC,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_C)) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1439,8 +1445,9 @@ cl_z80::inst_call(t_mem code)
     case 0xDC: // CALL C,nnnn
       //tick(9);
       if (regs.raf.F & BIT_C) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1451,8 +1458,9 @@ cl_z80::inst_call(t_mem code)
     case 0xE4: // CALL PO,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_P)) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1463,8 +1471,9 @@ cl_z80::inst_call(t_mem code)
     case 0xEC: // CALL PE,nnnn
       //tick(9);
       if (regs.raf.F & BIT_P) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1475,8 +1484,9 @@ cl_z80::inst_call(t_mem code)
     case 0xF4: // CALL P,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_S)) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1487,8 +1497,9 @@ cl_z80::inst_call(t_mem code)
     case 0xFC: // CALL M,nnnn
       //tick(9);
       if (regs.raf.F & BIT_S) {
-        push2(PC+2);
-        PC = fetch2();
+        target = fetch2();
+        push2(PC);
+        PC = target;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
-- 
2.43.0


From 9c9c6036844a5d3b9ec111dd1c7758d80065fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 025/197] fix: z80: DAA does not set carry for adjusting the
 low digit after subtract

---
 src/sims/z80.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index afa1cc1..6012d1e 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -841,7 +841,7 @@ cl_z80::inst_daa(t_mem code)
   } else {
     add_A_bytereg(incr);
   }
-  regs.raf.F &= ~(BIT_P | BIT_N);
+  regs.raf.F &= ~(BIT_P | BIT_N | BIT_C);
   if (parity(regs.raf.A))
     regs.raf.F |= BIT_P;
   regs.raf.F |= N; /* restore N */
-- 
2.43.0


From a8dd6235b8f17a96a58c07800a48d408d0acb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 026/197] fix: memory cell command reports right chip address
 of 8 and 16 bit chips

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..5a1b2f6 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2131,9 +2131,9 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
   t_addr i= p - a;
   if (width <= 8)
     /*i*/;
-  if (width <= 16)
+  else if (width <= 16)
     i= i/2;
-  if (width <= 32)
+  else
     i= i/4;
   if (addr_of)
     *addr_of= i;
-- 
2.43.0


From 7cdca1854ed642bc048304a4947e6b1ece739f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 027/197] fix: address decoder must not be longer than the chip
 by one cell

---
 src/core/cmd.src/cmd_mem.cc | 2 +-
 src/core/sim.src/mem.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 619fe7d..e61fc3c 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -234,7 +234,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
   else if (as_begin < as->start_address ||
            as_end > as->highest_valid_address())
     con->dd_printf("Specified area is out of address space\n");
-  else if (as_end-as_begin > chip->get_size()-chip_begin)
+  else if (as_end-as_begin >= chip->get_size()-chip_begin)
     con->dd_printf("Specified area is out of chip size\n");
   else
     {
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5a1b2f6..3f276ae 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2364,7 +2364,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From ba1d481bbc46050a8788f0571fcd325383de3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 028/197] fix: removing a chip must not delete bankers twice

---
 src/core/sim.src/uc.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 49727c6..32b9d25 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1396,15 +1396,15 @@ cl_uc::remove_chip(class cl_memory *chip)
 		  as->undecode_area(NULL, as_start, as_end, NULL);
 		  break;
 		}
-	      if (ad->is_banker())
-		{
-		  if (ad->uses_chip(chip))
-		    {
-		      bankers.add(ad);
-		    }
-		}
 	    }
 	}
+      for (j= 0; j < as->decoders->get_count(); j++)
+	{
+	  ad= (class cl_address_decoder *)(as->decoders->at(j));
+	  if (ad->is_banker() &&
+	      ad->uses_chip(chip))
+	    bankers.add(ad);
+	}
       if (bankers.count > 0)
 	{
 	  int i;
-- 
2.43.0


From a0b77c2a871eb165b02a5cf6a437c6872f8002cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 029/197] fix: bank number is checked before used as index

---
 src/core/sim.src/mem.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 3f276ae..000e544 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2704,7 +2704,7 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if ((bank_nr < 0) || (bank_nr >= nuof_banks))
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
@@ -2759,7 +2759,8 @@ cl_banker::activate(class cl_console_base *con)
 
   if (b == bank)
     return true;
-  if (banks[b] == NULL)
+  if ((b < 0) || (b >= nuof_banks) ||
+      (banks[b] == NULL))
     return true;
   s= as_end - as_begin + 1;
   for (i= 0; i < s; i++)
@@ -2784,7 +2785,8 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
 
   if (b == bank)
     return true;
-  if (banks[b] == NULL)
+  if ((b < 0) || (b >= nuof_banks) ||
+      (banks[b] == NULL))
     return true;
   s= as_end - as_begin + 1;
   for (i= 0; i < s; i++)
-- 
2.43.0


From a56c9675276b4ae47af2d760679ce88f1b827149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 030/197] fix: redefinition of a bank keeps area decoded and
 activates the new bank

---
 src/core/sim.src/mem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 000e544..c3f60cc 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2714,8 +2714,12 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   ad->init();
   if (banks[bank_nr])
     {
+      // cells can be in use, do not undecode them
+      banks[bank_nr]->address_space= NULL;
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      if (bank_nr == bank)
+	bank= -1;
     }
   banks[bank_nr]= ad;
   /*
-- 
2.43.0


From 9f2a9ed5f5ef19e3f7dde8ee732388e881661b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 031/197] fix: bit selected by a bander is forgotten when cell
 is undecoded

---
 src/core/sim.src/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index c3f60cc..59beccf 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1153,6 +1153,8 @@ cl_memory_cell::un_decode(void)
     {
       data= &def_data;
       flags|= CELL_NON_DECODED;
+      if (width == 1)
+	mask= 1; // forget bit of bander
     }
 }
 
-- 
2.43.0


From db71bad9970d51c3296c84b8ea0792194c145e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 032/197] fix: rest of a partially overlapped bander keeps its
 bits

---
 src/core/sim.src/mem.cc  | 34 +++++++++++++++++++++++++++++++++-
 src/core/sim.src/memcl.h |  3 +++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 59beccf..c5e4c9e 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2902,6 +2902,38 @@ cl_bander::cl_bander(class cl_address_space *the_as,
 {
   bpc= the_bpc;
   distance= the_distance;
+  first_bit= 0;
+}
+
+bool
+cl_bander::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr asb= as_begin, cb= chip_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  t_addr bits= first_bit + (as_begin-asb);
+  chip_begin= cb + (bits/bpc)*distance;
+  first_bit= bits%bpc;
+  return ret;
+}
+
+class cl_address_decoder *
+cl_bander::split(t_addr begin, t_addr end)
+{
+  class cl_bander *nd= 0;
+  if ((begin > as_begin) && (as_end > end))
+    {
+      t_addr bits= first_bit + (end+1-as_begin);
+      nd= new cl_bander(address_space, end+1, as_end,
+			memchip, chip_begin + (bits/bpc)*distance,
+			bpc, distance);
+      nd->first_bit= bits%bpc;
+      nd->init();
+    }
+  if (begin > as_begin)
+    shrink_out_of(begin, as_end);
+  else
+    shrink_out_of(as_begin, end);
+  return nd;
 }
 
 bool
@@ -2911,7 +2943,7 @@ cl_bander::activate(class cl_console_base *con)
 
   t_addr asa, ca;
   int b, m;
-  for (asa= as_begin, ca= chip_begin, b= 0, m= 1;
+  for (asa= as_begin, ca= chip_begin, b= first_bit, m= 1<<first_bit;
        asa <= as_end;
        asa++)
     {
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 21b12d7..352d9c0 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -744,6 +744,7 @@ class cl_bander: public cl_address_decoder
  protected:
   int bpc; // bits_per_chip
   int distance; // distance of next chip location
+  int first_bit; // bit number of the first cell
  public:
   cl_bander(class cl_address_space *the_as,
 	    t_addr the_asb,
@@ -754,6 +755,8 @@ class cl_bander: public cl_address_decoder
 	    int the_distance);
  public:
   virtual bool is_bander() { return true; }
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
 
   virtual bool activate(class cl_console_base *con);
   virtual void print_info(const char *pre, class cl_console_base *con);
-- 
2.43.0


From 4d667eda6c529daebce7209109d794007ea4cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 033/197] fix: rest of a partially overlapped banker keeps its
 banks

---
 src/core/sim.src/mem.cc  | 42 ++++++++++++++++++++++++++++++++++++++++
 src/core/sim.src/memcl.h |  2 ++
 2 files changed, 44 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index c5e4c9e..377b623 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2736,6 +2736,48 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   activate(0);
 }
 
+bool
+cl_banker::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr asb= as_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  for (int i= 0; i < nuof_banks; i++)
+    {
+      class cl_address_decoder *ad= banks[i];
+      if (!ad)
+	continue;
+      ad->chip_begin+= as_begin-asb;
+      ad->as_begin= as_begin;
+      ad->as_end= as_end;
+    }
+  return ret;
+}
+
+class cl_address_decoder *
+cl_banker::split(t_addr begin, t_addr end)
+{
+  class cl_banker *nd= 0;
+  t_addr offset= end+1-as_begin, ase= as_end;
+  if (begin > as_begin)
+    shrink_out_of(begin, as_end);
+  else
+    {
+      shrink_out_of(as_begin, end);
+      return NULL;
+    }
+  if (ase > end)
+    {
+      nd= new cl_banker(banker_as, banker_addr, banker_mask,
+			banker2_as, banker2_addr, banker2_mask, banker2_shift,
+			address_space, end+1, ase);
+      nd->init();
+      for (int i= 0; i < nuof_banks; i++)
+	if (banks[i])
+	  nd->add_bank(i, banks[i]->memchip, banks[i]->chip_begin+offset);
+    }
+  return nd;
+}
+
 t_mem
 cl_banker::actual_bank()
 {
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 352d9c0..17dca9d 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -723,6 +723,8 @@ class cl_banker: public cl_address_decoder
   virtual ~cl_banker();
   virtual int init();
   virtual bool is_banker() { return true; }
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
 
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
-- 
2.43.0


From 24067df3189e459a5dec3565b79e9d7a869ee37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 034/197] fix: number of bits is checked in memory create
 bander command

---
 src/core/cmd.src/cmd_mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index e61fc3c..9a9cffe 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -366,6 +366,8 @@ COMMAND_DO_WORK_UC(cl_memory_create_bander_cmd)
   else if (cb < chip->start_address ||
            cb > chip->highest_valid_address())
     con->dd_printf("Specified chip address is out of size\n");
+  else if ((bpc < 1) || (bpc > chip->width))
+    con->dd_printf("Wrong number of bits per chip cell\n");
   else
     {
       class cl_bander *b=
-- 
2.43.0


From 2732abdf4e76670488d49ff83a21c890ef7ba78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 035/197] fix: memory commands do not use missing parameters
 after syntax error

---
 src/core/cmd.src/cmd_mem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 9a9cffe..1261d3a 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -80,7 +80,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_chip_cmd)
     width= params[2]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!memid ||
       !*memid)
@@ -138,7 +138,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressspace_cmd)
     width= params[3]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!memid ||
       !*memid)
@@ -221,7 +221,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
     chip_begin= params[4]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!as->is_address_space())
     con->dd_printf("%s is not an address space\n", as->get_name("unknown"));
@@ -537,7 +537,7 @@ COMMAND_DO_WORK_UC(cl_memory_remove_chip_cmd)
     chip= params[0]->value.memory.memory;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!chip)
     con->dd_printf("Wrong id\n");
-- 
2.43.0


From f09bdb36d5116b97005dcfaa172b0444b685750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 036/197] fix: split of a banker keeps cells mapped when
 selected bank is not defined

---
 src/core/sim.src/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 377b623..1ded323 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2774,6 +2774,8 @@ cl_banker::split(t_addr begin, t_addr end)
       for (int i= 0; i < nuof_banks; i++)
 	if (banks[i])
 	  nd->add_bank(i, banks[i]->memchip, banks[i]->chip_begin+offset);
+      if ((nd->bank < 0) && (bank >= 0))
+	nd->switch_to(bank, NULL);
     }
   return nd;
 }
-- 
2.43.0


From cc0c26b339ee518cc5a2a26b40a128b153c566fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 037/197] fix: split of a banker keeps actual mapping of the
 tail

---
 src/core/sim.src/mem.cc | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 1ded323..20feb92 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2756,27 +2756,24 @@ cl_banker::shrink_out_of(t_addr begin, t_addr end)
 class cl_address_decoder *
 cl_banker::split(t_addr begin, t_addr end)
 {
-  class cl_banker *nd= 0;
-  t_addr offset= end+1-as_begin, ase= as_end;
-  if (begin > as_begin)
-    shrink_out_of(begin, as_end);
-  else
+  if ((begin <= as_begin) || (end >= as_end))
     {
-      shrink_out_of(as_begin, end);
+      shrink_out_of(begin, end);
       return NULL;
     }
-  if (ase > end)
-    {
-      nd= new cl_banker(banker_as, banker_addr, banker_mask,
-			banker2_as, banker2_addr, banker2_mask, banker2_shift,
-			address_space, end+1, ase);
-      nd->init();
-      for (int i= 0; i < nuof_banks; i++)
-	if (banks[i])
-	  nd->add_bank(i, banks[i]->memchip, banks[i]->chip_begin+offset);
-      if ((nd->bank < 0) && (bank >= 0))
-	nd->switch_to(bank, NULL);
-    }
+  // take over cells of tail in their actual state
+  t_addr offset= end+1-as_begin;
+  class cl_banker *nd=
+    new cl_banker(banker_as, banker_addr, banker_mask,
+		  banker2_as, banker2_addr, banker2_mask, banker2_shift,
+		  address_space, end+1, as_end);
+  nd->init();
+  nd->bank= bank;
+  as_end= end;
+  shrink_out_of(begin, end);
+  for (int i= 0; i < nuof_banks; i++)
+    if (banks[i])
+      nd->add_bank(i, banks[i]->memchip, banks[i]->chip_begin+offset);
   return nd;
 }
 
-- 
2.43.0


From 356de83dcfe180121a96b50d3f5a416153e2a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 038/197] fix: cells of a removed chip are always undecoded

---
 src/core/sim.src/uc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 32b9d25..afab683 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1417,6 +1417,16 @@ cl_uc::remove_chip(class cl_memory *chip)
 	    }
 	  bankers.disconn_all();
 	}
+      // cells can be left on the chip by an already redefined bank
+      if (chip->is_chip())
+	for (t_addr a= 0; a < as->get_size(); a++)
+	  {
+	    t_addr addr= as->get_start_address() + a;
+	    class cl_memory_cell *c= as->get_cell(addr);
+	    if (!c->get_flag(CELL_NON_DECODED) &&
+		((class cl_memory_chip *)chip)->is_slot(c->get_data(), NULL))
+	      as->undecode_cell(addr);
+	  }
     }
   memchips->disconn(chip);
   delete chip;
-- 
2.43.0


From 7c8ebfdc506ad6274a1a945ce30e997b73bdb7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 039/197] fix: s51: external interrupt type and pin states are
 initialized

---
 src/sims/s51.src/interrupt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..3fde583 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -44,6 +44,8 @@ cl_interrupt::cl_interrupt(class cl_uc *auc):
   cl_hw(auc, HW_INTERRUPT, 0, "irq")
 {
   was_reti= false;
+  bit_IT0= bit_IT1= false;
+  bit_INT0= bit_INT1= true;
 }
 
 int
-- 
2.43.0


From d17421551564a2a2b7240d4bedd2d88d1886d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 040/197] fix: xa: list of processor types is set so the
 simulator starts

---
 src/sims/xa.src/sxa.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/xa.src/sxa.cc b/src/sims/xa.src/sxa.cc
index 7ec770f..7f15f4a 100644
--- a/src/sims/xa.src/sxa.cc
+++ b/src/sims/xa.src/sxa.cc
@@ -44,6 +44,7 @@ main(int argc, char *argv[])
 
   app_start_at= dnow();
   application= new cl_app();
+  cpus= cpus_xa;
   application->set_name("sxa");
   application->init(argc, argv);
   sim= new cl_simxa(application);
-- 
2.43.0


From 0f3de309e422dac191735fdecbc78b358f8ee179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 041/197] fix: disassembler and register print do not read
 memory through devices

---
 src/core/motorola.src/irq68.cc    |   2 +-
 src/core/motorola.src/m6800.cc    |  37 ++++---
 src/core/motorola.src/m6800cl.h   |   1 +
 src/core/motorola.src/m68hc11.cc  |  26 ++---
 src/core/sim.src/uc.cc            |  11 +++
 src/core/sim.src/uccl.h           |   1 +
 src/sims/f8.src/disass.cc         |  68 ++++++-------
 src/sims/f8.src/f8.cc             |   2 +-
 src/sims/i8048.src/i8020.cc       |  10 +-
 src/sims/i8048.src/i8048.cc       |   2 +-
 src/sims/i8085.src/i8080.cc       |  38 ++++----
 src/sims/i8085.src/i8085.cc       |   4 +-
 src/sims/m68hc12.src/dis.cc       | 154 +++++++++++++++---------------
 src/sims/mos6502.src/irq.cc       |   2 +-
 src/sims/mos6502.src/mos6502.cc   | 113 ++++++++++++----------
 src/sims/mos6502.src/mos6502cl.h  |   1 +
 src/sims/mos6502.src/mos65ce02.cc |   2 +-
 src/sims/oisc.src/em.cc           |   2 +-
 src/sims/oisc.src/oisc.cc         |   8 +-
 src/sims/rxk.src/r3ka.cc          |   4 +-
 src/sims/rxk.src/r6k.cc           |   2 +-
 src/sims/rxk.src/rxk.cc           |  64 ++++++-------
 src/sims/s51.src/uc51.cc          |   6 +-
 src/sims/stm8.src/stm8.cc         |   4 +-
 src/sims/tlcs.src/t870c.cc        |  28 +++---
 src/sims/tlcs.src/t870c1.cc       |  26 ++---
 src/sims/z80.src/ez80.cc          |   8 +-
 src/sims/z80.src/gb80.cc          |  12 +--
 src/sims/z80.src/r800.cc          |   4 +-
 src/sims/z80.src/z80.cc           |  58 +++++------
 30 files changed, 366 insertions(+), 334 deletions(-)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..f3035d1 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -76,7 +76,7 @@ cl_irq_hw::print_info(class cl_console_base *con)
 	(class cl_it_src *)(uc->it_sources->at(i));
       class cl_it_src *pa= is->get_parent();
       class cl_it_src *isp= (pa)?pa:is;
-      t_addr a= uc->read_addr(uc->rom, isp->addr);
+      t_addr a= uc->peek_addr(uc->rom, isp->addr);
       con->dd_printf("  [0x%04x] 0x%04x", AU(isp->addr), a);
       con->dd_printf(" %-3s", (is->enabled())?"en":"dis");
       con->dd_printf(" %2d", uc->priority_of(is->nuof));
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..05e4170 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -371,7 +371,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
   if (dis_e->mnemonic == NULL)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x18) { addr++; }
   if (code == 0x1a) { addr++; }
   if (code == 0xcd) { addr++; }
@@ -394,48 +394,48 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(++addr);
+	      h= rom->get(++addr);
 	      a= cI->get()+h;
 	      work.appendf("$%02x,%s", h, cI->name.c_str());
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(++addr);
-	      l= rom->read(++addr);
+	      h= rom->get(++addr);
+	      l= rom->get(++addr);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(++addr);
+	      h= a= rom->get(++addr);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(++addr));
+			   rom->get(++addr));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, ++addr));
+			   peek_addr(rom, ++addr));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      addr++;
 	      break;
 	    }
@@ -468,6 +468,15 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256 + l;
 }
 
+t_addr
+cl_m6800::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  u8_t h, l;
+  h= m->get(start_addr);
+  l= m->get(start_addr+1);
+  return h*256 + l;
+}
+
 void
 cl_m6800::print_regs(class cl_console_base *con)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..13f0ba0 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -190,6 +190,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..6ee990e 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -352,48 +352,48 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   peek_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    }
 	  //work+= temp;
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index afab683..f8847ef 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2910,6 +2910,17 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
   return m->read(start_addr) + 256*m->read(next);
 }
 
+// Same as read_addr, without side effects of reading
+t_addr
+cl_uc::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  if (!m) return 0;
+  t_addr next= start_addr+1;
+  if (!m->valid_address(next))
+    next= m->lowest_valid_address();
+  return m->get(start_addr) + 256*m->get(next);
+}
+
 /*
  * Messages to broadcast
  */
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..b5ab889 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -540,6 +540,7 @@ public:
   virtual chars cell_name(class cl_memory_cell *cell, int bitnr_high, int bitnr_low);
   virtual chars cell_name(class cl_memory_cell *cell) { return cell_name(cell, -1, -1); }
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
   virtual class cl_cvar *get_var(chars name);
   
   /* Converting abstract address spaces into real ones */
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 638c336..b91d760 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -167,7 +167,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
   u16_t a, nn;
   i16_t d;
   
-  code= rom->read(addr);
+  code= rom->get(addr);
   while (code == PREF_SWAPOP || code == PREF_ALT1 || code == PREF_ALT2 || code == PREF_ALT3 || code == PREF_ALT4 || code == PREF_ALT5)
     {
       switch (code) {
@@ -190,10 +190,10 @@ cl_f8::disassc(t_addr addr, chars *comment)
         prefs = P_ALT5;
         break;
       }
-      code= rom->read(++addr);
+      code= rom->get(++addr);
     }
   de= get_dis_entry(addr);
-  //code= rom->read(addr);
+  //code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -225,129 +225,129 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    word->append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      word->appendf("0x%02x", rom->read(addr+1));
+	      word->appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      word->appendf("0x%04x", read_addr(rom, addr+1));
+	      word->appendf("0x%04x", peek_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strstr(fmt.c_str(), "a16_b") == fmt.c_str())
 	    {
 	      char bc= fmt.c_str()[5];
 	      int b= 0;
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      l= rom->read(a);
+	      l= rom->get(a);
 	      h= l&(1<<b);
 	      comment->appendf("; [0x%04x]= 0x%02x.%d=%d", a, l, b, h?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_8") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_8") == 0)
 	    {
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_16") == 0)
 	    {
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_8") == 0)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_16") == 0)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,y", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnA_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= a16(prefs)+nn;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,%s", nn, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 
 	  continue;
@@ -379,13 +379,13 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      break;
 
 	    case 'd':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      word->appendf("%+d", d);
 	      break;
 
 	    case 'r':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      a= addr+2+d;
 	      word->appendf("0x%04x", a);
diff --git a/src/sims/f8.src/f8.cc b/src/sims/f8.src/f8.cc
index 44a30df..db33011 100644
--- a/src/sims/f8.src/f8.cc
+++ b/src/sims/f8.src/f8.cc
@@ -168,7 +168,7 @@ cl_f8::print_regs(class cl_console_base *con)
       t_addr al;
       al= (rSP+i)&0xffff;
       con->dd_cprintf("dump_number", " %02x",
-		      (u8_t)(rom->read(al)));
+		      (u8_t)(rom->get(al)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..094f73c 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -371,7 +371,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -398,18 +398,18 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    work.append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
 	      a= addr & 0xf00;
-	      a|= rom->read(addr+1);
+	      a|= rom->get(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a11") == 0)
 	    {
 	      a= (code&0xe0)<<3;
-	      a+= rom->read(addr+1);
+	      a+= rom->get(addr+1);
 	      work.appendf("P.0x%04x", a);
 	      if (A11) a|= 0x800;
 	      temp.format("; %04x", a);
@@ -483,7 +483,7 @@ cl_i8020::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..9b06d49 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -325,7 +325,7 @@ cl_i8048::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index ab6569e..e9baf11 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -245,7 +245,7 @@ cl_i8080::dis_rp8(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%02x", a, rom->read(a));
+  comment->appendf("[0x%04x]= 0x%02x", a, rom->get(a));
 }
 
 void
@@ -261,7 +261,7 @@ cl_i8080::dis_rp16(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%04x", a, read_addr(rom, a));
+  comment->appendf("[0x%04x]= 0x%04x", a, peek_addr(rom, a));
 }
 
 char *
@@ -276,7 +276,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -313,23 +313,23 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("0x%02x", rom->read(addr+1));
+	      work.appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "hli8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->read(rHL+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->get(rHL+l));
 	    }
 	  if (strcmp(fmt.c_str(), "spi8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->read(rSP+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->get(rSP+l));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      work.appendf("0x%04x", read_addr(rom, addr+1));
+	      work.appendf("0x%04x", peek_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "rp5") == 0)
 	    {
@@ -353,25 +353,25 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "de16") == 0)
 	    {
 	      a= rDE;
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "rst") == 0)
 	    {
@@ -380,12 +380,12 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "in") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  if (strcmp(fmt.c_str(), "out") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  continue;
@@ -435,8 +435,8 @@ cl_i8080::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 1c4e14a..161b521 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -178,8 +178,8 @@ cl_i8085::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index d9a207e..6892d74 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -75,7 +75,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
   int i;
   bool first;
 
-  if (rom->read(addr) == 0x04)
+  if (rom->get(addr) == 0x04)
     {
       addr++;
       return disass_loop(&addr, &work, comment);
@@ -87,7 +87,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
 
-  if (rom->read(addr) == 0x18)
+  if (rom->get(addr) == 0x18)
     addr++;
 
   first= true;
@@ -111,9 +111,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ep") == 0)
 	    {
 	      u8_t h, l, p;
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
-	      p= rom->read(addr+3);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
+	      p= rom->get(addr+3);
 	      work.appendf("$%04x", h*256+l);
 	      work.append(",");
 	      work.appendf("$%02x", p);
@@ -121,11 +121,11 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ip") == 0)
 	    {
 	      t_addr a= addr+1;
-	      u8_t xb= rom->read(a);
+	      u8_t xb= rom->get(a);
 	      disass_xb(&a, &work, comment, 3);
 	      if (!xb_indirect(xb))
 		{
-		  u8_t p= rom->read(a);
+		  u8_t p= rom->get(a);
 		  work.append(",");
 		  work.appendf("$%02x", p);
 		}
@@ -133,10 +133,10 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "IMID") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, l, xb= rom->read(a);
+	      u8_t h, l, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      work.appendf("#$%04x", h*256+l);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 2, xb_PC(xb)?2:0);
@@ -144,9 +144,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "imid") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, xb= rom->read(a);
+	      u8_t h, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
+	      h= rom->get(addr++);
 	      work.appendf("#$%02x", h);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 1, xb_PC(xb)?1:0);
@@ -154,27 +154,27 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "EXID") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%04x",asrc,rom->read(asrc)*256+rom->read(asrc+1));
+	      comment->appendf("; [%04x]=%04x",asrc,rom->get(asrc)*256+rom->get(asrc+1));
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "exid") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%02x",asrc,rom->read(asrc));
+	      comment->appendf("; [%04x]=%02x",asrc,rom->get(asrc));
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IDID") == 0)
@@ -182,8 +182,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 2, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 2, xb_PC(xbdst)?1:0);
@@ -193,84 +193,84 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 1, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 1, xb_PC(xbdst)?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IMEX") == 0)
 	    {
-	      u16_t i= read_addr(rom, addr+2);
-	      u16_t e= read_addr(rom, addr+4);
+	      u16_t i= peek_addr(rom, addr+2);
+	      u16_t e= peek_addr(rom, addr+4);
 	      work.appendf("#$%04x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%04x", e, read_addr(rom, e));
+	      comment->appendf("; [%04x]=%04x", e, peek_addr(rom, e));
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
-	      u8_t i= rom->read(addr+2);
-	      u16_t e= read_addr(rom, addr+3);
+	      u8_t i= rom->get(addr+2);
+	      u16_t e= peek_addr(rom, addr+3);
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%02x", e, rom->read(e));
+	      comment->appendf("; [%04x]=%02x", e, rom->get(e));
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%04x [%04x]=%04x",
-			       s, read_addr(rom, s),
-			       d, read_addr(rom, d));
+			       s, peek_addr(rom, s),
+			       d, peek_addr(rom, d));
 	    }
 	  if (strcmp(fmt.c_str(), "exex") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%02x [%04x]=%02x",
-			       s, rom->read(s),
-			       d, rom->read(d));
+			       s, rom->get(s),
+			       d, rom->get(d));
 	    }
 	  if (strcmp(fmt.c_str(), "IDEX") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%04x", adst, read_addr(rom,adst));
+	      comment->appendf(" [%04x]=%04x", adst, peek_addr(rom,adst));
 	    }
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%02x", adst, rom->read(adst));
+	      comment->appendf(" [%04x]=%02x", adst, rom->get(adst));
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
-	      u16_t a= read_addr(rom, addr+2);
-	      u32_t m= (read_addr(rom, a)<<16) + (read_addr(rom, a+2));
+	      u16_t a= peek_addr(rom, addr+2);
+	      u32_t m= (peek_addr(rom, a)<<16) + (peek_addr(rom, a+2));
 	      work.appendf("$%04x", a);
 	      comment->appendf("; [X=%04x]=%04x,%+d [Y=%04x]=%04x,%+d [%04x]=%08x,%+d",
-			       rX, read_addr(rom, rX), (int)read_addr(rom, rX),
-			       rY, read_addr(rom, rY), (int)read_addr(rom, rY),
+			       rX, peek_addr(rom, rX), (int)peek_addr(rom, rX),
+			       rY, peek_addr(rom, rY), (int)peek_addr(rom, rY),
 			       a, m, int(m));
 	    }
 	  continue;
@@ -284,54 +284,54 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   peek_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    case 'R': // relative 16 bit offset
 	      {
 		u16_t a= addr+4;
-		i16_t r= rom->read(addr+2)*256;
-		r+= rom->read(addr+3);
+		i16_t r= rom->get(addr+2)*256;
+		r+= rom->get(addr+3);
 		a+= r;
 		work.appendf("$%04x", a);
 		break;
@@ -369,7 +369,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
   t_addr aof_xb= *addr;
   u16_t a;
   
-  p= rom->read(aof_xb);
+  p= rom->get(aof_xb);
   (*addr)++;
   
   switch (xb_type(p))
@@ -388,8 +388,8 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
-      h= rom->read(aof_xb+1);
-      l= rom->read(aof_xb+2);
+      h= rom->get(aof_xb+1);
+      l= rom->get(aof_xb+2);
       work->appendf("[$%04x,%s]", h*256+l,rr_names[(p&0x18)>>3]);
       break;
 
@@ -418,14 +418,14 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       if ((p&0x02) == 0x00)
 	{
 	  // 9 bit
-	  offset= rom->read(aof_xb+1);
+	  offset= rom->get(aof_xb+1);
 	  if (p&0x01) offset|= 0xff00;
 	}
       else
 	{
 	  // 16 bit
-	  h= rom->read(aof_xb+1);
-	  l= rom->read(aof_xb+2);
+	  h= rom->get(aof_xb+1);
+	  l= rom->get(aof_xb+2);
 	  offset= h*256+l;
 	}
       work->appendf("$%+d,%s", offset, rr_names[(p&0x18)>>3]);
@@ -458,7 +458,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
 	comment->appendf("%+d", corr);
       a+= corr;
       comment->appendf("]=$%02x%02x%02x",
-		       rom->read(a), rom->read(a+1), rom->read(a+2));
+		       rom->get(a), rom->get(a+1), rom->get(a+2));
     }
   *addr= aof_xb;
 }
@@ -468,7 +468,7 @@ CL12::disass_b7(t_addr *addr, chars *work, chars *comment)
 {
   bool spec= false;
   (*addr)++;
-  u8_t pb= rom->read(*addr);
+  u8_t pb= rom->get(*addr);
   if (pb & 0x08)
     work->append("TFR/EXG INVALID");
   else
@@ -504,9 +504,9 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
   u8_t code;
   i16_t r;
 
-  code= rom->read(*addr);
+  code= rom->get(*addr);
   *addr= *addr + 1;
-  r= rom->read(*addr);
+  r= rom->get(*addr);
   *addr= *addr + 1;
   if ((code & 0xc0) == 0) work->append("D");
   else if ((code & 0xc0) == 0x40) work->append("T");
@@ -534,7 +534,7 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
 int
 CL12::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x04)
     return 3;
   struct dis_entry *di= get_dis_entry(addr);
@@ -544,7 +544,7 @@ CL12::inst_length(t_addr addr)
 	return di->length;
       int l= -(di->length);
       u16_t a= (u16_t)addr+l-1;
-      u8_t p= rom->read(a);
+      u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
 	  &&
diff --git a/src/sims/mos6502.src/irq.cc b/src/sims/mos6502.src/irq.cc
index 81702c0..8c8a06f 100644
--- a/src/sims/mos6502.src/irq.cc
+++ b/src/sims/mos6502.src/irq.cc
@@ -68,7 +68,7 @@ cl_irq_hw::print_info(class cl_console_base *con)
 	(class cl_it_src *)(uc->it_sources->at(i));
       class cl_it_src *pa= is->get_parent();
       class cl_it_src *isp= (pa)?pa:is;
-      t_addr a= uc->read_addr(uc->rom, isp->addr);
+      t_addr a= uc->peek_addr(uc->rom, isp->addr);
       con->dd_printf("  [0x%04x] 0x%04x", AU(isp->addr), a);
       con->dd_printf(" %-3s", (is->enabled())?"en":"dis");
       con->dd_printf(" %2d", uc->priority_of(is->nuof));
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..01ee7f0 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -304,170 +304,170 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': // (ind,X)
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
-	      a= read_addr(rom, l);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      a= peek_addr(rom, l);
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
-	      a= read_addr(rom, l) + rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      a= peek_addr(rom, l) + rY;
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'A': // abs -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'j': // JMP abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'J': // JMP (ind)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(")");
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'z': // zpg
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Z': // zpg -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'X': // zpg.X
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '%': // zpg.X -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Y': // zpg.Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y");
 	      l+= rY;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'I': // (abs,X)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '6': // abs,X -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'p': // abs,Y
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",Y");
 	      a+= rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'r': // rel
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= addr + (i8_t)l + 2;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'R': // rel in BBR/BBS
-	      l= rom->read(addr+2);
+	      l= rom->get(addr+2);
 	      a= addr + (i8_t)l + 3;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '#': // imm8
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
-	      a= read_addr(rom, addr+1);
-	      a= read_addr(rom, a);
+	      a= peek_addr(rom, addr+1);
+	      a= peek_addr(rom, a);
 	      work.appendf("($%04x)", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
-	      a= read_addr(rom, a);
+	      a= peek_addr(rom, a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'L': // log2(imm8)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      a= L2i(a);
 	      work.appendf("%d", a);
 	      break;
 	    case 'T': // block transfer params: SL,SH,DL,DH,LL,LH
 	      {
-		u16_t s= rom->read(addr+1) + 256*rom->read(addr+2);
-		u16_t d= rom->read(addr+3) + 256*rom->read(addr+4);
-		u16_t l= rom->read(addr+5) + 256*rom->read(addr+6);
+		u16_t s= rom->get(addr+1) + 256*rom->get(addr+2);
+		u16_t d= rom->get(addr+3) + 256*rom->get(addr+4);
+		u16_t l= rom->get(addr+5) + 256*rom->get(addr+6);
 		work.appendf("$%04x,$%04x,$%04x", s, d, l);
 		break;
 	      }
@@ -491,6 +491,15 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+t_addr
+cl_mos6502::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  u8_t h, l;
+  l= m->get(start_addr);
+  h= m->get(start_addr+1);
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -648,7 +657,7 @@ cl_mos6502::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..6864abb 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
diff --git a/src/sims/mos6502.src/mos65ce02.cc b/src/sims/mos6502.src/mos65ce02.cc
index 7fdbaff..b5f5b87 100644
--- a/src/sims/mos6502.src/mos65ce02.cc
+++ b/src/sims/mos6502.src/mos65ce02.cc
@@ -78,7 +78,7 @@ cl_mos65ce02::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 24d3486..8b64d29 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -60,7 +60,7 @@ cl_em::cl_em(class cl_sim *asim):
 void
 cl_em::print_regs(class cl_console_base *con)
 {
-  u16_t v= rom->read(rP);
+  u16_t v= rom->get(rP);
   print_acc(con);
   con->dd_printf("P= %04x %5u %+5d ", rP, rP, rP);
   con->dd_printf(" [P]= %04x %5u %+5d\n", v, v, v);
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 17ea62b..dd7994a 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -140,8 +140,8 @@ cl_oisc::disassc(t_addr addr, chars *comment)
   u16_t src, dst;
   u16_t a;
 
-  src= rom->read(addr);
-  dst= rom->read(addr+1);
+  src= rom->get(addr);
+  dst= rom->get(addr+1);
   
   b= "mov %d,%s";
 
@@ -166,7 +166,7 @@ cl_oisc::disassc(t_addr addr, chars *comment)
 	  /*
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  */
 	  /*
@@ -263,7 +263,7 @@ cl_oisc::exec_inst(void)
 void
 cl_oisc::print_acc(class cl_console_base *con)
 {
-  u16_t v= rom->read(rA);
+  u16_t v= rom->get(rA);
   con->dd_color("answer");
   con->dd_printf("A= %04x %5u %+5d ", rA, rA, (i16_t)rA);
   con->dd_printf(" [A]= %04x %5u %+5d ", v, v, (i16_t)v);
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index f81e526..e093f5c 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -154,10 +154,10 @@ cl_r3ka::dis_entry(t_addr addr)
 char *
 cl_r3ka::disassc(t_addr addr, chars *comment)
 {
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   if (code == 0x5b)
     {
-      if (rom->read(addr-1) != 0x76)
+      if (rom->get(addr-1) != 0x76)
 	return strdup("IDET");
     }
   return cl_r3k::disassc(addr, comment);
diff --git a/src/sims/rxk.src/r6k.cc b/src/sims/rxk.src/r6k.cc
index 2ee85da..6a68c11 100644
--- a/src/sims/rxk.src/r6k.cc
+++ b/src/sims/rxk.src/r6k.cc
@@ -102,7 +102,7 @@ cl_r6k::dis_entry(t_addr addr)
 char *
 cl_r6k::disassc_cb_6(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   switch (code & 7)
     {
     case 0: return strdup("LD    B,B");
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 216df96..92ac02a 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -308,15 +308,15 @@ cl_rxk::disassc(t_addr addr, chars *comment)
   
   dt= dis_entry(addr);
   if (code == 0xed)
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   else if ((code == 0xdd) || (code == 0xfd))
     {
-      code= rom->read(++addr);
+      code= rom->get(++addr);
       if (code == 0xcb)
 	return disassc_dd_cb(addr-1, comment);
     }
   else if ((code == 0x49) && (kmode > 0))
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   
   if (!dt)
     return strdup("-- unknown");
@@ -346,7 +346,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	  if (fmt.empty()) work.append("'");
 	  else if (fmt=="ps0.0")
 	    {
-	      int h= rom->read(addr) & 0x3;
+	      int h= rom->get(addr) & 0x3;
 	      switch (h)
 		{
 		case 0: work.append("PW"); break;
@@ -369,42 +369,42 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      //x= rom->get(++addr);
 	      // use last 3 bytes
 	      addr+= 3;
-	      l= rom->read(inst_addr + dt->length-3);
-	      h= rom->read(inst_addr + dt->length-2);
-	      x= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-3);
+	      h= rom->get(inst_addr + dt->length-2);
+	      x= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%06x", x*0x10000+h*256+l);
 	      break;
 	    case 'w': // 16 bit unsigned
-	      //l= rom->read(++addr);
-	      //h= rom->read(++addr);
+	      //l= rom->get(++addr);
+	      //h= rom->get(++addr);
 	      addr+= 2;
 	      // use last 2 bytes intead
-	      l= rom->read(inst_addr + dt->length-2);
-	      h= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-2);
+	      h= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%04x", h*256+l);
 	      break;
 	    case 'b': // 8 bit unsigned
-	      //l= rom->read(++addr);
+	      //l= rom->get(++addr);
 	      ++addr;
-	      l= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%02x", l);
 	      break;
 	    case 'd': // 8 bit signed
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
 		// use last byte instead
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		work.appendf("%+d", r);
 	      }
 	      break;
 	    case 'r': // 8 bit relative jump
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		t_addr a= addr + 1 + r;
 		work.appendf("0x%04x", AU16(a));
 	      }
@@ -412,11 +412,11 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'R': // 16 bit signed PC relative
 	      {
 		u8_t el, eh;
-		//el= rom->read(++addr);
-		//eh= rom->read(++addr);
+		//el= rom->get(++addr);
+		//eh= rom->get(++addr);
 		addr+= 2;
-		el= rom->read(inst_addr + dt->length-2);
-		eh= rom->read(inst_addr + dt->length-1);
+		el= rom->get(inst_addr + dt->length-2);
+		eh= rom->get(inst_addr + dt->length-1);
 		i16_t ee= eh*256+el;
 		t_addr a= (addr+1 + ee) & 0xffff;
 		work.appendf("0x%04x", a);
@@ -440,18 +440,18 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'X': // LXPC 0 1 2 3 xpl xph
 	      {
 		u16_t x;
-		x= rom->read(addr+4) * 256;
-		x+= rom->read(addr+3);
+		x= rom->get(addr+4) * 256;
+		x+= rom->get(addr+3);
 		work.appendf("0x%03x", x);
 		break;
 	      }
 	    case 'x': // 32 bit unsigned
 	      {
 		u32_t n, m, l, h;
-		n= rom->read(++addr);
-		m= rom->read(++addr);
-		l= rom->read(++addr);
-		h= rom->read(++addr);
+		n= rom->get(++addr);
+		m= rom->get(++addr);
+		l= rom->get(++addr);
+		h= rom->get(++addr);
 		work.appendf("0x%08x", (h<<24)+(l<<16)+(m<<8)+n);
 	      }
 	    }
@@ -468,7 +468,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 char *
 cl_rxk::disassc_cb(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(++addr);
+  u8_t code= rom->get(++addr);
   u8_t x, y, z;
   chars work, temp;
   char b[100];
@@ -550,9 +550,9 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
   t_addr a;
   
   a= addr+2;
-  d= rom->read(a);
+  d= rom->get(a);
   a++;
-  code= rom->read(a);
+  code= rom->get(a);
   
   x= code>>6;
   y= (code>>3)&7;
@@ -630,12 +630,12 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
 int
 cl_rxk::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0xcb)
     return 2;
   if ((code == 0xdd) || (code == 0xfd))
     {
-      if (rom->read(addr+1) == 0xcb)
+      if (rom->get(addr+1) == 0xcb)
 	return 4;
     }
   struct dis_entry *dt= dis_entry(addr);
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 5d53bbf..576e051 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1339,7 +1339,7 @@ cl_51core::print_regs(class cl_console_base *con)
 		    dp= (dp*256) + dptr_chip->get(a+di);
 		  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 		  con->dd_printf("0x%04x", dp);
-		  data= xram->read(dp);
+		  data= xram->get(dp);
 		  con->dd_printf(" @DPTR%d= ", i);
 		  con->dd_printf("0x%02x %3d %c\n", data, data,
 				 isprint(data)?data:'.');
@@ -1363,7 +1363,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	       sfr_chip->get(DPH-0x80) * 256) & 0xffff;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf("0x%04x", dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
@@ -1372,7 +1372,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	    sfr_chip->get(cpu->cfg_get(uc51cpu_aof_mdps1h) - 0x80) * 256;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf(xram->addr_format, dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..a21bc4b 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1018,8 +1018,8 @@ cl_stm8::print_regs(class cl_console_base *con)
   con->dd_printf("Y= 0x%04x %3d %c\n",
                  regs.Y, regs.Y, isprint(regs.Y)?regs.Y:'.');
   con->dd_printf("SP= 0x%04x [SP+1]= %02x %3d %c  Limit= 0x%04x\n",
-                 regs.SP, ram->read(regs.SP+1), ram->read(regs.SP+1),
-                 isprint(ram->read(regs.SP+1))?ram->read(regs.SP+1):'.',
+                 regs.SP, ram->get(regs.SP+1), ram->get(regs.SP+1),
+                 isprint(ram->get(regs.SP+1))?ram->get(regs.SP+1):'.',
 		 AU(sp_limit));
 
   print_disass(PC, con);
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b56a5d7..643179a 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -251,13 +251,13 @@ cl_t870c::print_regs(class cl_console_base *con)
   con->dd_printf("A= 0x%02x %3d %c\n",
 		 rA, rA, isprint(rA)?rA:'.');
   con->dd_printf("%s\n", cbin(rF,8).c_str());
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->read(rWA));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->read(rBC));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->read(rDE));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->read(rHL));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->read(rIX));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->read(rIY));
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->get(rWA));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->get(rBC));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->get(rDE));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->get(rHL));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->get(rIX));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->get(rIY));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
@@ -433,7 +433,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      work.appendf("0x%04x", u16= code1+code2*256);
 	      if (comment)
 		comment->appendf("; %02x %02x",
-				 asd->read(u16), asd->read(u16+1));
+				 asd->get(u16), asd->get(u16+1));
 	    }
 	  else if (fmt=="dstF")
 	    {
@@ -442,7 +442,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dstF(code32);
 		  comment->appendf("; [%04] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="dst5")
@@ -461,7 +461,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dst5(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcE")
@@ -471,7 +471,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcE(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcD")
@@ -490,7 +490,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcD(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="src4")
@@ -500,7 +500,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= (i8_t)rA + addr + 2;
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="ra5")
@@ -584,7 +584,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		work.appendf("0x%02x", x);
 		if (comment)
 		  comment->appendf("; [%04x] %02x %02x",
-				   x, asd->read(x), asd->read(x+1));
+				   x, asd->get(x), asd->get(x+1));
 	      }
 	      break;
 	    case 'b':
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 76f3c5b..224ef27 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -230,25 +230,25 @@ cl_t870c1::print_regs(class cl_console_base *con)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->read(rWA0));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->read(rBC0));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->read(rDE0));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->read(rHL0));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->read(rIX0));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->read(rIY0));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->get(rWA0));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->get(rBC0));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->get(rDE0));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->get(rHL0));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->get(rIX0));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->get(rIY0));
   if ((rF & MRBS) != 0)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->read(rWA1));
-  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->read(rBC1));
-  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->read(rDE1));
-  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->read(rHL1));
-  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->read(rIX1));
-  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->read(rIY1));
+  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->get(rWA1));
+  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->get(rBC1));
+  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->get(rDE1));
+  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->get(rHL1));
+  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->get(rIX1));
+  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->get(rIY1));
 
   con->dd_color("answer");
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..340e77f 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -236,11 +236,11 @@ cl_ez80::get_disasm_info(t_addr addr,
   int immed_n = 0;
   struct dis_entry *dis_e= NULL;
   
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   switch (code)
     {
     case 0xed:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_ed[i].mask) != disass_ez80_ed[i].code &&
 	     disass_ez80_ed[i].mnemonic)
@@ -262,7 +262,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_dd[i].mask) != disass_ez80_dd[i].code &&
 	     disass_ez80_dd[i].mnemonic)
@@ -285,7 +285,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xfd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_fd[i].mask) != disass_ez80_fd[i].code &&
 	     disass_ez80_fd[i].mnemonic)
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..677ba3f 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -309,12 +309,12 @@ cl_gb80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_gb80_cb[i].mask) != disass_gb80_cb[i].code &&
         disass_gb80_cb[i].mnemonic)
@@ -387,18 +387,18 @@ cl_gb80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // d    jump relative target, signed? byte immediate operand
-              temp.format("#%d", (char)rom->read(addr+immed_offset));
+              temp.format("#%d", (char)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             case 'w': // w    word immediate operand
               temp.format("#0x%04x",
-                 (uint)((rom->read(addr+immed_offset)) |
-                        (rom->read(addr+immed_offset+1)<<8)) );
+                 (uint)((rom->get(addr+immed_offset)) |
+                        (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // b    byte immediate operand
-              temp.format("#0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("#0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
diff --git a/src/sims/z80.src/r800.cc b/src/sims/z80.src/r800.cc
index 94e8b33..13f3f29 100644
--- a/src/sims/z80.src/r800.cc
+++ b/src/sims/z80.src/r800.cc
@@ -88,8 +88,8 @@ cl_r800::get_disasm_info(t_addr addr,
 {
   uint c0, c1;
   struct dis_entry *de;
-  c0= rom->read(addr);
-  c1= rom->read(addr+1);
+  c0= rom->get(addr);
+  c1= rom->get(addr+1);
   if (c0 == 0xed)
     {
       // Z280/R800 multu HL=A*r
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3e03a71..61063f9 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -376,12 +376,12 @@ cl_z80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_z80_cb[i].mask) != disass_z80_cb[i].code &&
         disass_z80_cb[i].mnemonic)
@@ -393,7 +393,7 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xed: /* ESC code to about 80 opcodes of various lengths */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (type->type == CPU_Z80N)
 	{
 	  i= 0;
@@ -431,11 +431,11 @@ cl_z80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd: /* ESC codes,about 284, vary lengths, IX centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_ddcb[i].mask) != disass_z80_ddcb[i].code &&
           disass_z80_ddcb[i].mnemonic)
@@ -457,11 +457,11 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xfd: /* ESC codes,sme as dd but IY centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_fdcb[i].mask) != disass_z80_fdcb[i].code &&
           disass_z80_fdcb[i].mnemonic)
@@ -549,25 +549,25 @@ cl_z80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // jump relative target, signed? byte immediate operand
-              temp.format("%d", (signed char)(rom->read(addr+immed_offset)));
+              temp.format("%d", (signed char)(rom->get(addr+immed_offset)));
               ++immed_offset;
               break;
             case 'w': // word immediate operand, little endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)) |
-				 (rom->read(addr+immed_offset+1)<<8)) );
+			  (uint)((rom->get(addr+immed_offset)) |
+				 (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'W': // word immediate operand, big endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)<<8) |
-				 (rom->read(addr+immed_offset+1))) );
+			  (uint)((rom->get(addr+immed_offset)<<8) |
+				 (rom->get(addr+immed_offset+1))) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // byte immediate operand
-              temp.format("0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
@@ -594,28 +594,28 @@ cl_z80::print_regs(class cl_console_base *con)
                  regs.raf.A, regs.raf.A, isprint(regs.raf.A)?regs.raf.A:'.');
   con->dd_printf("%s\n", cbin(regs.raf.F, 8).c_str());
   con->dd_printf("BC= 0x%04x [BC]= %02x %3d %c  ",
-                 regs.BC, ram->read(regs.BC), ram->read(regs.BC),
-                 isprint(ram->read(regs.BC))?ram->read(regs.BC):'.');
+                 regs.BC, ram->get(regs.BC), ram->get(regs.BC),
+                 isprint(ram->get(regs.BC))?ram->get(regs.BC):'.');
   con->dd_printf("DE= 0x%04x [DE]= %02x %3d %c  ",
-                 regs.DE, ram->read(regs.DE), ram->read(regs.DE),
-                 isprint(ram->read(regs.DE))?ram->read(regs.DE):'.');
+                 regs.DE, ram->get(regs.DE), ram->get(regs.DE),
+                 isprint(ram->get(regs.DE))?ram->get(regs.DE):'.');
   con->dd_printf("HL= 0x%04x [HL]= %02x %3d %c\n",
-                 regs.HL, ram->read(regs.HL), ram->read(regs.HL),
-                 isprint(ram->read(regs.HL))?ram->read(regs.HL):'.');
+                 regs.HL, ram->get(regs.HL), ram->get(regs.HL),
+                 isprint(ram->get(regs.HL))?ram->get(regs.HL):'.');
   con->dd_printf("IX= 0x%04x [IX]= %02x %3d %c  ",
-                 regs.IX, ram->read(regs.IX), ram->read(regs.IX),
-                 isprint(ram->read(regs.IX))?ram->read(regs.IX):'.');
+                 regs.IX, ram->get(regs.IX), ram->get(regs.IX),
+                 isprint(ram->get(regs.IX))?ram->get(regs.IX):'.');
   con->dd_printf("IY= 0x%04x [IY]= %02x %3d %c  ",
-                 regs.IY, ram->read(regs.IY), ram->read(regs.IY),
-                 isprint(ram->read(regs.IY))?ram->read(regs.IY):'.');
+                 regs.IY, ram->get(regs.IY), ram->get(regs.IY),
+                 isprint(ram->get(regs.IY))?ram->get(regs.IY):'.');
   con->dd_printf("AF= 0x%04x [AF]= %02x %3d %c\n",
-                 regs.AF, ram->read(regs.AF), ram->read(regs.AF),
-                 isprint(ram->read(regs.AF))?ram->read(regs.AF):'.');
+                 regs.AF, ram->get(regs.AF), ram->get(regs.AF),
+                 isprint(ram->get(regs.AF))?ram->get(regs.AF):'.');
   con->dd_printf("SP limit= 0x%04x\n", AU(sp_limit));
   
   /*con->dd_printf("SP= 0x%04x ",
-                 regs.SP, ram->read(regs.SP), ram->read(regs.SP),
-                 isprint(ram->read(regs.SP))?ram->read(regs.SP):'.');
+                 regs.SP, ram->get(regs.SP), ram->get(regs.SP),
+                 isprint(ram->get(regs.SP))?ram->get(regs.SP):'.');
   */
   int i;
   con->dd_cprintf("answer", "SP= ");
@@ -626,8 +626,8 @@ cl_z80::print_regs(class cl_console_base *con)
       al= (regs.SP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(ram->read(al)),
-		      (u8_t)(ram->read(ah)));
+		      (u8_t)(ram->get(al)),
+		      (u8_t)(ram->get(ah)));
     }
   con->dd_printf("\n");
   
-- 
2.43.0


From 5d9d807337954cef6fc16086d306f94547c905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 042/197] fix: m68hc11: IDIV and FDIV use original operands for
 the remainder, no host division by zero

---
 src/core/motorola.src/m68hc11.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 6ee990e..084639e 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -646,14 +646,16 @@ CL11::IDIV(t_mem code)
   if (rX == 0)
     {
       q= 0xffff;
-      r= rX;
+      r= rD;
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
@@ -663,21 +665,24 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
+  u32_t n= (u32_t)rD << 16;
   u16_t q, r;
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if( rX <= rD) f|= flagV;
   if (rX == 0)
+    f|= flagC;
+  if (rX <= rD)
     {
       q= 0xffff;
-      r= rX;
-      f|= flagC;
+      r= rD;
     }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
-- 
2.43.0


From b9ae6f091b858c8930e1b2a57cbab1e97bd5a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 043/197] fix: p2223: constant SFRs hold their value without
 being read first

---
 src/sims/p1516.src/p2223.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index edd4024..1cb1c77 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -174,6 +174,9 @@ CLP2::make_memories(void)
       class cl_memory_cell *c= sfr->get_cell(i);
       c->append_operator(new cl_sfr_op(c, this, i));
     }
+  // store values of the constant registers
+  for (i=1; i<4; i++)
+    sfr->read(i);
 
   cl_cvar *v;
   v= new cl_var("sfr_version", sfr, 1, "CPU version (int, RO)");
-- 
2.43.0


From 425294681ce6feb151b5247be057df68eae88322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 044/197] fix: pdk: processor halts when program disables every
 FPP

---
 src/sims/pdk.src/pdk.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..23ef4a8 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -943,6 +943,8 @@ cl_pdk::exec_inst(void)
   int it, ret= resHALT;
   if (mode == pm_pd)
     return resHALT;
+  if (!(rFPPEN & ((1<<nuof_fpp)-1)))
+    return resHALT; // every FPP is disabled
   while (!(rFPPEN & (1<<act)))
     act= (act+1)%nuof_fpp;
   inst_ticks= 0;
@@ -963,7 +965,8 @@ cl_pdk::exec_inst(void)
 	  vc.rd+= fpps[i]->vc.rd;
 	  vc.wr+= fpps[i]->vc.wr;
 	}
-      if (rFPPEN != 1)
+      if ((rFPPEN != 1) &&
+	  (rFPPEN & ((1<<nuof_fpp)-1)))
 	{
 	  do
 	    act= (act+1)%nuof_fpp;
-- 
2.43.0


From 588a9a1ac2026f889181b6b6e982f62672b530bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 045/197] fix: mos6502: pointer in page zero wraps around in
 page zero

---
 src/sims/mos6502.src/mos6502.cc  | 16 +++++++++++++---
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 01ee7f0..d3ae4ec 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -500,6 +500,16 @@ cl_mos6502::peek_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+// Pointer in page zero, address of high byte wraps around in the page
+u16_t
+cl_mos6502::read_zptr(u8_t a)
+{
+  u8_t h, l;
+  l= rom->read(a);
+  h= rom->read((u8_t)(a+1));
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -590,7 +600,7 @@ class cl_cell8 &
 cl_mos6502::zind(void)
 {
   u16_t a= fetch();
-  a= read_addr(rom, a);
+  a= read_zptr(a);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -601,7 +611,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zptr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -611,7 +621,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zptr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 6864abb..00d2541 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -154,6 +154,7 @@ public:
   virtual u8_t pop(void); // tick(0)
   virtual void stack_check_overflow(class cl_stack_op *op);
   
+  virtual u16_t read_zptr(u8_t a);
   virtual class cl_cell8 &imm8(void);
   // read operands
   virtual class cl_cell8 &zpg(void);
-- 
2.43.0


From 2509955a2bee63048fd66595e4b51168ea2a2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 046/197] fix: mos6502: RTS wraps PC at 64k

---
 src/sims/mos6502.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..28f38c0 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -68,7 +68,7 @@ int
 cl_mos6502::RTS(t_mem code)
 {
   t_addr spbef= rSP;
-  PC= pop_addr()+1;
+  PC= (pop_addr()+1) & 0xffff;
   class cl_stack_ret *op= new cl_stack_ret(instPC, PC, spbef, rSP);
   op->init();
   stack_read(op);
-- 
2.43.0


From bdf00c4eb7a75dbc4d90340293b6b188ed92edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 047/197] fix: mos6502: indexed store and read-modify-write use
 fixed number of clocks

---
 src/sims/mos6502.src/mos6502.cc  | 27 +++++++++++++++++++++++++++
 src/sims/mos6502.src/mos6502cl.h | 16 ++++++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index d3ae4ec..30eaeff 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -631,6 +631,33 @@ cl_mos6502::indY(void)
   return *c;
 }
 
+class cl_cell8 &
+cl_mos6502::absXw(void)
+{
+  u16_t a= i16() + rX;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::absYw(void)
+{
+  u16_t a= i16() + rY;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::indYw(void)
+{
+  u16_t a= read_zptr(fetch()) + rY;
+  vc.rd+= 3;
+  tick(5);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
 u8_t
 cl_mos6502::L2i(u8_t L)
 {
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 00d2541..494967b 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -167,24 +167,28 @@ public:
   virtual class cl_cell8 &zind(void);
   virtual class cl_cell8 &indX(void);
   virtual class cl_cell8 &indY(void);
+  // indexed operands of write cycles: page correction cycle is always used
+  virtual class cl_cell8 &absXw(void);
+  virtual class cl_cell8 &absYw(void);
+  virtual class cl_cell8 &indYw(void);
   // write operands
   virtual class cl_cell8 &dstzpg(void) { vc.wr++; return zpg(); }
   virtual class cl_cell8 &dstzpgX(void) { vc.wr++; return zpgX(); }
   virtual class cl_cell8 &dstzpgY(void) { vc.wr++; return zpgY(); }
   virtual class cl_cell8 &dstabs(void) { vc.wr++; return abs(); }
-  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(); }
-  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(); }
+  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absXw(); }
+  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absYw(); }
   virtual class cl_cell8 &dstind(void) { vc.wr++; return ind(); }
   virtual class cl_cell8 &dstzind(void) { vc.wr++; return zind(); }
   virtual class cl_cell8 &dstindX(void) { vc.wr++; return indX(); }
-  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(); }
+  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indYw(); }
   // read-modify-write operands
   virtual class cl_cell8 &rmwzpg(void) { vc.rd++;vc.wr++;tick(2); return zpg(); }
   virtual class cl_cell8 &rmwzpgX(void) { vc.rd++;vc.wr++;tick(2); return zpgX(); }
   virtual class cl_cell8 &rmwzpgY(void) { vc.rd++;vc.wr++;tick(2); return zpgY(); }
   virtual class cl_cell8 &rmwabs(void) { vc.rd++;vc.wr++;tick(2); return abs(); }
-  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(3); return absX(); }
-  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(3); return absY(); }
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(2); return absXw(); }
+  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(2); return absYw(); }
   virtual class cl_cell8 &rmwind(void) { vc.rd++;vc.wr++;tick(1); return ind(); }
   virtual class cl_cell8 &rmwzind(void) { vc.rd++;vc.wr++;tick(1); return zind(); }
   virtual class cl_cell8 &rmwindX(void) { vc.rd++;vc.wr++;tick(1); return indX(); }
@@ -265,7 +269,7 @@ public:
   virtual int STAzx(t_mem code) { return sta(dstzpgX()); }
   virtual int STAay(t_mem code) { return sta(dstabsY()); }
   virtual int STAa (t_mem code) { return sta(dstabs()); }
-  virtual int STAax(t_mem code) { tick(1); return sta(dstabsX()); }
+  virtual int STAax(t_mem code) { return sta(dstabsX()); }
 
   virtual int lda(class cl_cell8 &op);
   virtual int LDAix(t_mem code) { return lda(indX()); }
-- 
2.43.0


From d929a5f3494d286f9a33c4dffdf333b69baff5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 048/197] fix: mos6502: clocks of NOP and JSR

---
 src/sims/mos6502.src/ibranch.cc | 1 +
 src/sims/mos6502.src/inst.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 28f38c0..8d76aea 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -61,6 +61,7 @@ cl_mos6502::JSR(t_mem code)
   op->init();
   stack_write(op);
   PC= a;
+  tick(3);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/inst.cc b/src/sims/mos6502.src/inst.cc
index 677740d..321608c 100644
--- a/src/sims/mos6502.src/inst.cc
+++ b/src/sims/mos6502.src/inst.cc
@@ -31,6 +31,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 int
 cl_mos6502::NOP(t_mem code)
 {
+  tick(1);
   return resGO;
 }
 
-- 
2.43.0


From 6440e252699b1d9e63fb408bb369c83a2b60ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 049/197] fix: mos6502: BRK uses 7 clocks

---
 src/sims/mos6502.src/mos6502.cc  | 2 +-
 src/sims/mos6502.src/mos65c02.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 30eaeff..76a0341 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -752,7 +752,7 @@ cl_mos6502::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2);
   push_addr(PC);
   rom->write(SPh + rSP, rF|0x20);
   if (set_b)
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..ec2f0e7 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -91,7 +91,7 @@ cl_mos65c02::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2);
   push_addr(PC);
   rom->write(0x0100 + rSP, rF|0x20);
   if (set_b)
-- 
2.43.0


From c597d2fad74b085650c8b7b477281000c031b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 050/197] fix: mos6502: high byte of a pointer at the end of
 memory is read from address 0

---
 src/sims/mos6502.src/mos6502.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 76a0341..139f3b3 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -487,7 +487,7 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
   return h*256+l;
 }
 
-- 
2.43.0


From 2398dc4d190cd769c81b9f58abcf85a5ea538c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 051/197] fix: mos6502: BIT immediate of 65C02 uses 2 clocks

---
 src/sims/mos6502.src/mos65c02.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index ec2f0e7..b3af3a6 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -129,6 +129,7 @@ cl_mos65c02::BIT8(t_mem code)
 {
   u8_t v= fetch();
   u8_t f= rF & ~(flagZ);
+  tick(1);
   if (!(rA & v)) f|= flagZ;
   cF.W(f);
   return resGO;
-- 
2.43.0


From af0d222cdeae5c526164a20b78519953d3784cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 052/197] fix: interrupt source: nmi flag is initialised

---
 src/core/sim.src/hw.cc    | 1 +
 src/core/sim.src/itsrc.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/sim.src/hw.cc b/src/core/sim.src/hw.cc
index 6e145cf..f6e36b9 100644
--- a/src/core/sim.src/hw.cc
+++ b/src/core/sim.src/hw.cc
@@ -63,6 +63,7 @@ cl_hw::cl_hw(class cl_uc *auc, enum hw_cath cath, int aid, const char *aid_strin
   free(s);
   cfg= 0;
   io= 0;
+  on= true;
   active= false;
 }
 
diff --git a/src/core/sim.src/itsrc.cc b/src/core/sim.src/itsrc.cc
index a1e76bf..f15e650 100644
--- a/src/core/sim.src/itsrc.cc
+++ b/src/core/sim.src/itsrc.cc
@@ -76,6 +76,7 @@ cl_it_src::cl_it_src(cl_uc  *Iuc,
   else
     set_name("unknown");
   active= true;
+  nmi= false;
   parent= NULL;
 }
 
-- 
2.43.0


From c5d4d2534651291779d3c88801a6bf375f52eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 053/197] fix: list can hold more than 8192 items without
 writing behind its array

---
 src/core/utils.src/pobjt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/pobjt.h b/src/core/utils.src/pobjt.h
index 0f5238f..7287c80 100644
--- a/src/core/utils.src/pobjt.h
+++ b/src/core/utils.src/pobjt.h
@@ -35,7 +35,7 @@ typedef int	t_index;
 typedef int	(*match_func)(const void *, const void *);
 typedef void	(*iterator_func)(const void *, const void *);
 
-#define max_list_size (0x10000/sizeof(void *))
+#define max_list_size (0x7fffffff/sizeof(void *))
 #define ccNotFound -1
 
 
-- 
2.43.0


From 4e0b638968f1e378c113e113cd9492701efa66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 054/197] fix: 6800: ASL computes on unsigned operand

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..69cb8ba 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -191,7 +191,7 @@ cl_m6800::asr(class cl_memory_cell &dest)
 int
 cl_m6800::asl(class cl_memory_cell &dest)
 {
-  i8_t op= dest.R();
+  u8_t op= dest.R();
   u8_t f;
   f= rF & ~(flagN|flagZ|flagV|flagC);
   if (op&0x80) f|= flagC;
-- 
2.43.0


From dbffadbe089ba895f7ba1533266be8c708202358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 055/197] fix: f8: shift of XL by 32 or more bits clears it

---
 src/sims/f8.src/ialu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/f8.src/ialu.cc b/src/sims/f8.src/ialu.cc
index f755d9e..39159fb 100644
--- a/src/sims/f8.src/ialu.cc
+++ b/src/sims/f8.src/ialu.cc
@@ -1328,9 +1328,9 @@ cl_f8::DECW_NSP(t_mem code)
 int
 cl_f8::SLLW_A_XL(t_mem code)
 {
-  u32_t v= acc16->get();
+  u32_t v= acc16->get(), n= acc8->get();
   rF&= ~flagZN;
-  v<<= acc8->get();
+  v= (n < 16)?(v<<n):0;
   v&= 0xffff;
   if (!v) rF|= flagZ;
   if (v & 0x8000) rF|= flagN;
-- 
2.43.0


From f8431248fad8c58afc6a2df433ee229942531585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 056/197] fix: m6809: EXG with PC exchanges PC

---
 src/sims/m6809.src/m6809.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..6337abf 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1420,10 +1420,10 @@ cl_m6809::inst_10(t_mem code)
 	  {
 	    u16_t *R1= reg16_ptr[r1&7];
 	    u16_t *R2= reg16_ptr[r2&7];
-	    u16_t t;
-	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    u16_t v1= (R1)?*R1:PC;
+	    u16_t v2= (R2)?*R2:PC;
+	    if (R1) *R1= v2; else PC= v2;
+	    if (R2) *R2= v1; else PC= v1;
 	  }
 	else
 	  {
-- 
2.43.0


From f1df695c54c71d69f2617042af789adbff563158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 057/197] fix: m68hc12: EDIVS overflow, V flag of EMACS

---
 src/sims/m68hc12.src/ialu.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index da3c91e..2fcb7e6 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -165,7 +165,7 @@ int
 CL12::emul(void)
 {
   u8_t f= rF&~(flagC|flagZ|flagN);
-  u32_t res= rD*rY;
+  u32_t res= (u32_t)rD*rY;
   if (res & 0x8000)
     f|= flagC;
   if (res & 0x80000000)
@@ -271,17 +271,17 @@ CL12::emacs(void)
   h= fetch();
   l= fetch();
   u16_t a= h*256+l;
-  i32_t m;
+  u32_t m;
   m= read_addr(rom, a);
   m<<= 16;
   m+= read_addr(rom, a+2);
   vc.rd+= 8;
-  i32_t i= mx*my;
-  i32_t r= i + m;
+  u32_t i= (i32_t)mx*my;
+  u32_t r= i + m;
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (r & 0x80000000) f|= flagN;
   if (!r) f|= flagZ;
-  if (0x80000000 & ((m&i&~r)|(~m|~i|~r))) f|= flagV;
+  if (0x80000000 & ((m&i&~r)|(~m&~i&r))) f|= flagV;
   if (0x8000 & ((m&i)|(i&~r)|(~r&m))) f|= flagC;
   rom->write(a+0, r>>24);
   rom->write(a+1, r>>16);
@@ -309,7 +309,7 @@ CL12::emuls(void)
 int
 CL12::edivs(void)
 {
-  i32_t op1= (rY<<16)+rD, q;
+  i64_t op1= (i32_t)(((u32_t)rY<<16)+rD), q;
   i16_t r;
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (rX != 0)
-- 
2.43.0


From b6a76b9cc4c0644a7bdbb98c22667f7ba38e3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 058/197] fix: s51 pca: state is initialised

---
 src/sims/s51.src/pca.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 04b11c4..2e4b691 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -42,7 +42,9 @@ cl_pca::cl_pca(class cl_uc *auc, int aid):
 {
   t0_overflows= ECI_edge= 0;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, ccapm[i]= 0, i++) ;
+  clk_source= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= false;
 }
 
 int
-- 
2.43.0


From 4ab18ada1f2a8bcf3c2373a9f2918d51d4334749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 059/197] fix: tlcs870c1: both register banks are allocated,
 first bytes without instruction

---
 src/sims/tlcs.src/t870c.cc  | 9 ++++++---
 src/sims/tlcs.src/t870c1.cc | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index 643179a..86f94e3 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -148,7 +148,7 @@ cl_t870c::part_init(void)
 void
 cl_t870c::mk_rbanks(void)
 {
-  rbanks= (struct rbank_870c_t *)malloc(sizeof(*rbanks));
+  rbanks= (struct rbank_870c_t *)calloc(1, sizeof(*rbanks));
   rbank= &rbanks[0];
 }
 
@@ -343,10 +343,13 @@ cl_t870c::get_dis_entry(t_addr addr)
   if ((dtab= dis_tbl()) == NULL)
     return NULL;
   u32_t cloc, cmask;
-  cloc= code_loc[code0]-1;
-  cmask= 0x000000ff << (8*cloc);
   if ((code0 == 0xf9) && (type->type == CPU_TLCS870C))
     return NULL;
+  cloc= code_loc[code0];
+  // no instruction starts with this byte
+  if (cloc == 0)
+    return NULL;
+  cmask= (cloc <= 4)?(0x000000ffU << (8*(cloc-1))):0;
   i= 0;
   while (
 	 ((code32 & dtab[i].mask) != dtab[i].code ||
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 224ef27..8d62b39 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -111,7 +111,7 @@ cl_t870c1::part_init(void)
 void
 cl_t870c1::mk_rbanks(void)
 {
-  rbanks= (struct rbank_870c_t *)malloc(sizeof(*rbanks));
+  rbanks= (struct rbank_870c_t *)calloc(2, sizeof(*rbanks));
   rbank= &rbanks[0];
   act_rbs= 0;
 }
-- 
2.43.0


From 4f77986bbb3529a3d51f5fe3210d52be5c4ad4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 060/197] fix: jumps wrap the program counter at the end of the
 64k address space

---
 src/core/motorola.src/ibranch68.cc |  4 ++--
 src/sims/m6809.src/m6809.cc        | 10 +++++-----
 src/sims/m68hc08.src/inst.cc       | 14 +++++++-------
 src/sims/st7.src/inst.cc           | 12 ++++++------
 src/sims/st7.src/st7.cc            |  2 +-
 src/sims/tlcs.src/inst_jump.cc     |  4 ++--
 src/sims/tlcs.src/tlcs.cc          |  6 +++---
 7 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..f850cdf 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -35,7 +35,7 @@ cl_m6800::call(t_addr a)
   rSP--;
   rom->write(rSP, h);
   cSP.W(rSP-1);
-  PC= a;
+  PC= a&0xffff;
   vc.wr+= 2;
   return resGO;
 }
@@ -66,7 +66,7 @@ cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
   a+= rX;
-  PC= a;
+  PC= a&0xffff;
   return resGO;
 }
 
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 6337abf..48ed1e3 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1290,7 +1290,7 @@ cl_m6809::inst_alu(t_mem code)
 	      tick(2);
 	      vc.wr+= 2;
 	    }
-	  PC= ea;
+	  PC= ea & 0xffff;
 	}
       else
 	return inst_st16(code, D, ea);
@@ -1348,7 +1348,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1361,7 +1361,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1541,7 +1541,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
@@ -2142,7 +2142,7 @@ cl_m6809::inst_low(t_mem code)
       return inst_tst(code, acc, ea, op8);
       break;
     case 0x0e: // JMP   EXG   BGT   RESET --    --    JMP   JMP
-      PC= ea;
+      PC= ea & 0xffff;
       break;
     case 0x0f: // CLR   TFR   BLE   SWI   CLRA  CLRB  CLR   CLR
       return inst_clr(code, acc, ea, op8);
diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..36daa2a 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -323,7 +323,7 @@ cl_hc08::inst_cpx(t_mem code, bool prefix)
 int
 cl_hc08::inst_jmp(t_mem code, bool prefix)
 {
-  PC = fetchea(code, prefix);
+  PC = fetchea(code, prefix) & 0xffff;
   tick(1); // extra cycle to reload pipeline
   return(resGO);
 }
@@ -335,7 +335,7 @@ cl_hc08::inst_jsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC = newPC;
+  PC = newPC & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -692,7 +692,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1015,7 +1015,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1057,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1091,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;  
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..acf6342 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -276,13 +276,13 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -295,7 +295,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 {
   int newPC = fetchea(code, prefix);
   push2(PC);
-  PC = newPC;
+  PC = newPC & 0xffff;
 
   return(resGO);
 }
@@ -303,7 +303,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_callr(t_mem code, unsigned char prefix)
 {
-   char newPC;
+   signed char newPC;
 
    if (prefix == 0x0) {
       newPC = fetch1();
@@ -314,7 +314,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC = (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -542,7 +542,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
 
   return(resGO);
 }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..33f8cf1 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = OPERAND(code, cprefix) & 0xffff;
             return( resGO);
             break;
          case 0x80: // 
diff --git a/src/sims/tlcs.src/inst_jump.cc b/src/sims/tlcs.src/inst_jump.cc
index 8dde138..eebc0b6 100644
--- a/src/sims/tlcs.src/inst_jump.cc
+++ b/src/sims/tlcs.src/inst_jump.cc
@@ -70,7 +70,7 @@ cl_tlcs::inst_djnz_b(i8_t d)
 {
   reg.rbc.b--;
   if (reg.rbc.b != 0)
-    PC+= d;
+    PC= (PC+d) & 0xffff;
   tick(8);
   return resGO;
 }
@@ -82,7 +82,7 @@ cl_tlcs::inst_djnz_bc(i8_t d)
 {
   reg.bc--;
   if (reg.bc != 0)
-    PC+= d;
+    PC= (PC+d) & 0xffff;
   return resGO;
 }
 
diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index 6be78a2..779f87e 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -786,7 +786,7 @@ cl_tlcs::exec_inst2(u8_t c1)
               if (cc(c1))
                 {
                   tick(4);
-                  PC+= d;
+                  PC= (PC+d) & 0xffff;
                 }
             }
           else
@@ -1211,9 +1211,9 @@ cl_tlcs::exec_inst3(u8_t c1, u8_t c2)
   switch (c1)
     {
     case 0x1a: tick(2); PC= c3*256 + c2; break; // JP mn
-    case 0x1b: PC+= i16_t(c3*256 + c2); break; // JRL $+2+cd
+    case 0x1b: PC= (PC + i16_t(c3*256 + c2)) & 0xffff; break; // JRL $+2+cd
     case 0x1c: inst_call(PC-3, c3*256 + c2); break; // CALL mn
-    case 0x1d: tick(2); inst_call(PC-3, PC + i16_t(c3*256 + c2)); break; // CALR $+2+cd
+    case 0x1d: tick(2); inst_call(PC-3, (PC + i16_t(c3*256 + c2)) & 0xffff); break; // CALR $+2+cd
     case 0x78: reg.hl= op_add_hl_v((c3*256+c2)); break; // ADD HL,mn
     case 0x79: reg.hl= op_adc_hl_v((c3*256+c2)); break; // ADC HL,mn
     case 0x7a: reg.hl= op_sub_hl_v((c3*256+c2)); break; // SUB HL,mn
-- 
2.43.0


From da5c35f547093e2189dd2e71057873e4054c25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 061/197] fix: read event breakpoint does not hide value
 provided by hardware; deleting operator of a cell without operators

---
 src/core/sim.src/mem.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 20feb92..29c2c5d 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1366,6 +1366,8 @@ cl_memory_cell::del_operator(class cl_brk *brk)
       else
 	old= ops[src];
     }
+  if (ops == NULL)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
@@ -1390,6 +1392,8 @@ cl_memory_cell::del_operator(class cl_hw *hw)
       else
 	old= ops[src];
     }
+  if (ops == NULL)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
@@ -1421,8 +1425,10 @@ cl_memory_cell::set_brk(class cl_uc *uc, class cl_brk *brk)
       break;
     case brkREAD: case brkRXRAM: case brkRCODE: case brkRIRAM: case brkRSFR:
       //e= 'R';
-      op= new cl_read_operator(this, uc, brk);
-      break;
+      // value is provided by the last operator, it must not be
+      // the one which just watches the cell
+      prepend_operator(new cl_read_operator(this, uc, brk));
+      return;
     case brkNONE:
       set_flag(CELL_FETCH_BRK, true);
       return;
-- 
2.43.0


From 8abaf1b4cff217620f217f1d3108a0cdc7070d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 062/197] fix: breakpoint out of the code memory can be deleted

---
 src/core/sim.src/uc.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f8847ef..e544513 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3792,7 +3792,7 @@ cl_uc::rm_brk(int nr)
 
   if ((bp= brk_by_nr(fbrk, nr)))
     {
-      fbrk->del_bp(bp->addr);
+      fbrk->del_bp(fbrk->index_of(bp), 0);
       return(true);
     }
   else if ((bp= brk_by_nr(ebrk, nr)))
@@ -3813,10 +3813,7 @@ void
 cl_uc::remove_all_breaks(void)
 {
   while (fbrk->count)
-    {
-      class cl_brk *brk= (class cl_brk *)(fbrk->at(0));
-      fbrk->del_bp(brk->addr);
-    }
+    fbrk->del_bp(fbrk->count-1, 0);
   while (ebrk->count)
     ebrk->del_bp(ebrk->count-1, 0);
 }
-- 
2.43.0


From f9beca26bf4c1808bf95c9cee991eed106148b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 063/197] fix: temporary event breakpoint is removed when
 accepted; instruction not executed because of a breakpoint is not counted

---
 src/core/sim.src/uc.cc  | 32 +++++++++++++++++++++++++++++++-
 src/core/sim.src/uccl.h |  1 +
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index e544513..29d50b1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -418,6 +418,17 @@ cl_exec_hist::put(void)
   hist[h].nr= 1;
 }
 
+// Forget the last record, it was not executed
+
+void
+cl_exec_hist::forget_last(void)
+{
+  if (t == h)
+    return;
+  if (--(hist[h].nr) == 0)
+    h= (h+len-1)%len;
+}
+
 void
 cl_exec_hist::list(class cl_console_base *con, bool inc, int nr)
 {
@@ -3279,6 +3290,12 @@ cl_uc::do_inst(void)
       if (res == resINV_INST)
 	/* backup to start of instruction */
 	PC= instPC;
+      if (res == resBREAKPOINT)
+	{
+	  /* nothing has been executed */
+	  vc.inst--;
+	  hist->forget_last();
+	}
     }
   post_inst();
 
@@ -3863,8 +3880,21 @@ cl_uc::check_events(void)
     {
       class cl_ev_brk *brk=
 	(class cl_ev_brk *)(events->object_at(i));
-      brk->breaking();
+      t_index idx;
+      // script of a breakpoint can delete others
+      if (ebrk->cl_list::index_of(brk, &idx))
+	brk->breaking();
+    }
+  // temporary breakpoints are done
+  for (i= 0; i < events->count; i++)
+    {
+      class cl_brk *brk= (class cl_brk *)(events->object_at(i));
+      t_index idx;
+      if (ebrk->cl_list::index_of(brk, &idx) &&
+	  (brk->perm == brkDYNAMIC))
+	ebrk->del_bp(idx, 0);
     }
+  events->disconn_all();
 }
 
 void
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index b5ab889..c7db5b4 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -244,6 +244,7 @@ public:
   virtual ~cl_exec_hist(void);
   virtual int init(void);
   virtual void put(void);
+  virtual void forget_last(void);
   virtual void list(class cl_console_base *con, bool inc, int nr);
   virtual void clear() { keep(0); }
   virtual void keep(int nr);
-- 
2.43.0


From ea2c3c637a3cf55b54235a883826946a0a5e0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 064/197] fix: printing of registers does not read memory
 through devices

---
 src/sims/p1516.src/p2223.cc |  8 ++++----
 src/sims/s51.src/uc51.cc    |  2 +-
 src/sims/z80.src/gb80.cc    | 16 ++++++++--------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index 1cb1c77..57fdb02 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -486,11 +486,11 @@ CLP2::print_regs(class cl_console_base *con)
       else
 	con->dd_printf(" ");
     }
-  con->dd_printf("S0,Flag= 0x%08x ", sfr->read(0));
-  con->dd_printf("S1,Ver = 0x%08x ", sfr->read(1));
+  con->dd_printf("S0,Flag= 0x%08x ", sfr->get(0));
+  con->dd_printf("S1,Ver = 0x%08x ", sfr->get(1));
   //con->dd_printf("\n");
-  con->dd_printf("S2,Fea1= 0x%08x ", sfr->read(2));
-  con->dd_printf("S3,Fea2= 0x%08x ", sfr->read(3));
+  con->dd_printf("S2,Fea1= 0x%08x ", sfr->get(2));
+  con->dd_printf("S3,Fea2= 0x%08x ", sfr->get(3));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 576e051..d325891 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1399,7 +1399,7 @@ cl_51core::print_regs(class cl_console_base *con)
   else
     {
       // no dptr address space, read SFR directly
-      data= xram->get(sfr->read(DPH)*256+sfr->read(DPL));
+      data= xram->get(sfr->get(DPH)*256+sfr->get(DPL));
       con->dd_printf("   DPTR= 0x%02x%02x @DPTR= 0x%02x %3d %c\n",
 		     sfr->get(DPH),
 		     sfr->get(DPL),
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 677ba3f..547fab5 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -425,17 +425,17 @@ cl_gb80::print_regs(class cl_console_base *con)
   con->dd_printf("%s\n", cbin(regs.raf.F,8).c_str());
 		 
   con->dd_printf("BC= 0x%04x [BC]= %02x %3d %c  ",
-                 regs.BC, get1(regs.BC), get1(regs.BC),
-                 isprint(get1(regs.BC))?get1(regs.BC):'.');
+                 regs.BC, ram->get(regs.BC), ram->get(regs.BC),
+                 isprint(ram->get(regs.BC))?ram->get(regs.BC):'.');
   con->dd_printf("DE= 0x%04x [DE]= %02x %3d %c  ",
-                 regs.DE, get1(regs.DE), get1(regs.DE),
-                 isprint(get1(regs.DE))?get1(regs.DE):'.');
+                 regs.DE, ram->get(regs.DE), ram->get(regs.DE),
+                 isprint(ram->get(regs.DE))?ram->get(regs.DE):'.');
   con->dd_printf("HL= 0x%04x [HL]= %02x %3d %c\n",
-                 regs.HL, get1(regs.HL), get1(regs.HL),
-                 isprint(get1(regs.HL))?get1(regs.HL):'.');
+                 regs.HL, ram->get(regs.HL), ram->get(regs.HL),
+                 isprint(ram->get(regs.HL))?ram->get(regs.HL):'.');
   con->dd_printf("SP= 0x%04x [SP]= %02x %3d %c\n",
-                 regs.SP, get1(regs.SP), get1(regs.SP),
-                 isprint(get1(regs.SP))?get1(regs.SP):'.');
+                 regs.SP, ram->get(regs.SP), ram->get(regs.SP),
+                 isprint(ram->get(regs.SP))?ram->get(regs.SP):'.');
 
   print_disass(PC, con);
 }
-- 
2.43.0


From 7cb7b7c202c92ab4e94be5e5b68ed251fc8a8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 065/197] fix: registers are printed without reading memory
 through devices

---
 src/core/motorola.src/m6800.cc    | 1 +
 src/core/motorola.src/m6801.cc    | 1 +
 src/core/motorola.src/m68hc11.cc  | 1 +
 src/core/sim.src/mem.cc           | 8 +++++---
 src/core/sim.src/memcl.h          | 6 ++++++
 src/sims/avr.src/avr.cc           | 1 +
 src/sims/i8048.src/i8020.cc       | 1 +
 src/sims/i8048.src/i8048.cc       | 1 +
 src/sims/m6809.src/m6809.cc       | 1 +
 src/sims/m68hc12.src/m68hc12.cc   | 1 +
 src/sims/mos6502.src/huc6280.cc   | 1 +
 src/sims/mos6502.src/mos6502.cc   | 1 +
 src/sims/mos6502.src/mos65ce02.cc | 1 +
 src/sims/rxk.src/r3ka.cc          | 1 +
 src/sims/rxk.src/r4k.cc           | 1 +
 src/sims/rxk.src/rxk.cc           | 1 +
 16 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 05e4170..0290c90 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -489,6 +489,7 @@ cl_m6800::print_regs(class cl_console_base *con)
 
   con->dd_printf("IX= ");
   class cl_dump_ads ads(IX, IX+7);
+  ads.peek= true;
   rom->dump(0, /*IX, IX+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..d154949 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -111,6 +111,7 @@ cl_m6801::print_regs(class cl_console_base *con)
 
   con->dd_printf("IX= ");
   class cl_dump_ads ads(IX, IX+7);
+  ads.peek= true;
   rom->dump(0, /*IX, IX+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 084639e..f626b35 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -166,6 +166,7 @@ cl_m68hcbase::print_regs(class cl_console_base *con)
 
   con->dd_printf("IX= ");
   class cl_dump_ads ads(IX, IX+7);
+  ads.peek= true;
   rom->dump(0, /*IX, IX+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 29c2c5d..22ea671 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -415,7 +415,7 @@ cl_memory::dump(int smart,
 
               con->dd_printf(" ");
 
-              /*t_mem*/u64_t m= read(ads->start);
+              /*t_mem*/u64_t m= ads->peek?get(ads->start):read(ads->start);
 
               int i;
               con->dd_printf("0b");
@@ -488,7 +488,8 @@ cl_memory::dump(int smart,
                 break;
             }
           con->dd_printf(" ");
-          con->dd_printf(data_format, read(ads->start+n*step));
+          t_addr a= ads->start+n*step;
+          con->dd_printf(data_format, ads->peek?get(a):read(a));
         }
       con->dd_printf("%-*s", (bpl - n) * (width/4 + ((width%4)?1:0) + 1) + 1, " ");
 
@@ -499,7 +500,8 @@ cl_memory::dump(int smart,
              ads->start+i*step != ads->stop;
            i++)
         {
-          long c= read(ads->start+i*step);
+          t_addr a= ads->start+i*step;
+          long c= ads->peek?get(a):read(a);
 	  // FIXME: endian assumption: low byte first - should be a uc flag or option?
           for (int ii= 0; ii <= (width - 1) - ((width - 1) % 8); ii += 8)
             con->dd_printf("%c", (isprint((c >> ii) & 255) ? (c >> ii) & 255 : '.'));
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 17dca9d..c656c71 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -60,31 +60,37 @@ class cl_dump_ads: public cl_base
 public:
   t_addr start, stop;
   bool use_start, use_stop;
+  bool peek; // get data without reading through devices
 public:
   cl_dump_ads(void): cl_base()
   {
+    peek= false;
     start= 0; stop= 0;
     use_start= false; use_stop= false;
   }
   cl_dump_ads(t_addr the_start): cl_base()
   {
+    peek= false;
     start= the_start; stop= 0;
     use_start= true; use_stop= false;
   }
   cl_dump_ads(t_addr the_start,
 	      t_addr the_stop): cl_base()
   {
+    peek= false;
     start= the_start; stop= the_stop;
     use_start= true; use_stop= true;
   }
   cl_dump_ads(t_addr the_start, bool the_use_start,
 	      t_addr the_stop, bool the_use_stop): cl_base()
   {
+    peek= false;
     start= the_start; stop= the_stop;
     use_start= the_use_start; use_stop= the_use_stop;
   }
   cl_dump_ads(const cl_dump_ads &da)
   {
+    peek= da.peek;
     start= da.start; stop= da.stop;
     use_start= da.use_start; use_stop= da.use_stop;
   }
diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..7a869a8 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -342,6 +342,7 @@ cl_avr::print_regs(class cl_console_base *con)
   uint x, y, z;
 
   class cl_dump_ads ads(0, 31);
+  ads.peek= true;
   ram->dump(0, /*0, 31*/&ads, 16, con);
 
   con->dd_color("answer");
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index 094f73c..29377e2 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -470,6 +470,7 @@ cl_i8020::print_regs(class cl_console_base *con)
   con->dd_color("answer");
   con->dd_printf("R0=");
   class cl_dump_ads ads(start, stop);
+  ads.peek= true;
   iram->dump(0, /*start, stop*/&ads, 8, con);
   start= R[1]->get();
   stop= start+7;
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index 9b06d49..3626a17 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -312,6 +312,7 @@ cl_i8048::print_regs(class cl_console_base *con)
   con->dd_color("answer");
   con->dd_printf("R0=");
   class cl_dump_ads ads(start, stop);
+  ads.peek= true;
   iram->dump(0, /*start, stop*/&ads, 8, con);
   start= R[1]->get();
   stop= start+7;
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 48ed1e3..c301462 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -693,6 +693,7 @@ cl_m6809::print_regs(class cl_console_base *con)
 
   con->dd_printf("X= ");
   class cl_dump_ads ads(reg.X, reg.X+7);
+  ads.peek= true;
   rom->dump(0, /*reg.X, reg.X+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 76cabca..3642686 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -614,6 +614,7 @@ cl_m68hc12::print_regs(class cl_console_base *con)
 
   con->dd_printf("IX= ");
   class cl_dump_ads ads(IX, IX+7);
+  ads.peek= true;
   rom->dump(0, /*IX, IX+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index d765bb1..ddb80a9 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -146,6 +146,7 @@ cl_huc6280::print_regs(class cl_console_base *con)
 
   con->dd_printf("S= ");
   class cl_dump_ads ads(SPh+SP, SPh+SP+7);
+  ads.peek= true;
   rom->dump(0, /*0x100+SP, 0x100+SP+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 139f3b3..f98f3c5 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -685,6 +685,7 @@ cl_mos6502::print_regs(class cl_console_base *con)
 
   con->dd_printf("S= ");
   class cl_dump_ads ads(SPh+SP, SPh+SP+7);
+  ads.peek= true;
   rom->dump(0, /*0x100+SP, 0x100+SP+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/sims/mos6502.src/mos65ce02.cc b/src/sims/mos6502.src/mos65ce02.cc
index b5f5b87..2c6bddb 100644
--- a/src/sims/mos6502.src/mos65ce02.cc
+++ b/src/sims/mos6502.src/mos65ce02.cc
@@ -69,6 +69,7 @@ cl_mos65ce02::print_regs(class cl_console_base *con)
 
   con->dd_printf("S= ");
   class cl_dump_ads ads(0x100+SP, 0x100+SP+7);
+  ads.peek= true;
   rom->dump(0, /*0x100+SP, 0x100+SP+7*/&ads, 8, con);
   con->dd_color("answer");
   
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index e093f5c..c635af4 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -215,6 +215,7 @@ cl_r3ka::print_regs(class cl_console_base *con)
   
   con->dd_printf("BC= ");
   class cl_dump_ads ads(rBC, rBC+7);
+  ads.peek= true;
   rom->dump(0, /*rBC, rBC+7*/&ads, 8, con);
   con->dd_color("answer");
   con->dd_printf("DE= ");
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index a3f4989..b843cdc 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -545,6 +545,7 @@ cl_r4k::print_regs(class cl_console_base *con)
   
   con->dd_printf("BC= ");
   class cl_dump_ads ads(rBC, rBC+7);
+  ads.peek= true;
   rom->dump(0, /*rBC, rBC+7*/&ads, 8, con);
   con->dd_color("answer");
   con->dd_printf("DE= ");
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 92ac02a..f6dd937 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -718,6 +718,7 @@ cl_rxk::print_regs(class cl_console_base *con)
   
   con->dd_printf("BC= ");
   class cl_dump_ads ads(rBC, rBC+7);
+  ads.peek= true;
   rom->dump(0, /*rBC, rBC+7*/&ads, 8, con);
   con->dd_color("answer");
   con->dd_printf("DE= ");
-- 
2.43.0


From 005cff8145a9b864d4b9a597d06b092f7e4c5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 066/197] fix: OISC disassembler comments do not execute reads,
 breakpoint result is returned properly

---
 src/sims/oisc.src/em.cc      | 12 ++++++++++++
 src/sims/oisc.src/emcl.h     |  1 +
 src/sims/oisc.src/misc16.cc  | 22 +++++++++++++++++++---
 src/sims/oisc.src/misc16cl.h |  1 +
 src/sims/oisc.src/oisc.cc    | 22 ++++++++++------------
 src/sims/oisc.src/urisc.cc   |  2 +-
 6 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 8b64d29..faaa15c 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -148,6 +148,18 @@ cl_em::read(u16_t addr)
   return cl_misc16::read(addr);
 }
 
+u16_t
+cl_em::peek(u16_t addr)
+{
+  switch (addr)
+    {
+    case 5: return rP;
+    case 6: return rom->get(rP);
+    case 10: return rom->get(rA);
+    }
+  return cl_misc16::peek(addr);
+}
+
 u16_t
 cl_em::write(u16_t addr, u16_t val)
 {
diff --git a/src/sims/oisc.src/emcl.h b/src/sims/oisc.src/emcl.h
index f3c7dbb..6c07a5b 100644
--- a/src/sims/oisc.src/emcl.h
+++ b/src/sims/oisc.src/emcl.h
@@ -45,6 +45,7 @@ public:
 
   virtual void init_alu(void);
   virtual u16_t read(u16_t addr);
+  virtual u16_t peek(u16_t addr);
   virtual u16_t write(u16_t addr, u16_t val);
 };
 
diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 6a1f9b4..ca9fd4f 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -195,19 +195,19 @@ cl_misc16::dis_comment(t_addr src, t_addr dst)
 	sa= rA;
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[0x%04x]=0x%04x", sa, rom->read(sa));
+      s.appendf("[0x%04x]=0x%04x", sa, peek(sa));
     }
   else if (src==7)
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", rA, rom->read(rA));
+      s.appendf("[src=0x%04x]=0x%04x", rA, peek(rA));
     }
   else
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", src, rom->read(src));
+      s.appendf("[src=0x%04x]=0x%04x", src, peek(src));
     }
   return s;
 }
@@ -228,6 +228,22 @@ cl_misc16::read(u16_t addr)
   return rom->get(addr);
 }
 
+// What read would give, without its side effects
+u16_t
+cl_misc16::peek(u16_t addr)
+{
+  switch (addr)
+    {
+    case 0: return PC;
+    case 1: return (PC+2)&0xffff;
+    case 2: return (PC+4)&0xffff;
+    case 3: return (PC+6)&0xffff;
+    case 7: return (rA==7)?rA:(rom->get(rA));
+    case 8: return rA;
+    }
+  return rom->get(addr);
+}
+
 u16_t
 cl_misc16::write(u16_t addr, u16_t val)
 {
diff --git a/src/sims/oisc.src/misc16cl.h b/src/sims/oisc.src/misc16cl.h
index bc411d0..8f8f31d 100644
--- a/src/sims/oisc.src/misc16cl.h
+++ b/src/sims/oisc.src/misc16cl.h
@@ -61,6 +61,7 @@ public:
   virtual u16_t shift(u16_t a); 
   virtual void init_alu(void);
   virtual u16_t read(u16_t addr);
+  virtual u16_t peek(u16_t addr);
   virtual u16_t write(u16_t addr, u16_t val);
 
   //virtual int exec_inst(void);
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index dd7994a..3c0ecb5 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -245,18 +245,16 @@ cl_oisc::reset(void)
 int
 cl_oisc::exec_inst(void)
 {
-  bool ret= do_brk();
-  if (!ret)
-    {
-      u16_t src= rom->read(PC);
-      u16_t dst= rom->read((PC+1) & 0xffff);
-      u16_t tmp= rom->read(src);
-      PC+= 2;
-      PC&= 0xffff;
-      rom->write(dst, tmp);
-      tick(4);
-    }
-  return ret;
+  if (do_brk())
+    return resBREAKPOINT;
+  u16_t src= rom->read(PC);
+  u16_t dst= rom->read((PC+1) & 0xffff);
+  u16_t tmp= rom->read(src);
+  PC+= 2;
+  PC&= 0xffff;
+  rom->write(dst, tmp);
+  tick(4);
+  return resGO;
 }
 
 
diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 315e1a2..7e6314b 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -145,7 +145,7 @@ cl_urisc::dis_comment(t_addr src, t_addr dst)
   if ((dst >= 0xfff0) && (dst <= 0xfff7) &&
       ((src < 0xfff0) || (src > 0xfff7)) &&
       (src != 0xffff))
-    s.appendf("; 0x%04x", rom->read(src));
+    s.appendf("; 0x%04x", rom->get(src));
   return s;
 }
 
-- 
2.43.0


From 3cee9bc51b482b5a707e9be2dbdd67474b234202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 067/197] fix: no clock ticks are counted for instruction
 stopped by breakpoint

---
 src/sims/i8085.src/i8080.cc | 2 ++
 src/sims/m6809.src/m6809.cc | 2 +-
 src/sims/p1516.src/p1516.cc | 2 +-
 src/sims/p1516.src/p2223.cc | 2 +-
 src/sims/s51.src/uc320.cc   | 5 +++--
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index e9baf11..ea4197c 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -470,6 +470,8 @@ cl_i8080::exec_inst(void)
   tick_shift= 0;
   if ((res= exec_inst_tab(itab)) != resNOT_DONE)
     {
+      if (res == resBREAKPOINT)
+	return res;
       u16_t t= ttab[code];
       t>>= tick_shift;
       t&= 0xff;
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index c301462..fbdab03 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2371,9 +2371,9 @@ cl_m6809::exec_inst(void)
   bool fe;
 
   fe= fetch(&code);
-  tick(1);
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (code & 0x80)
     return inst_alu(code);
diff --git a/src/sims/p1516.src/p1516.cc b/src/sims/p1516.src/p1516.cc
index 09cc13d..1758595 100644
--- a/src/sims/p1516.src/p1516.cc
+++ b/src/sims/p1516.src/p1516.cc
@@ -561,10 +561,10 @@ cl_p1516::exec_inst(void)
   PC= R[15];
   instPC= PC;
   fe= fetch(&code);
-  tick(1);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index 57fdb02..e9def67 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -912,10 +912,10 @@ CLP2::exec_inst(void)
   instPC= PC;
   fe= fetch(&code);
   //if (dbg_reg) fprintf(stderr, "F: %08x %08x %08x\n", instPC, code, F);
-  tick(4);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(4);
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/s51.src/uc320.cc b/src/sims/s51.src/uc320.cc
index c4518d0..820339e 100644
--- a/src/sims/s51.src/uc320.cc
+++ b/src/sims/s51.src/uc320.cc
@@ -220,10 +220,11 @@ cl_uc320::exec_inst(void)
 
   instPC= PC;
   pending_ticks= 0;
-  code= rom->read(PC);
+  code= rom->get(PC);
   res= cl_uc521::exec_inst();
 
-  if (res != resNOT_DONE)
+  if ((res != resNOT_DONE) &&
+      (res != resBREAKPOINT))
     tick(uc320_timing[code] - pending_ticks);
 
   return(res);
-- 
2.43.0


From 6bb54f8dc1dbb092eaba6530787fa0f3c1c259e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 068/197] fix: prefix state of rabbit and counters of pdk are
 kept when instruction is stopped by breakpoint

---
 src/sims/pdk.src/pdk.cc | 10 ++++++++++
 src/sims/rxk.src/rxk.cc |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 23ef4a8..d04e125 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -953,6 +953,16 @@ cl_pdk::exec_inst(void)
       fpps[act]->pre_inst();
       ret= fpps[act]->exec_inst();
       fpps[act]->post_inst();
+      if (ret == resBREAKPOINT)
+	{
+	  // nothing has been executed
+	  fpps[act]->vc.inst--;
+	  vc.inst= 1; // pre_inst is going to be undone by do_inst
+	  for (int i= 0; i<nuof_fpp; i++)
+	    vc.inst+= fpps[i]->vc.inst;
+	  PC= fpps[act]->PC;
+	  return ret;
+	}
       it= inst_ticks= fpps[act]->inst_ticks;
       tick(it);
       inst_ticks= it;
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index f6dd937..b53a5ea 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -785,6 +785,9 @@ cl_rxk::exec_inst(void)
   t_mem code;
   int res= resGO;
 
+  instPC= PC;
+  if (fetch(&code))
+    return resBREAKPOINT;
   if (!prefix)
     {
       rwas= rom;
@@ -793,9 +796,6 @@ cl_rxk::exec_inst(void)
   prefix= false;
   atomic= false;
   
-  instPC= PC;
-  if (fetch(&code))
-    return resBREAKPOINT;
   tick(1);
   if (code == 0xed)
     {
-- 
2.43.0


From c2ea3be5daecfecb7ca3f1dc62c160c453fd1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 069/197] fix: only memory accesses of the executed instruction
 are events

---
 src/core/sim.src/mem.cc  | 10 +++++++---
 src/core/sim.src/sim.cc  |  6 ++++++
 src/core/sim.src/simcl.h |  1 +
 src/core/sim.src/uc.cc   |  3 +++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 22ea671..4478de5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -39,7 +39,7 @@
 #include "utils.h"
 
 // sim
-//#include "simcl.h"
+#include "simcl.h"
 
 // cmd
 //#include "newcmdcl.h"
@@ -880,7 +880,9 @@ cl_write_operator::cl_write_operator(class cl_memory_cell *acell,
 t_mem
 cl_write_operator::write(t_mem val)
 {
-  if (bp->do_hit())
+  // console can also access memory, that is not an event
+  if (uc->sim->stepping &&
+      bp->do_hit())
     uc->events->add(bp);
   /*if (cell)
     return(cell->set(val));*/
@@ -902,7 +904,9 @@ cl_read_operator::cl_read_operator(class cl_memory_cell *acell,
 t_mem
 cl_read_operator::read(void)
 {
-  if (bp->do_hit())
+  // console can also access memory, that is not an event
+  if (uc->sim->stepping &&
+      bp->do_hit())
     uc->events->add(bp);
   if (cell)
     return(cell->get());
diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index f40ffb3..30e658e 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -57,6 +57,7 @@ cl_sim::cl_sim(class cl_app *the_app):
   app= the_app;
   uc= 0;
   state= SIM_NONE;
+  stepping= false;
   //arguments= new cl_list(2, 2);
   //accept_args= more_args?strdup(more_args):0;
   gui= new cl_gui(this);
@@ -124,7 +125,9 @@ cl_sim::step(void)
       if (steps_done == 0)
 	start_at= dnow();
 
+      stepping= true;
       res= uc->do_inst(); 
+      stepping= false;
 
       //if (res < resSTOP)
 	steps_done++;
@@ -223,7 +226,9 @@ cl_sim::stop(int reason)
   class cl_option *o= app->options->get_option("quit");
   unsigned long dt= uc?(uc->ticks->get_ticks() - start_tick):0;
   class cl_console_base *con= NULL;
+  bool was_stepping= stepping;
 
+  stepping= false; // scripts and printing are not part of the instruction
   if (cmd!=NULL)
     con= cmd->frozen_or_actual();
 
@@ -360,6 +365,7 @@ cl_sim::stop(int reason)
     state|= SIM_QUIT;
   
   cmd->update_active();
+  stepping= was_stepping;
 }
 
 void
diff --git a/src/core/sim.src/simcl.h b/src/core/sim.src/simcl.h
index 3a0c617..2aba7af 100644
--- a/src/core/sim.src/simcl.h
+++ b/src/core/sim.src/simcl.h
@@ -48,6 +48,7 @@ class cl_sim: public cl_base
 public:
   class cl_app *app;
   int state; // See SIM_XXXX
+  bool stepping; // instruction is under execution
   int argc; char **argv;
   
   //class cl_commander *cmd;
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 29d50b1..1b4b80a 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3874,6 +3874,8 @@ void
 cl_uc::check_events(void)
 {
   int i;
+  bool was_stepping= sim->stepping;
+  sim->stepping= false; // scripts are not part of the instruction
   if (events->count)
     sim->stop(resEVENTBREAK);
   for (i= 0; i < events->count; i++)
@@ -3895,6 +3897,7 @@ cl_uc::check_events(void)
 	ebrk->del_bp(idx, 0);
     }
   events->disconn_all();
+  sim->stepping= was_stepping;
 }
 
 void
-- 
2.43.0


From b368f281c9db389315a1c206e4d12ed57fdf395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 070/197] fix: temporary breakpoint is removed after its
 script, and it does not break inside of instruction

---
 src/core/sim.src/sim.cc  |  8 +++++++-
 src/core/sim.src/uc.cc   | 12 +++++++++---
 src/core/sim.src/uccl.h  |  1 +
 src/sims/s51.src/uc51.cc | 12 +++++++++++-
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index 30e658e..01d4e4e 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -240,7 +240,8 @@ cl_sim::stop(int reason)
   class cl_brk *b= NULL;
   if (reason == resBREAKPOINT)
     {
-      b= uc->fbrk_at(uc->PC);
+      b= uc->fbrk_hit;
+      uc->fbrk_hit= NULL;
     }
   if (b)
     {
@@ -251,7 +252,12 @@ cl_sim::stop(int reason)
       if (e)
 	if (con) con->dd_printf("\007");
 
+      int nr= b->nr;
       b->breaking();
+      // script of the breakpoint can delete it
+      if ((uc->brk_by_nr(nr) == b) &&
+	  (b->perm == brkDYNAMIC))
+	uc->fbrk->del_bp(b->addr);
       steps_done= 0;
     }
   
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1b4b80a..ad72de2 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -770,6 +770,7 @@ cl_uc::init(void)
     build_cmdset(cs);
   irq= false;
   vcd_break= false;
+  fbrk_hit= NULL;
   //reset();
 
   return 0;
@@ -3252,12 +3253,13 @@ cl_uc::do_brk(void)
           vcd_break = false;
           ret= true;
         }
-      if (rom->get_cell_flag(PC, CELL_FETCH_BRK))
+      // bytes after the first one of the instruction do not break
+      if ((PC == instPC) &&
+	  rom->get_cell_flag(PC, CELL_FETCH_BRK))
 	if ((brk= fbrk->get_bp(PC, &idx)))
 	  if (brk->do_hit())
 	    {
-	      if (brk->perm == brkDYNAMIC)
-		fbrk->del_bp(PC);
+	      fbrk_hit= brk;
 	      ret= true;
 	    }
     }
@@ -3310,6 +3312,10 @@ cl_uc::do_inst(void)
       int r= do_interrupt();
       if (r != resGO)
 	res= r;
+      if (errors->count)
+	check_errors();
+      if (events->count)
+	check_events();
     }
 
   return(res);
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index c7db5b4..4b9a4cd 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -323,6 +323,7 @@ public:
   bool analyzer;		// Whether the code analyzer is enabled
   
   int brk_counter;		// Number of breakpoints
+  class cl_brk *fbrk_hit;	// accepted FETCH break-point, if execution stops on it
   class brk_coll *fbrk;		// Collection of FETCH break-points
   class brk_coll *ebrk;		// Collection of EVENT breakpoints
   class cl_display_list *displays;// Collection of displayed exprs on break
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index d325891..643add6 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1705,8 +1705,14 @@ cl_51core::do_inst(void)
     {
       interrupt->was_reti= false;
       pre_inst();
-      PCsave= PC;
+      PCsave= instPC= PC;
       result= exec_inst();
+      if (result == resBREAKPOINT)
+	{
+	  /* nothing has been executed */
+	  vc.inst--;
+	  hist->forget_last();
+	}
       post_inst();
     }
   else
@@ -1728,6 +1734,10 @@ cl_51core::do_inst(void)
 	result= res;
       else
 	result= idle_pd();
+      if (errors->count)
+	check_errors();
+      if (events->count)
+	check_events();
     }
   if ((result == resINTERRUPT) &&
       stop_at_it)
-- 
2.43.0


From f94da086d9961fb2b7db2edbf6bb2a48242491eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 071/197] fix: disassembler comment of i8080 does not count
 memory read

---
 src/sims/i8085.src/i8080.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index ea4197c..2341ceb 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -226,7 +226,7 @@ const char *srp_names[4]= {
 void
 cl_i8080::dis_M(chars *comment)
 {
-  u8_t m= rM;
+  u8_t m= rom->get(rHL);
   if (comment->empty())
     *comment= "; ";
   comment->appendf("[0x%04x]= 0x%02x", rHL, m);
-- 
2.43.0


From 526e5bfcbbd1c0bee2250f54fcb975df67664cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 072/197] fix: breakpoint accepted by FPP is handled by main
 pdk uc

---
 src/sims/pdk.src/pdk.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index d04e125..61486f7 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -961,6 +961,8 @@ cl_pdk::exec_inst(void)
 	  for (int i= 0; i<nuof_fpp; i++)
 	    vc.inst+= fpps[i]->vc.inst;
 	  PC= fpps[act]->PC;
+	  fbrk_hit= fpps[act]->fbrk_hit;
+	  fpps[act]->fbrk_hit= NULL;
 	  return ret;
 	}
       it= inst_ticks= fpps[act]->inst_ticks;
-- 
2.43.0


From b0a73dcb2a35b16186728d86f72f6fd1b67b7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 073/197] fix: event breakpoints and VCD variables do not hide
 value provided by hardware

---
 src/core/sim.src/mem.cc  | 16 ++++++++++++----
 src/core/sim.src/memcl.h |  3 +++
 src/core/sim.src/vcd.cc  |  1 +
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 4478de5..7a34d11 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1216,9 +1216,13 @@ cl_memory_cell::read(void)
 #endif
   if (ops && ops[0])
     {
-      t_mem r= 0;
+      t_mem r= d();
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read();
+	{
+	  t_mem v= ops[i]->read();
+	  if (!ops[i]->is_watcher())
+	    r= v;
+	}
       return r;
     }
   return d();
@@ -1232,9 +1236,13 @@ cl_memory_cell::read(enum hw_cath skip)
 #endif
   if (ops && ops[0])
     {
-      t_mem r= 0;
+      t_mem r= d();
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read(skip);
+	{
+	  t_mem v= ops[i]->read(skip);
+	  if (!ops[i]->is_watcher())
+	    r= v;
+	}
       return r;
     }
   return d();
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index c656c71..b84ffeb 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -241,6 +241,8 @@ public:
   virtual t_mem write(t_mem val);
 
   virtual class cl_banker *get_banker(void) { return NULL; }
+  // watchers see the accesses only, they do not provide data
+  virtual bool is_watcher(void) { return false; }
 };
 
 class cl_bank_switcher_operator: public cl_memory_operator
@@ -285,6 +287,7 @@ public:
   }
 
   virtual bool match(class cl_brk *brk) { return(bp == brk); }
+  virtual bool is_watcher(void) { return true; }
 };
 
 class cl_write_operator: public cl_event_break_operator
diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 20ccf8e..8fd03f7 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -107,6 +107,7 @@ class cl_vcd_var: public cl_memory_operator
   ~cl_vcd_var(void);
 
   t_mem write(t_mem val);
+  virtual bool is_watcher(void) { return true; }
 };
 
 
-- 
2.43.0


From 407da7872731612276f952d055cadb2f38168208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 074/197] fix: URISC functional registers are installed at
 init, not by printing of registers

---
 src/sims/oisc.src/urisc.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 7e6314b..379f882 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -78,6 +78,15 @@ cl_urisc::init_alu(void)
 {
   id_str= "Ultimate_RISC";
   reg_cell_var(&cF, &rF, "F", "Flags");
+  class cl_memory_cell *c;
+  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
@@ -90,15 +99,6 @@ cl_urisc::print_regs(class cl_console_base *con)
   con->dd_printf(" 0x%02x", rF);
   con->dd_printf("\n");
   print_disass(PC, con);
-  class cl_memory_cell *c;
-  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 
-- 
2.43.0


From f55e6534ca3e1f5b75691a06ca2d5508221f0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 075/197] fix: URISC program counter is accessible at 0xffff

---
 src/sims/oisc.src/urisc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 379f882..6850318 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -87,6 +87,7 @@ cl_urisc::init_alu(void)
   c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
   c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
   c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xffff); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
-- 
2.43.0


From 814645e5bb11c0c017b14d0d0c7f71698d129571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 076/197] fix: URISC overflow flag

---
 src/sims/oisc.src/urisc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 6850318..7f9699f 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -61,7 +61,7 @@ cl_urisc::add(u16_t a, u16_t b, u16_t c)
   u32_t sf, ss;
   c= c?1:0;
   sf= a+b+c;
-  ss= (a&0x7fff)+(b+0x7fff)+c;
+  ss= (a&0x7fff)+(b&0x7fff)+c;
   u8_t c1, c2;
   c1= (sf>0xffff)?1:0;
   c2= (ss>0x7fff)?1:0;
-- 
2.43.0


From 67ee24c60ed77742bf1a250d53ffee95e7771fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 077/197] fix: condition of breakpoint is not counted as event

---
 src/core/sim.src/brk.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/sim.src/brk.cc b/src/core/sim.src/brk.cc
index bac95d9..db4d571 100644
--- a/src/core/sim.src/brk.cc
+++ b/src/core/sim.src/brk.cc
@@ -32,6 +32,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 
 //#include "pobjcl.h"
 #include "globals.h"
+#include "simcl.h"
 
 #include "brkcl.h"
 
@@ -80,7 +81,11 @@ cl_brk::condition(void)
   if (cond.empty())
     return true;
   long l;
+  class cl_sim *sim= application->get_sim();
+  bool was_stepping= sim->stepping;
+  sim->stepping= false; // condition is not part of the instruction
   l= application->eval(cond);
+  sim->stepping= was_stepping;
   //fprintf(stderr,"BP[%d]EVAL: %s =%ld\n", nr, cond.c_str(), l);
   return l!=0;
 }
-- 
2.43.0


From f63fbeadab71cd9762aec4272a6b08076e51593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 078/197] fix: unknown instruction of s51 is fetched only once

---
 src/sims/s51.src/uc51.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 643add6..8bb4a0a 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1650,7 +1650,9 @@ cl_51core::exec_inst(void)
   //if ((res= exec_inst_tab(itab51)) == resNOT_DONE)
   if ((res= exec_inst_uctab()) == resNOT_DONE)
     {
-      fetch(&code);
+      // code has already been fetched (and checked for breakpoint)
+      code= rom->get(PC);
+      set_PC((PC+1) & PCmask);
       res= inst_unknown(code);
     }
   
-- 
2.43.0


From d8d1d6ee5f40b02abadba785f28ff541d343a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 079/197] fix: unknown instructions of MOS 6502 are one byte
 long

---
 src/sims/mos6502.src/mos6502.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index f98f3c5..c132c5a 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -722,7 +722,7 @@ cl_mos6502::inst_length(t_addr addr)
 {
   struct dis_entry *de= get_dis_entry(addr);
   if (!de)
-    return 0;
+    return 1;
   return de->length;
 }
 
-- 
2.43.0


From acaa0204f8bbcea2c7b5a33ef572f91e9a1508ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 080/197] fix: where command does not crash on values wider
 than a character

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 7a34d11..848d9e8 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -716,9 +716,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if (d1 < 128 && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if (d2 < 128 && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From e56ccc66d318e7d3949ef09ede2db1d80d0a298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 081/197] fix: next command does not crash on processors
 without instruction table

---
 src/core/sim.src/uc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ad72de2..711281b 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2654,6 +2654,8 @@ cl_uc::inst_length(t_addr addr)
   if (!rom)
     return(0);
 
+  if (!tabl)
+    return 1;
   code = rom->get(addr);
   for (i= 0; tabl[i].mnemonic && (code & tabl[i].mask) != tabl[i].code; i++) ;
   return(tabl[i].mnemonic?tabl[i].length:1);
@@ -2666,7 +2668,7 @@ cl_uc::inst_branch(t_addr addr)
   int i;
   t_mem code;
 
-  if (!rom)
+  if (!rom || !tabl)
     return(0);
 
   code = rom->get(addr);
@@ -2682,7 +2684,7 @@ cl_uc::is_call(t_addr addr)
   int i;
   t_mem code;
 
-  if (!rom)
+  if (!rom || !tabl)
     return(0);
 
   code = rom->get(addr);
-- 
2.43.0


From 184f15e72880d1cf4122628e19df11a5af79a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 082/197] fix: disassembly and length of z80n, z180 ED prefixed
 instructions and ADD HL,DE

---
 src/sims/z80.src/glob.cc | 18 +++++++++---------
 src/sims/z80.src/z80.cc  |  2 ++
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 766535a..6d9e953 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -68,7 +68,7 @@ struct dis_entry disass_z80[]= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -380,7 +380,7 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-  { 0x0043, 0x00ff, ' ', 1, "LD (nnnn),BC" },
+  { 0x0043, 0x00ff, ' ', 3, "LD (%w),BC" },
   { 0x0044, 0x00ff, ' ', 1, "NEG" },
   { 0x0045, 0x00ff, ' ', 1, "RETN" },
   { 0x0046, 0x00ff, ' ', 1, "IM 0" },
@@ -388,39 +388,39 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0048, 0x00ff, ' ', 1, "IN C,(C)" },
   { 0x0049, 0x00ff, ' ', 1, "OUT (C),C" },
   { 0x004A, 0x00ff, ' ', 1, "ADC HL,BC" },
-  { 0x004B, 0x00ff, ' ', 1, "LD BC,(nnnn)" },
+  { 0x004B, 0x00ff, ' ', 3, "LD BC,(%w)" },
   { 0x004D, 0x00ff, ' ', 1, "RETI" },
   { 0x004F, 0x00ff, ' ', 1, "LD R,A" },
   { 0x0050, 0x00ff, ' ', 1, "IN D,(C)" },
   { 0x0051, 0x00ff, ' ', 1, "OUT (C),D" },
   { 0x0052, 0x00ff, ' ', 1, "SBC HL,DE" },
-  { 0x0053, 0x00ff, ' ', 1, "LD (nnnn),DE" },
+  { 0x0053, 0x00ff, ' ', 3, "LD (%w),DE" },
   { 0x0056, 0x00ff, ' ', 1, "IM 1" },
   { 0x0057, 0x00ff, ' ', 1, "LD A,IV" },
   { 0x0058, 0x00ff, ' ', 1, "IN E,(C)" },
   { 0x0059, 0x00ff, ' ', 1, "OUT (C),E" },
   { 0x005A, 0x00ff, ' ', 1, "ADC HL,DE" },
-  { 0x005B, 0x00ff, ' ', 1, "LD DE,(nnnn)" },
+  { 0x005B, 0x00ff, ' ', 3, "LD DE,(%w)" },
   { 0x005E, 0x00ff, ' ', 1, "IM 2" },
   { 0x005F, 0x00ff, ' ', 1, "LD A,R" },
   { 0x0060, 0x00ff, ' ', 1, "IN H,(C)" },
   { 0x0061, 0x00ff, ' ', 1, "OUT (C),H" },
   { 0x0062, 0x00ff, ' ', 1, "SBC HL,HL" },
-  { 0x0063, 0x00ff, ' ', 1, "LD (nnnn),HL" },
+  { 0x0063, 0x00ff, ' ', 3, "LD (%w),HL" },
   { 0x0067, 0x00ff, ' ', 1, "RRD" },
   { 0x0068, 0x00ff, ' ', 1, "IN L,(C)" },
   { 0x0069, 0x00ff, ' ', 1, "OUT (C),L" },
   { 0x006A, 0x00ff, ' ', 1, "ADC HL,HL" },
-  { 0x006B, 0x00ff, ' ', 1, "LD HL,(nnnn)" },
+  { 0x006B, 0x00ff, ' ', 3, "LD HL,(%w)" },
   { 0x006F, 0x00ff, ' ', 1, "RLD" },
   { 0x0070, 0x00ff, ' ', 1, "IN (C)" },
   { 0x0071, 0x00ff, ' ', 1, "OUT (C),0" },
   { 0x0072, 0x00ff, ' ', 1, "SBC HL,SP" },
-  { 0x0073, 0x00ff, ' ', 1, "LD (nnnn),SP" },
+  { 0x0073, 0x00ff, ' ', 3, "LD (%w),SP" },
   { 0x0078, 0x00ff, ' ', 1, "IN A,(C)" },
   { 0x0079, 0x00ff, ' ', 1, "OUT (C),A" },
   { 0x007A, 0x00ff, ' ', 1, "ADC HL,SP" },
-  { 0x007B, 0x00ff, ' ', 1, "LD SP,(nnnn)" },
+  { 0x007B, 0x00ff, ' ', 3, "LD SP,(%w)" },
   { 0x00A0, 0x00ff, ' ', 1, "LDI" },
   { 0x00A1, 0x00ff, ' ', 1, "CPI" },
   { 0x00A2, 0x00ff, ' ', 1, "INI" },
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 61063f9..7702d00 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -400,6 +400,7 @@ cl_z80::get_disasm_info(t_addr addr,
 	  while ((code & disass_z80n_ed[i].mask) != disass_z80n_ed[i].code &&
 		 disass_z80n_ed[i].mnemonic)
 	    i++;
+	  dis_e = &disass_z80n_ed[i];
 	  b= disass_z80n_ed[i].mnemonic;
 	  if (b != NULL)
 	    {
@@ -413,6 +414,7 @@ cl_z80::get_disasm_info(t_addr addr,
 	  while ((code & disass_z180_ed[i].mask) != disass_z180_ed[i].code &&
 		 disass_z180_ed[i].mnemonic)
 	    i++;
+	  dis_e = &disass_z180_ed[i];
 	  b= disass_z180_ed[i].mnemonic;
 	  if (b != NULL)
 	    {
-- 
2.43.0


From 7da6deaf1641f344592ef93cb3d6622fc5edd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 083/197] fix: length of ADD HL,DE and LD (FF00+C) in the gb80
 disassembly table

---
 src/sims/z80.src/glob_gb80.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..c161921 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -70,7 +70,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -313,7 +313,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00e0, 0x00ff, ' ', 2, "LDH (0xFF00+%b),A" },  // unique to GB80
   { 0x00e1, 0x00ff, ' ', 1, "POP HL" },
-  { 0x00e2, 0x00ff, 'A', 2, "LD (0xFF00+C),A" },  // unique to GB80
+  { 0x00e2, 0x00ff, 'A', 1, "LD (0xFF00+C),A" },  // unique to GB80
   { 0x00e3, 0x00ff, ' ', 1, "Illegal Op" },
   { 0x00e4, 0x00ff, 'l', 1, "Illegal Op" },
   { 0x00e5, 0x00ff, ' ', 1, "PUSH HL" },
@@ -331,7 +331,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00f0, 0x00ff, ' ', 2, "LDH A,(0xFF00+%b)" },  // unique to GB80
   { 0x00f1, 0x00ff, ' ', 1, "POP AF" },
-  { 0x00f2, 0x00ff, ' ', 2, "LD A,(0xFF00+C)" },  // unique to GB80
+  { 0x00f2, 0x00ff, ' ', 1, "LD A,(0xFF00+C)" },  // unique to GB80
   { 0x00f3, 0x00ff, ' ', 1, "DI" },
   { 0x00f4, 0x00ff, 'l', 3, "Illegal Op" },
   { 0x00f5, 0x00ff, ' ', 1, "PUSH AF" },
-- 
2.43.0


From 23d2d1d598a3cb5424b9dc6e952600bbc6d2b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 084/197] fix: lengths and masks in the MC6809 disassembly
 table

---
 src/sims/m6809.src/glob.cc  | 22 +++++++++++-----------
 src/sims/m6809.src/m6809.cc |  7 ++++---
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..2ae1a75 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -146,27 +146,27 @@ struct dis_entry disass_m6809[]=
    { 0x8f, 0xcf, ' ', 1, "STX %N"	, 0, 0 },
    { 0xcf, 0xcf, ' ', 1, "STU %N"	, 0, 0 },
    
-   { 0x00, 0xcf, ' ', 1, "NEG %n"	, 0, 0 },
+   { 0x00, 0xff, ' ', 1, "NEG %n"	, 0, 0 },
    { 0x60, 0x6f, ' ', 1, "NEG %n"	, 0, 0 },
-   { 0x03, 0xcf, ' ', 1, "COM %n"	, 0, 0 },
+   { 0x03, 0xff, ' ', 1, "COM %n"	, 0, 0 },
    { 0x63, 0x6f, ' ', 1, "COM %n"	, 0, 0 },
-   { 0x04, 0xcf, ' ', 1, "LSR %n"	, 0, 0 },
+   { 0x04, 0xff, ' ', 1, "LSR %n"	, 0, 0 },
    { 0x64, 0x6f, ' ', 1, "LSR %n"	, 0, 0 },
-   { 0x06, 0xcf, ' ', 1, "ROR %n"	, 0, 0 },
+   { 0x06, 0xff, ' ', 1, "ROR %n"	, 0, 0 },
    { 0x66, 0x6f, ' ', 1, "ROR %n"	, 0, 0 },
-   { 0x07, 0xcf, ' ', 1, "ASR %n"	, 0, 0 },
+   { 0x07, 0xff, ' ', 1, "ASR %n"	, 0, 0 },
    { 0x67, 0x6f, ' ', 1, "ASR %n"	, 0, 0 },
-   { 0x08, 0xcf, ' ', 1, "ASL %n"	, 0, 0 },
+   { 0x08, 0xff, ' ', 1, "ASL %n"	, 0, 0 },
    { 0x68, 0x6f, ' ', 1, "ASL %n"	, 0, 0 },
-   { 0x09, 0xcf, ' ', 1, "ROL %n"	, 0, 0 }, 
+   { 0x09, 0xff, ' ', 1, "ROL %n"	, 0, 0 }, 
    { 0x69, 0x6f, ' ', 1, "ROL %n"	, 0, 0 }, 
-   { 0x0a, 0xcf, ' ', 1, "DEC %n"	, 0, 0 }, 
+   { 0x0a, 0xff, ' ', 1, "DEC %n"	, 0, 0 }, 
    { 0x6a, 0x6f, ' ', 1, "DEC %n"	, 0, 0 }, 
-   { 0x0c, 0xcf, ' ', 1, "INC %n"	, 0, 0 }, 
+   { 0x0c, 0xff, ' ', 1, "INC %n"	, 0, 0 }, 
    { 0x6c, 0x6f, ' ', 1, "INC %n"	, 0, 0 }, 
-   { 0x0d, 0xcf, ' ', 1, "TST %n"	, 0, 0 },
+   { 0x0d, 0xff, ' ', 1, "TST %n"	, 0, 0 },
    { 0x6d, 0x6f, ' ', 1, "TST %n"	, 0, 0 },
-   { 0x0f, 0xcf, ' ', 1, "CLR %n"	, 0, 0 },
+   { 0x0f, 0xff, ' ', 1, "CLR %n"	, 0, 0 },
    { 0x6f, 0x6f, ' ', 1, "CLR %n"	, 0, 0 },
 
    { 0, 0, 0, 0, 0, 0 }
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index fbdab03..7228a07 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -749,7 +749,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -764,7 +764,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -797,13 +797,14 @@ cl_m6809::inst_length(t_addr addr)
       if (ch==1)
 	{
 	  if (cl==6||cl==7) return 3;
-	  if (cl==10||cl==12||cl==13||cl==15) return 2;
+	  if (cl==10||cl==12||cl==14||cl==15) return 2;
 	}
       if (ch==2) return 2;
       if (ch==3)
 	{
 	  if (cl < 4) return indexed_length(addr);
 	  if (cl < 8) return 2;
+	  if (cl == 12) return 2;
 	}
       if (ch==6) return indexed_length(addr);
       if (ch==7) return 3; // extend
-- 
2.43.0


From f767e948e9224a63650d5adc5ca2e0ef934c095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 085/197] fix: lengths in the TLCS disassembly table

---
 src/sims/tlcs.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 10f6125..5930159 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -61,7 +61,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x1e, 0xff, ' ', 1, "RET" },
   { 0x1f, 0xff, ' ', 1, "RETI" },
   { 0x000037, 0x0000ff, 'n', 3, "LD (0xff%n),%N" },
-  { 0x00003f, 0x0000ff, 'm', 3, "LDW (0xff%n),%m" },
+  { 0x00003f, 0x0000ff, 'm', 4, "LDW (0xff%n),%m" },
   { 0x0097, 0x00ff, 'n', 2, "INCW (0xff%n)" },
   { 0x009F, 0x00ff, 'n', 2, "DECW (0xff%n)" },
   { 0xa0, 0xff, ' ', 1, "RLCA" },
@@ -1090,7 +1090,7 @@ struct dis_entry disass_t870c[]=
     { 0x00000018, 0x000000f8, ' ', 2, "LD 'r_0.0','n_1'" },
 
     { 0x00000020, 0x000000f8, ' ', 1, "INC 'r_0.0'" },
-    { 0x00000028, 0x000000f8, ' ', 2, "DEC 'r_0.0'" },
+    { 0x00000028, 0x000000f8, ' ', 1, "DEC 'r_0.0'" },
 
     { 0x00000037, 0x000000ff, ' ', 2, "LD SP,SP+'n_1'" },
     { 0x00000030, 0x000000f8, ' ', 1, "INC 'rr_0.0'" },    
-- 
2.43.0


From 91ecf83ae0bacafd05feca9634899a5c9c03db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 086/197] fix: lengths of ANL BUS and ENT0 on MCS-48

---
 src/sims/i8048.src/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..5c652ab 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
-- 
2.43.0


From 0c2300e16cb839a84fd84c557f720ffcff7d8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 087/197] fix: lengths and opcodes of prefixed instructions in
 the 68HC11 tables

---
 src/core/motorola.src/g11p18.cc | 18 +++++++++---------
 src/core/motorola.src/g11p1a.cc | 10 +++++-----
 src/core/motorola.src/g11pcd.cc |  6 +++---
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..8f8b2f3 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -71,13 +71,13 @@ struct dis_entry disass11p18[]= {
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
-  { 0xce, 0xff, ' ', 3, "LDY %B" },
+  { 0xce, 0xff, ' ', 4, "LDY %B" },
   { 0xde, 0xff, ' ', 3, "LDY %D" },
-  { 0xde, 0xff, ' ', 3, "LDY %X" },
-  { 0xfe, 0xff, ' ', 3, "LDY %E" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xfe, 0xff, ' ', 4, "LDY %E" },
   { 0xdf, 0xff, ' ', 3, "STY %D" },
-  { 0xdf, 0xff, ' ', 3, "STY %X" },
-  { 0xff, 0xff, ' ', 3, "STY %E" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
+  { 0xff, 0xff, ' ', 4, "STY %E" },
   { 0xe0, 0xff, ' ', 3, "SUB B,%x" },
   { 0xe1, 0xff, ' ', 3, "CMP B,%x" },
   { 0xe2, 0xff, ' ', 3, "SBC B,%x" },
@@ -93,10 +93,10 @@ struct dis_entry disass11p18[]= {
   { 0xec, 0xff, ' ', 3, "LDD %X" },
   { 0xed, 0xff, ' ', 3, "STD %X" },
 
-  { 0x1c, 0xff, ' ', 3, "BSET %x,%b" },
-  { 0x1e, 0xff, 'R', 4, "BRSET %x,%b,%r" },
-  { 0x1d, 0xff, ' ', 3, "BCLR %x,%b" },
-  { 0x1f, 0xff, 'R', 4, "BRCLR %x,%b,%r" },
+  { 0x1c, 0xff, ' ', 4, "BSET %x,%b" },
+  { 0x1e, 0xff, 'R', 5, "BRSET %x,%b,%r" },
+  { 0x1d, 0xff, ' ', 4, "BCLR %x,%b" },
+  { 0x1f, 0xff, 'R', 5, "BRCLR %x,%b,%r" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..5bcd6a2 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -32,14 +32,14 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // code, mask, branch, len, mnem, iscall, ticks
 struct dis_entry disass11p1a[]= {
 
-  { 0x83, 0xff, ' ', 3, "CPD %B" },  
+  { 0x83, 0xff, ' ', 4, "CPD %B" },  
   { 0x93, 0xff, ' ', 3, "CPD %D" },  
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xb3, 0xff, ' ', 3, "CPD %E" },  
+  { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
-  { 0xee, 0xff, ' ', 2, "LDY %x" },
-  { 0xef, 0xff, ' ', 2, "STY %x" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
+  { 0xee, 0xff, ' ', 3, "LDY %x" },
+  { 0xef, 0xff, ' ', 3, "STY %x" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..5eb0a90 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,9 +33,9 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
-  { 0xee, 0xff, ' ', 2, "LDX %x" },
-  { 0xef, 0xff, ' ', 2, "STX %x" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
+  { 0xee, 0xff, ' ', 3, "LDX %x" },
+  { 0xef, 0xff, ' ', 3, "STX %x" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
-- 
2.43.0


From 95749be1889c605a6fdce84b06af02760744a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 088/197] fix: operand decoding in 68HC12 disassembly

---
 src/sims/m68hc12.src/decode12.h | 6 +++---
 src/sims/m68hc12.src/dis.cc     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index e08ae73..77fda25 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -6,14 +6,14 @@ DEC(0, 02,	inxy	, _cY		, "INY"		, ' ', 1	, 1)
 DEC(0, 03,	dexy	, _cY		, "INY"		, ' ', 1	, 1)
 // 04 loop
 DEC(0, 05,	jump	, _xba		, "JMP %p"	, ' ', -2	, 0x643)
-DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 2	, 4)
+DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 3	, 4)
 DEC(0, 07,	bsr	, _NONE		, "BSR %r"	, ' ', 2	, 4)
 DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -4	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -4	, 4)
+DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -3	, 4)
+DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -3	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index 6892d74..f5c5f27 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -543,7 +543,7 @@ CL12::inst_length(t_addr addr)
       if (di->length >= 0)
 	return di->length;
       int l= -(di->length);
-      u16_t a= (u16_t)addr+l-1;
+      u16_t a= (u16_t)addr+((code == 0x18)?2:1);
       u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
-- 
2.43.0


From 475c730121f3a9d9c35d5165a4076445145f0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 089/197] fix: lengths in the F8 disassembly table

---
 src/sims/f8.src/glob.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 838a343..8639215 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -98,7 +98,7 @@ struct dis_entry disass_f8[]=
     { 0x60, 0xff, ' ', 3, "push 'a16_8'" },
     { 0x61, 0xff, ' ', 2, "push ('nsp_8')" },
     { 0x62, 0xff, ' ', 1, "push %a" },
-    { 0x63, 0xff, ' ', 1, "push ('ny_8')" },
+    { 0x63, 0xff, ' ', 2, "push ('ny_8')" },
     { 0x90, 0xff, ' ', 2, "push #'i8'" },
 
     { 0xb0, 0xff, ' ', 3, "pushw 'a16_16'" },
@@ -114,7 +114,7 @@ struct dis_entry disass_f8[]=
     { 0x92, 0xff, ' ', 1, "xch %a,('y_8')" },
     { 0x93, 0xff, ' ', 1, "xch %L,%H" },
     { 0xf4, 0xff, ' ', 1, "xchw %R,('%A')" },
-    { 0xf5, 0xff, ' ', 1, "xchw %A,('nsp_16')" },
+    { 0xf5, 0xff, ' ', 2, "xchw %A,('nsp_16')" },
 
     { 0x9b, 0xff, ' ', 1, "cax ('y_8'),xh,yl" },
     { 0xf9, 0xff, ' ', 1, "caxw ('y_16'),z,x" },
@@ -122,7 +122,7 @@ struct dis_entry disass_f8[]=
     { 0x58, 0xff, ' ', 3, "clr 'a16_8'" },
     { 0x59, 0xff, ' ', 2, "clr ('nsp_8')" },
     { 0x5a, 0xff, ' ', 1, "clr %a" },
-    { 0x5b, 0xff, ' ', 1, "clr zh" },
+    { 0x5b, 0xff, ' ', 2, "clr ('ny_8')" },
     { 0xa0, 0xff, ' ', 3, "clrw 'a16_16'" },
     { 0xa1, 0xff, ' ', 2, "clrw ('nsp_16')" },
     { 0xa2, 0xff, ' ', 3, "clrw ('nnz_16')" },
@@ -235,32 +235,32 @@ struct dis_entry disass_f8[]=
     { 0x40, 0xff, ' ', 3, "srl 'a16_8'" },
     { 0x41, 0xff, ' ', 2, "srl ('nsp_8')" },
     { 0x42, 0xff, ' ', 1, "srl %a" },
-    { 0x43, 0xff, ' ', 1, "srl ('ny_8')" },
+    { 0x43, 0xff, ' ', 2, "srl ('ny_8')" },
     { 0x44, 0xff, ' ', 3, "sll 'a16_8'" },
     { 0x45, 0xff, ' ', 2, "sll ('nsp_8')" },
     { 0x46, 0xff, ' ', 1, "sll %a" },
-    { 0x47, 0xff, ' ', 1, "sll ('ny_8')" },
+    { 0x47, 0xff, ' ', 2, "sll ('ny_8')" },
     { 0x48, 0xff, ' ', 3, "rrc 'a16_8'" },
     { 0x49, 0xff, ' ', 2, "rrc ('nsp_8')" },
     { 0x4a, 0xff, ' ', 1, "rrc %a" },
-    { 0x4b, 0xff, ' ', 1, "rrc ('ny_8')" },
+    { 0x4b, 0xff, ' ', 2, "rrc ('ny_8')" },
     { 0x4c, 0xff, ' ', 3, "rlc 'a16_8'" },
     { 0x4d, 0xff, ' ', 2, "rlc ('nsp_8')" },
     { 0x4e, 0xff, ' ', 1, "rlc %a" },
-    { 0x4f, 0xff, ' ', 1, "rlc ('ny_8')" },
+    { 0x4f, 0xff, ' ', 2, "rlc ('ny_8')" },
 
     { 0x50, 0xff, ' ', 3, "inc 'a16_8'" },
     { 0x51, 0xff, ' ', 2, "inc ('nsp_8')" },
     { 0x52, 0xff, ' ', 1, "inc %a" },
-    { 0x53, 0xff, ' ', 1, "inc ('ny_8')" },
+    { 0x53, 0xff, ' ', 2, "inc ('ny_8')" },
     { 0x54, 0xff, ' ', 3, "dec 'a16_8'" },
     { 0x55, 0xff, ' ', 2, "dec ('nsp_8')" },
     { 0x56, 0xff, ' ', 1, "dec %a" },
-    { 0x57, 0xff, ' ', 1, "dec ('ny_8')" },
+    { 0x57, 0xff, ' ', 2, "dec ('ny_8')" },
     { 0x5c, 0xff, ' ', 3, "tst 'a16_8'" },
     { 0x5d, 0xff, ' ', 2, "tst ('nsp_8')" },
     { 0x5e, 0xff, ' ', 1, "tst %a" },
-    { 0x5f, 0xff, ' ', 1, "tst ('ny_8')" },
+    { 0x5f, 0xff, ' ', 2, "tst ('ny_8')" },
 
     { 0xa4, 0xff, ' ', 3, "incw 'a16_16'" },
     { 0xa5, 0xff, ' ', 2, "incw ('nsp_16')" },
-- 
2.43.0


From f0581651a5bcc75a9f11cb35e24c021af779d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 090/197] fix: undefined HuC6280 opcodes are not executed as
 ST0

---
 src/sims/mos6502.src/glob.cc    |  7 +++++++
 src/sims/mos6502.src/huc6280.cc | 14 +++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sims/mos6502.src/glob.cc b/src/sims/mos6502.src/glob.cc
index 7d48b4f..935131e 100644
--- a/src/sims/mos6502.src/glob.cc
+++ b/src/sims/mos6502.src/glob.cc
@@ -307,6 +307,13 @@ struct dis_entry disass_mos65c02s[]=
 
 struct dis_entry disass_huc6280[]=
   {
+    { 0x0b, 0x0f, ' ', 1, "NOP" },
+    { 0xe2, 0xff, ' ', 1, "NOP" },
+    { 0x33, 0xff, ' ', 1, "NOP" },
+    { 0x63, 0xff, ' ', 1, "NOP" },
+    { 0x5c, 0xff, ' ', 1, "NOP" },
+    { 0xdc, 0xff, ' ', 1, "NOP" },
+    { 0xfc, 0xff, ' ', 1, "NOP" },
     { 0x02, 0xff, ' ', 1, "SXY" },
     { 0x22, 0xff, ' ', 1, "SAX" },
     { 0x42, 0xff, ' ', 1, "SAY" },
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index ddb80a9..57a0f60 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -61,14 +61,14 @@ cl_huc6280::init(void)
   cl_mos6502::init();
   // Map all 0x_b into NOP 1,1
   for (i=0x0b; i<=0xfb; i+= 0x10)
-    itab[i]= instruction_wrapper_03;
+    itab[i]= instruction_wrapper_ea;
   // some other non-codes
-  itab[0xe2]= instruction_wrapper_03;
-  itab[0x33]= instruction_wrapper_03;
-  itab[0x63]= instruction_wrapper_03;
-  itab[0x5c]= instruction_wrapper_03;
-  itab[0xdc]= instruction_wrapper_03;
-  itab[0xfc]= instruction_wrapper_03;
+  itab[0xe2]= instruction_wrapper_ea;
+  itab[0x33]= instruction_wrapper_ea;
+  itab[0x63]= instruction_wrapper_ea;
+  itab[0x5c]= instruction_wrapper_ea;
+  itab[0xdc]= instruction_wrapper_ea;
+  itab[0xfc]= instruction_wrapper_ea;
   
   address_spaces->add(mpras);
   memchips->add(mprch);
-- 
2.43.0


From 04800f2ebb791522c6537a1254db22ff0d160d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 091/197] fix: instruction lengths of i8080 are found in its
 table

---
 src/sims/i8085.src/i8080.cc  | 21 +++++++++++++++++++++
 src/sims/i8085.src/i8080cl.h |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 2341ceb..24d44c8 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -198,6 +198,27 @@ cl_i8080::get_dis_entry(t_addr addr)
   return NULL;
 }
 
+int
+cl_i8080::inst_length(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return (de && de->mnemonic)?de->length:1;
+}
+
+int
+cl_i8080::inst_branch(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return (de && de->mnemonic)?de->branch:0;
+}
+
+bool
+cl_i8080::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de && de->mnemonic && de->is_call;
+}
+
 char rm_names[8]= {
   'B',
   'C',
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b9ed625..005a4ba 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -140,6 +140,9 @@ public:
   virtual int clock_per_cycle(void) { return 1; }
   virtual struct dis_entry *dis_tbl(void);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
+  virtual int inst_length(t_addr addr);
+  virtual int inst_branch(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual void dis_M(chars *comment);
   virtual void dis_rp8(chars *comment, int rp);
   virtual void dis_rp16(chars *comment, int rp);
-- 
2.43.0


From 64b6a1589e902ad621b623b8a07d34e18c3e7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 092/197] fix: BSET and BCLR of 68HC12 fetch operand before
 mask, operand decoding in disassembly

---
 src/sims/m68hc12.src/decode12.h  | 12 ++++++------
 src/sims/m68hc12.src/dis.cc      | 15 +++++++++------
 src/sims/m68hc12.src/m68hc12cl.h |  4 ++++
 src/sims/m68hc12.src/wdefs.h     | 12 ++++++------
 src/sims/m68hc12.src/wfills.h    |  6 +++---
 5 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index 77fda25..443fedd 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -12,8 +12,8 @@ DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -3	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -3	, 4)
+DEC(0, 0c,	bset	, _xb		, "BSET %p,%b"	, ' ', -3	, 4)
+DEC(0, 0d,	bclr	, _xb		, "BCLR %p,%b"	, ' ', -3	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
@@ -29,8 +29,8 @@ DEC(0, 17,	jsr	, _da	 	, "JSR %d"	, ' ', 2	, 4)
 DEC(0, 19,	lea	, _cY		, "LEAY %p"	, ' ', -2	, 0x532)
 DEC(0, 1a,	lea	, _cX		, "LEAX %p"	, ' ', -2	, 0x532)
 DEC(0, 1b,	lea	, _cS		, "LEAS %p"	, ' ', -2	, 0x532)
-DEC(0, 1c,	Or	, _e_i8		, "BSET %e,%b"	, ' ', 4	, 4)
-DEC(0, 1d,	And	, _e_i8n	, "BCLR %e,%b"	, ' ', 4	, 4)
+DEC(0, 1c,	bset	, _e		, "BSET %e,%b"	, ' ', 4	, 4)
+DEC(0, 1d,	bclr	, _e		, "BCLR %e,%b"	, ' ', 4	, 4)
 DEC(0, 1e,	brset_e	, _NONE		, "BRSET %e,%b,%r", ' ', 5	, 5)
 DEC(0, 1f,	brclr_e	, _NONE		, "BRCLR %e,%b,%r", ' ', 5	, 5)
 
@@ -80,8 +80,8 @@ DEC(0, 48,	asl	, _cA	 	, "ASLA"	, ' ', 1	, 1)
 DEC(0, 49,	lsr16	, _cD		, "LSRD"	, ' ', 1	, 1)
 DEC(0, 4a,	call_e	, _NONE		, "CALL 'ep'"	, ' ', 4	, 7)
 DEC(0, 4b,	call_id	, _NONE		, "CALL 'ip'"	, ' ', -2	, 0xa98)
-DEC(0, 4c,	Or	, _d_i8		, "BSET %d,%b"	, ' ', 3	, 4)
-DEC(0, 4d,	And	, _d_i8n	, "BCLR %d,%b"	, ' ', 3	, 4)
+DEC(0, 4c,	bset	, _d		, "BSET %d,%b"	, ' ', 3	, 4)
+DEC(0, 4d,	bclr	, _d		, "BCLR %d,%b"	, ' ', 3	, 4)
 DEC(0, 4e,	brset_d	, _NONE		, "BRSET %d,%b,%r", ' ', 4	, 5)
 DEC(0, 4f,	brclr_d	, _NONE		, "BRCLR %d,%b,%r", ' ', 4	, 5)
 
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index f5c5f27..202d783 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -82,13 +82,13 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
     }
   
   if ((dis_e= get_dis_entry(addr)) == NULL)
-    return NULL;
-  if (dis_e->mnemonic == NULL)
+    return strdup("-- UNKNOWN/INVALID");
+  if ((dis_e->mnemonic == NULL) ||
+      !*(dis_e->mnemonic))
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
 
-  if (rom->get(addr) == 0x18)
-    addr++;
+  t_addr page= (rom->get(addr) == 0x18)?1:0;
 
   first= true;
   work= "";
@@ -304,6 +304,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     peek_addr(rom, a));
+	      addr+= 2;
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(addr+1);
@@ -314,10 +315,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     peek_addr(rom, a));
+	      addr++;
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
 			   rom->get(addr+1));
+	      addr++;
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -338,9 +341,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      }
 	    case 'p': case 'P':// xb postbyte for 8/16 bit operand
 	      {
-		t_addr a= addr+1;
+		t_addr a= addr+page+1;
 		disass_xb(&a, &work, comment, isupper(b[i])?2:1);
-		addr= a;
+		addr= a-1;
 		break;
 	      }
 	    case 'T': // TFR/EXG
diff --git a/src/sims/m68hc12.src/m68hc12cl.h b/src/sims/m68hc12.src/m68hc12cl.h
index 6744c3e..2be541b 100644
--- a/src/sims/m68hc12.src/m68hc12cl.h
+++ b/src/sims/m68hc12.src/m68hc12cl.h
@@ -177,6 +177,10 @@ public:
   virtual int movw_idex(void);
   virtual int movb_idex(void);
   
+  // operand is fetched first, then the mask
+  virtual int bset(class cl_memory_cell &m) { return Or(m, i8()); }
+  virtual int bclr(class cl_memory_cell &m) { return And(m, ~(i8())); }
+
   // BRANCH
   virtual int call_e(void);
   virtual int call_id(void);
diff --git a/src/sims/m68hc12.src/wdefs.h b/src/sims/m68hc12.src/wdefs.h
index 8434c56..c6ba223 100644
--- a/src/sims/m68hc12.src/wdefs.h
+++ b/src/sims/m68hc12.src/wdefs.h
@@ -8,8 +8,8 @@ int wrap_0_08(class CL12 *uc, t_mem code) { return uc-> inxy ( _cX ); }
 int wrap_0_09(class CL12 *uc, t_mem code) { return uc-> dexy ( _cX ); }
 int wrap_0_0a(class CL12 *uc, t_mem code) { return uc-> rtc ( _NONE ); }
 int wrap_0_0b(class CL12 *uc, t_mem code) { return uc-> rti ( _NONE ); }
-int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> Or ( _xb_i8 ); }
-int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> And ( _xb_i8n ); }
+int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> bset ( _xb ); }
+int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> bclr ( _xb ); }
 int wrap_0_0e(class CL12 *uc, t_mem code) { return uc-> brset_id ( _NONE ); }
 int wrap_0_0f(class CL12 *uc, t_mem code) { return uc-> brclr_id ( _NONE ); }
 int wrap_0_10(class CL12 *uc, t_mem code) { return uc-> andcc ( _i8 ); }
@@ -23,8 +23,8 @@ int wrap_0_17(class CL12 *uc, t_mem code) { return uc-> jsr ( _da ); }
 int wrap_0_19(class CL12 *uc, t_mem code) { return uc-> lea ( _cY ); }
 int wrap_0_1a(class CL12 *uc, t_mem code) { return uc-> lea ( _cX ); }
 int wrap_0_1b(class CL12 *uc, t_mem code) { return uc-> lea ( _cS ); }
-int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> Or ( _e_i8 ); }
-int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> And ( _e_i8n ); }
+int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> bset ( _e ); }
+int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> bclr ( _e ); }
 int wrap_0_1e(class CL12 *uc, t_mem code) { return uc-> brset_e ( _NONE ); }
 int wrap_0_1f(class CL12 *uc, t_mem code) { return uc-> brclr_e ( _NONE ); }
 int wrap_0_20(class CL12 *uc, t_mem code) { return uc-> BRA ( 0x20 ); }
@@ -69,8 +69,8 @@ int wrap_0_48(class CL12 *uc, t_mem code) { return uc-> asl ( _cA ); }
 int wrap_0_49(class CL12 *uc, t_mem code) { return uc-> lsr16 ( _cD ); }
 int wrap_0_4a(class CL12 *uc, t_mem code) { return uc-> call_e ( _NONE ); }
 int wrap_0_4b(class CL12 *uc, t_mem code) { return uc-> call_id ( _NONE ); }
-int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> Or ( _d_i8 ); }
-int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> And ( _d_i8n ); }
+int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> bset ( _d ); }
+int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> bclr ( _d ); }
 int wrap_0_4e(class CL12 *uc, t_mem code) { return uc-> brset_d ( _NONE ); }
 int wrap_0_4f(class CL12 *uc, t_mem code) { return uc-> brclr_d ( _NONE ); }
 int wrap_0_50(class CL12 *uc, t_mem code) { return uc-> neg ( _cB ); }
diff --git a/src/sims/m68hc12.src/wfills.h b/src/sims/m68hc12.src/wfills.h
index 1ae69e6..af9ab65 100644
--- a/src/sims/m68hc12.src/wfills.h
+++ b/src/sims/m68hc12.src/wfills.h
@@ -2,14 +2,14 @@ virtual void fill_0_01() { page0[0x01 ]= wrap_0_01; set_disass(0, 0x01, "MEM", '
 virtual void fill_0_02() { page0[0x02 ]= wrap_0_02; set_disass(0, 0x02, "INY", ' ', 1); set_ticks(0, 0x02, 1); }
 virtual void fill_0_03() { page0[0x03 ]= wrap_0_03; set_disass(0, 0x03, "INY", ' ', 1); set_ticks(0, 0x03, 1); }
 virtual void fill_0_05() { page0[0x05 ]= wrap_0_05; set_disass(0, 0x05, "JMP %p", ' ', -2); set_ticks(0, 0x05, 0x643); }
-virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 2); set_ticks(0, 0x06, 4); }
+virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 3); set_ticks(0, 0x06, 4); }
 virtual void fill_0_07() { page0[0x07 ]= wrap_0_07; set_disass(0, 0x07, "BSR %r", ' ', 2); set_ticks(0, 0x07, 4); }
 virtual void fill_0_08() { page0[0x08 ]= wrap_0_08; set_disass(0, 0x08, "INX", ' ', 1); set_ticks(0, 0x08, 1); }
 virtual void fill_0_09() { page0[0x09 ]= wrap_0_09; set_disass(0, 0x09, "INX", ' ', 1); set_ticks(0, 0x09, 1); }
 virtual void fill_0_0a() { page0[0x0a ]= wrap_0_0a; set_disass(0, 0x0a, "RTC", ' ', 1); set_ticks(0, 0x0a, 7); }
 virtual void fill_0_0b() { page0[0x0b ]= wrap_0_0b; set_disass(0, 0x0b, "RTI", ' ', 1); set_ticks(0, 0x0b, 8); }
-virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -4); set_ticks(0, 0x0c, 4); }
-virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -4); set_ticks(0, 0x0d, 4); }
+virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -3); set_ticks(0, 0x0c, 4); }
+virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -3); set_ticks(0, 0x0d, 4); }
 virtual void fill_0_0e() { page0[0x0e ]= wrap_0_0e; set_disass(0, 0x0e, "BRSET %p,%b,%r", ' ', -4); set_ticks(0, 0x0e, 5); }
 virtual void fill_0_0f() { page0[0x0f ]= wrap_0_0f; set_disass(0, 0x0f, "BRCLR %p,%b,%r", ' ', -4); set_ticks(0, 0x0f, 5); }
 virtual void fill_0_10() { page0[0x10 ]= wrap_0_10; set_disass(0, 0x10, "ANDCC %b", ' ', 2); set_ticks(0, 0x10, 1); }
-- 
2.43.0


From b286744cc903207dc8a645c047d95b3dfcd8d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 093/197] fix: length of prefixed long branches and SWI in
 MC6809 disassembly

---
 src/sims/m6809.src/glob.cc  | 30 +++++++++++++++---------------
 src/sims/m6809.src/m6809.cc |  4 ++++
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index 2ae1a75..9124a64 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -174,21 +174,21 @@ struct dis_entry disass_m6809[]=
 
 struct dis_entry disass_m6809_10[]=
   {
-   { 0x21, 0xff, ' ', 1, "LBRN %E"	, 0, 0 },
-   { 0x22, 0xff, 'b', 1, "LBHI %E"	, 0, 0 },
-   { 0x23, 0xff, 'b', 1, "LBLS %E"	, 0, 0 },
-   { 0x24, 0xff, 'b', 1, "LBCC %E"	, 0, 0 },
-   { 0x25, 0xff, 'b', 1, "LBCS %E"	, 0, 0 },
-   { 0x26, 0xff, 'b', 1, "LBNE %E"	, 0, 0 },
-   { 0x27, 0xff, 'b', 1, "LBEQ %E"	, 0, 0 },
-   { 0x28, 0xff, 'b', 1, "LBVC %E"	, 0, 0 },
-   { 0x29, 0xff, 'b', 1, "LBVS %E"	, 0, 0 },
-   { 0x2a, 0xff, 'b', 1, "LBPL %E"	, 0, 0 },
-   { 0x2b, 0xff, 'b', 1, "LBMI %E"	, 0, 0 },
-   { 0x2c, 0xff, 'b', 1, "LBGE %E"	, 0, 0 },
-   { 0x2d, 0xff, 'b', 1, "LBLT %E"	, 0, 0 },
-   { 0x2e, 0xff, 'b', 1, "LBGT %E"	, 0, 0 },
-   { 0x2f, 0xff, 'b', 1, "LBLE %E"	, 0, 0 },
+   { 0x21, 0xff, ' ', 2, "LBRN %E"	, 0, 0 },
+   { 0x22, 0xff, 'b', 2, "LBHI %E"	, 0, 0 },
+   { 0x23, 0xff, 'b', 2, "LBLS %E"	, 0, 0 },
+   { 0x24, 0xff, 'b', 2, "LBCC %E"	, 0, 0 },
+   { 0x25, 0xff, 'b', 2, "LBCS %E"	, 0, 0 },
+   { 0x26, 0xff, 'b', 2, "LBNE %E"	, 0, 0 },
+   { 0x27, 0xff, 'b', 2, "LBEQ %E"	, 0, 0 },
+   { 0x28, 0xff, 'b', 2, "LBVC %E"	, 0, 0 },
+   { 0x29, 0xff, 'b', 2, "LBVS %E"	, 0, 0 },
+   { 0x2a, 0xff, 'b', 2, "LBPL %E"	, 0, 0 },
+   { 0x2b, 0xff, 'b', 2, "LBMI %E"	, 0, 0 },
+   { 0x2c, 0xff, 'b', 2, "LBGE %E"	, 0, 0 },
+   { 0x2d, 0xff, 'b', 2, "LBLT %E"	, 0, 0 },
+   { 0x2e, 0xff, 'b', 2, "LBGT %E"	, 0, 0 },
+   { 0x2f, 0xff, 'b', 2, "LBLE %E"	, 0, 0 },
    { 0x83, 0xcf, ' ', 1, "CMPD %U"	, 0, 0 },
    { 0x8c, 0xcf, ' ', 1, "CMPY %U"	, 0, 0 },
    { 0xce, 0xcf, ' ', 1, "LDS %U"	, 0, 0 },
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 7228a07..26bd980 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -752,6 +752,10 @@ cl_m6809::inst_length(t_addr addr)
 	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
+      if (ch == 2) // long branch
+	aml= 2;
+      else if (code == 0x3f) // SWI2
+	aml= 0;
       ret+= aml;
     }
   else if (code == 0x11)
-- 
2.43.0


From 9f050884d72d0a8315db010ea1f19dcea45e028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 094/197] fix: length of indexed dbnz in HC08 disassembly table

---
 src/sims/m68hc08.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 0675b2c..119cbe2 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -157,7 +157,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,x" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,x" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,x" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,x,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,x,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,x" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,x" },
   { 0x006e, 0x00ff, ' ', 3, "mov %b,%d" },
@@ -343,7 +343,7 @@ struct dis_entry disass_hc08_9e[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,sp" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,sp" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,sp" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,sp,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,sp,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,sp" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,sp" },
   { 0x006f, 0x00ff, ' ', 2, "clr %1,sp" },
-- 
2.43.0


From e96f524433693075329934e00fc8ecfd603b9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 095/197] fix: entries and lengths in the STM8 disassembly
 table

---
 src/sims/stm8.src/glob.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index 2e39b50..960af5a 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -182,7 +182,6 @@ struct dis_entry disass_stm8[]= {
   { 0x00e6, 0x00ff, ' ', 2, "ld A,(%1,X)" },
   { 0x00f6, 0x00ff, ' ', 1, "ld A,(X)" },
   { 0x006b, 0x00ff, ' ', 2, "ld (%1,SP),A" },
-  { 0x00a7, 0x00ff, ' ', 2, "ld %b,A" },
   { 0x00b7, 0x00ff, ' ', 2, "ld %d,A" },
   { 0x00c7, 0x00ff, ' ', 3, "ld %x,A" },
   { 0x00d7, 0x00ff, ' ', 3, "ld (%2,X),A" },
@@ -358,7 +357,6 @@ struct dis_entry disass_stm8_72[]= {
   { 0x00bb, 0x00ff, ' ', 3, "addw X,%x" },
   { 0x00b9, 0x00ff, ' ', 3, "addw Y,%x" },
   { 0x00a9, 0x00ff, ' ', 3, "addw Y,%w" },
-  { 0x00f9, 0x00ff, ' ', 3, "addw Y,%d" },
   { 0x00fb, 0x00ff, ' ', 2, "addw X,(%1,SP)" },
   { 0x00f9, 0x00ff, ' ', 2, "addw Y,(%1,SP)" },
   { 0x00c4, 0x00ff, ' ', 3, "and A,[%2.w]" },
@@ -691,10 +689,10 @@ struct dis_entry disass_stm8_91[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],Y),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],Y),A" }, // 91
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],Y)" },
-  { 0x00ce, 0x00ff, ' ', 3, "ldw Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ldw Y,([%1.w],Y)" },
-  { 0x00cf, 0x00ff, ' ', 3, "ldw [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ldw ([%1.w],Y),X" },
+  { 0x00ce, 0x00ff, ' ', 2, "ldw Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ldw Y,([%1.w],Y)" },
+  { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ldw ([%1.w],Y),X" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1.w],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x0069, 0x00ff, ' ', 2, "rlc ([%1.w],Y)" },
@@ -746,7 +744,8 @@ struct dis_entry disass_stm8_92[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],X),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],X),A" },
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],X)" },
-  { 0x00bc, 0x00ff, ' ', 2, "ldf A,[%1.e]" },
+  { 0x00bc, 0x00ff, ' ', 3, "ldf A,[%2.e]" },
+  { 0x00bd, 0x00ff, ' ', 3, "ldf [%2.e],A" },
   { 0x00ce, 0x00ff, ' ', 2, "ldw X,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 2, "ldw X,([%1.w],X)" },
   { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],X" },
-- 
2.43.0


From e29a980f3732dfb10d9e01a96f4c876647a6ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 096/197] fix: entries and lengths in the Rabbit disassembly
 table

---
 src/sims/rxk.src/gpddm3.cc |  4 ++--
 src/sims/rxk.src/gpedm4.cc | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sims/rxk.src/gpddm3.cc b/src/sims/rxk.src/gpddm3.cc
index 39f2eb5..2957fd7 100644
--- a/src/sims/rxk.src/gpddm3.cc
+++ b/src/sims/rxk.src/gpddm3.cc
@@ -85,9 +85,9 @@ struct dis_entry disass_pddm3[]=
     { 0xf4, 0xff, ' ', 3, "LD (%J%d),HL" },
     
     { 0x64, 0xff, ' ', 2, "LDP (%I),HL" },
-    { 0x64, 0xff, ' ', 4, "LDP (%w),%I" },
+    { 0x65, 0xff, ' ', 4, "LDP (%w),%I" },
     { 0x6c, 0xff, ' ', 2, "LDP HL,(%I)" },
-    { 0x6d, 0xff, ' ', 2, "LDP %I,(%w)" },
+    { 0x6d, 0xff, ' ', 4, "LDP %I,(%w)" },
 
     { 0xe9, 0xff, ' ', 2, "JP (%I)" },
 
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index b82cf9c..6b21ef4 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -74,14 +74,14 @@ struct dis_entry disass_pedm4[]=
     { 0xb5, 0xff, ' ', 4, "SETUSRP %w" },
     { 0xb1, 0xff, ' ', 4, "SETSYSP %w" },
     { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)" },
-    { 0x03, 0xff, ' ', 2, "LDL PW,(SP+%b)" },
-    { 0x13, 0xff, ' ', 2, "LDL PX,(SP+%b)" },
-    { 0x23, 0xff, ' ', 2, "LDL PY,(SP+%b)" },
-    { 0x33, 0xff, ' ', 2, "LDL PZ,(SP+%b)" },
-    { 0x04, 0xff, ' ', 2, "LD PW,(SP+%b)" },
-    { 0x14, 0xff, ' ', 2, "LD PX,(SP+%b)" },
-    { 0x24, 0xff, ' ', 2, "LD PY,(SP+%b)" },
-    { 0x34, 0xff, ' ', 2, "LD PZ,(SP+%b)" },
+    { 0x03, 0xff, ' ', 3, "LDL PW,(SP+%b)" },
+    { 0x13, 0xff, ' ', 3, "LDL PX,(SP+%b)" },
+    { 0x23, 0xff, ' ', 3, "LDL PY,(SP+%b)" },
+    { 0x33, 0xff, ' ', 3, "LDL PZ,(SP+%b)" },
+    { 0x04, 0xff, ' ', 3, "LD PW,(SP+%b)" },
+    { 0x14, 0xff, ' ', 3, "LD PX,(SP+%b)" },
+    { 0x24, 0xff, ' ', 3, "LD PY,(SP+%b)" },
+    { 0x34, 0xff, ' ', 3, "LD PZ,(SP+%b)" },
     { 0x05, 0xff, ' ', 2, "LD (SP+%b),PW" },
     { 0x15, 0xff, ' ', 2, "LD (SP+%b),PX" },
     { 0x25, 0xff, ' ', 2, "LD (SP+%b),PY" },
-- 
2.43.0


From b39c348346e63c85807ad84cf74f31b1886cadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 097/197] fix: length of LDW forms in the F8 disassembly table

---
 src/sims/f8.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 8639215..f0c4ba6 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -89,8 +89,8 @@ struct dis_entry disass_f8[]=
     { 0xce, 0xff, ' ', 2, "ldw ('nA_16'),%R" },
     { 0x70, 0xff, ' ', 1, "ldw %A, sp" },
     { 0x74, 0xff, ' ', 2, "ldw (('nsp_16')),%A" },
-    { 0xdc, 0xff, ' ', 2, "ldw %A,z" },
-    { 0xde, 0xff, ' ', 2, "ldw %R,(%A)" },
+    { 0xdc, 0xff, ' ', 1, "ldw %A,z" },
+    { 0xde, 0xff, ' ', 1, "ldw %R,(%A)" },
 
     { 0xed, 0xff, ' ', 2, "ldi ('ny_8'),(z)" },
     { 0xcf, 0xff, ' ', 2, "ldwi ('ny16'),(z)" },
-- 
2.43.0


From 19a094e16a6c1bb6eaf43f5138d0cfdd8101c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 098/197] fix: length of LD (ix+d),rr in the TLCS disassembly
 table

---
 src/sims/tlcs.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 5930159..edec639 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -325,7 +325,7 @@ struct dis_entry disass_tlcs[]= {
   {     0xD000f4,     0xf000fc, ' ', 3, "CALL %F%I%d", true },
   {     0x2000f4,     0xf800fc, ' ', 3, "LD (%I%d),%t" },
   {     0x3800f4,     0xf800fc, ' ', 3, "LDA %u,%I%d" },
-  {     0x4000f4,     0xf800fc, ' ', 4, "LD (%I%d),%u" },
+  {     0x4000f4,     0xf800fc, ' ', 3, "LD (%I%d),%u" },
   /* Others in exec_inst: c1&0xf8 */
   { 0x20, 0xf8, 'r', 1, "LD A,%r" },
   { 0x28, 0xf8, 'r', 1, "LD %r,A" },
-- 
2.43.0


From 12faad361793f3578604704a5fcc55b1870b28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 099/197] fix: ED 00 is not RLC B

---
 src/sims/z80.src/glob.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 6d9e953..6a260ca 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -376,7 +376,6 @@ struct dis_entry disass_z180_ed[]= {
 };
   
 struct dis_entry disass_z80_ed[]= {
-  { 0x0000, 0x00ff, ' ', 1, "RLC B" },
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-- 
2.43.0


From 7d86e7a51713cb87f612a9ac14b66250df90ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 100/197] fix: 8 bit timers of STM8 have no ARRH register

---
 src/sims/stm8.src/timer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 3221591..1a9417b 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -159,6 +159,8 @@ cl_tim::reset(void)
   cnt= 0;
   prescaler_cnt= 0;
   prescaler_preload= 0;
+  prescaler_ms_buffer= 0;
+  arr_ms_buffer= 0;
 
   for (i= 0; i<32+6; i++)
     regs[i]->set(0);
@@ -269,7 +271,7 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
   else if (a == idx.pscrl)
     {
       prescaler_preload= *val;
-      if (idx.pscrh > 0)
+      if (pbits > 8)
 	prescaler_preload+= prescaler_ms_buffer * 256;
     }
     
@@ -287,7 +289,7 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
       if ((regs[idx.cr1]->get() & arpe) != 0)
 	{
 	  regs[idx.arrl]->set(l= *val);
-	  if (idx.arrh > 0)
+	  if (bits > 8)
 	    regs[idx.arrh]->set(h= arr_ms_buffer);
 	  if ((regs[idx.cr1]->get() & arpe) == 0)
 	    set_counter(h*256 + l);
-- 
2.43.0


From 2f229cb5fd2e46417a1a915cbfdfcff81e7f32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 101/197] fix: division by zero, shift range and bit field
 assignment in expressions

---
 src/core/cmd.src/cmdpars.y | 93 ++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 20 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..5948ba1 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,11 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+static long expr_div(long a, long b);
+static long expr_mod(long a, long b);
+static long expr_shl(long a, long n);
+static long expr_shr(long a, long n);
+static t_mem bits_mask(int low, int high);
 %}
 /*%expect 6*/
 
@@ -144,9 +149,8 @@ primary_expr
 : memory { $$= $1.memory->read($1.address); }
 | bit
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
+		t_mem mask = bits_mask($1.bitnr_low, $1.bitnr_high);
+		$$= expr_shr($1.memory->read($1.mem_address) & mask, $1.bitnr_low);
 	}
 | PTOK_NUMBER { $$= $1; }
 | PTOK_CELL { $$= $1->read(); }
@@ -277,8 +281,8 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr { $$= expr_div($1, $3); }
+| multiplicative_expr PTOK_PERCENT cast_expr { $$= expr_mod($1, $3); }
 ;
 
 additive_expr
@@ -289,8 +293,8 @@ additive_expr
 
 shift_expr
 : additive_expr { $$= $1; }
-| shift_expr PTOK_LEFT_OP additive_expr { $$= $1 << $3; }
-| shift_expr PTOK_RIGHT_OP additive_expr { $$= $1 >> $3; }
+| shift_expr PTOK_LEFT_OP additive_expr { $$= expr_shl($1, $3); }
+| shift_expr PTOK_RIGHT_OP additive_expr { $$= expr_shr($1, $3); }
 ;
 
 relational_expr
@@ -354,10 +358,10 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      $1.memory->write($1.address, org= expr_div(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      $1.memory->write($1.address, org= expr_mod(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -366,10 +370,10 @@ assignment_expr
 	      $1.memory->write($1.address, org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1.memory->write($1.address, org <<= $3);
+	      $1.memory->write($1.address, org= expr_shl(org, $3));
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1.memory->write($1.address, org >>= $3);
+	      $1.memory->write($1.address, org= expr_shr(org, $3));
 	      break;
 	    case PTOK_AND_ASSIGN:
 	      $1.memory->write($1.address, org &= $3);
@@ -385,11 +389,11 @@ assignment_expr
 	}
 | bit PTOK_EQUAL assignment_expr
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		t_mem mask = bits_mask($1.bitnr_low, $1.bitnr_high);
+		$1.memory->write($1.mem_address,
+				 ($1.memory->read($1.mem_address) & (~mask)) |
+				 (expr_shl($3, $1.bitnr_low) & mask));
+		$$= expr_shr($1.memory->read($1.mem_address) & mask, $1.bitnr_low);
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
@@ -404,10 +408,10 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      $1->write(org= expr_div(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      $1->write(org= expr_mod(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
@@ -416,10 +420,10 @@ assignment_expr
 	      $1->write(org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1->write(org <<= $3);
+	      $1->write(org= expr_shl(org, $3));
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1->write(org >>= $3);
+	      $1->write(org= expr_shr(org, $3));
 	      break;
 	    case PTOK_AND_ASSIGN:
 	      $1->write(org &= $3);
@@ -500,3 +504,52 @@ yyerror (const char *msg)
 {
   application->dd_cprintf ("error", "Parser error: %s\n", msg);
 }
+
+static long
+expr_div(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  // dividing by -1 may overflow
+  return (b == -1)?(long)(0UL-(unsigned long)a):(a / b);
+}
+
+static long
+expr_mod(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  return (b == -1)?0:(a % b);
+}
+
+static long
+expr_shl(long a, long n)
+{
+  if ((n < 0) || (n >= (long)sizeof(long)*8))
+    return 0;
+  return (long)((unsigned long)a << n);
+}
+
+static long
+expr_shr(long a, long n)
+{
+  if ((n < 0) || (n >= (long)sizeof(long)*8))
+    return (a < 0)?-1:0;
+  return a >> n;
+}
+
+static t_mem
+bits_mask(int low, int high)
+{
+  t_mem mask= 0;
+  int i;
+  for (i= (low < 0)?0:low; (i <= high) && (i < (int)sizeof(t_mem)*8); i++)
+    mask|= (t_mem)1 << i;
+  return mask;
+}
-- 
2.43.0


From de4a8b505cf0a989d93e301adf802b514fd8fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 102/197] fix: unknown symbol ended the expression silently

---
 src/core/cmd.src/cmdlex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..c7b3a85 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -233,5 +233,6 @@ uc_yy_check_id(char *token)
        }
     }
 
-  return 0;
+  // unknown symbol: not a token of the grammar (0 would mean end of input)
+  return token[0];
 }
-- 
2.43.0


From 74aad3f4b33617a6589d5cfdefb8218791134273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 103/197] fix: octal escapes in strings and character constants

---
 src/core/cmd.src/cmdutil.cc | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/core/cmd.src/cmdutil.cc b/src/core/cmd.src/cmdutil.cc
index 8854717..b80d8f1 100644
--- a/src/core/cmd.src/cmdutil.cc
+++ b/src/core/cmd.src/cmdutil.cc
@@ -58,28 +58,13 @@ proc_escape(char *string, int *len)
 	  *(s+1))
 	{
 	  s++;
-	  if (*s == '0')
+	  if (*s >= '0' && *s <= '7')
 	    {
-	      if (!isdigit(*(s+1)))
-		{
-		  *p++= '\0';
-		  s++;
-		}
-	      else
-		{
-		  char *octal, *chk, data;
-		  int i, j;
-		  i= strspn(s, "01234567");
-		  octal= (char *)malloc(i+1);
-		  j= 0;
-		  while (*s &&
-			 (j < i))
-		    octal[j++]= *s++;
-		  octal[j]= '\0';
-		  data= strtol(octal, &chk, 8);
-		  if (!chk || !(*chk))
-		    *p++= data;
-		}
+	      // one, two or three octal digits
+	      int i, data= 0;
+	      for (i= 0; (i < 3) && (*s >= '0') && (*s <= '7'); i++)
+		data= data*8 + (*s++ - '0');
+	      *p++= data;
 	    }
 	  else
 	    if ((spec_c= strchr(spec_chars, *s)) != NULL)
-- 
2.43.0


From d6d0cf83f4ea4409c6919cb2617b472094101a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 104/197] fix: overrun of unterminated strings and expansions
 in the command line

---
 src/core/cmd.src/command.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/cmd.src/command.cc b/src/core/cmd.src/command.cc
index e37f092..e924236 100644
--- a/src/core/cmd.src/command.cc
+++ b/src/core/cmd.src/command.cc
@@ -419,10 +419,10 @@ cl_cmdline::token_length(char *start)
       for (i=1; start[i]!=0 && start[i]!='\"'; i++)
 	{
 	  c= start[i];
-	  if (c == '\\')
-	    i+= 2;
+	  if (c == '\\' && start[i+1])
+	    i++;
 	}
-      return i+1;
+      return start[i]?(i+1):i;
     }
   else
     return strcspn(start, " \t\v\r,;");
@@ -444,9 +444,9 @@ cl_cmdline::get_token(char *start)
 	  c= start[i];
 	  if (c == '\\')
 	    {
-	      i++;
-	      if (start[i])
+	      if (start[i+1])
 		{
+		  i++;
 		  switch (start[i])
 		    {
 		    case 'a': cs+= '\a'; break;
@@ -492,12 +492,14 @@ cl_cmdline::expand_commands(chars *params)
     {
       if (s[i] == '\\')
 	{
-	  i++;
+	  if (s[i+1])
+	    i++;
 	}
       else if (s[i] == '$')
 	{
-	  if (s[++i] == '(')
+	  if (s[i+1] == '(')
 	    {
+	      i++;
 	      if ((level == 0) && s[i+1])
 		start= ++i;
 	      level++;
-- 
2.43.0


From 8fb1b0ca6cd9c6bfd78048247ec1d961cde8ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 105/197] fix: length of some Rabbit 4000 instructions in the
 disassembler

---
 src/sims/rxk.src/gpddm4.cc | 16 ++++++++--------
 src/sims/rxk.src/gpedm4.cc |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sims/rxk.src/gpddm4.cc b/src/sims/rxk.src/gpddm4.cc
index bdc5426..4c0e1fd 100644
--- a/src/sims/rxk.src/gpddm4.cc
+++ b/src/sims/rxk.src/gpddm4.cc
@@ -82,14 +82,14 @@ struct dis_entry disass_pddm4[]=
     { 0x1d, 0xff, ' ', 2, "LD (PX+HL),%3" },
     { 0x2d, 0xff, ' ', 2, "LD (PY+HL),%3" },
     { 0x3d, 0xff, ' ', 2, "LD (PZ+HL),%3" },
-    { 0x0e, 0xff, ' ', 2, "LD %3,(PW%d)" },
-    { 0x1e, 0xff, ' ', 2, "LD %3,(PX%d)" },
-    { 0x2e, 0xff, ' ', 2, "LD %3,(PY%d)" },
-    { 0x3e, 0xff, ' ', 2, "LD %3,(PZ%d)" },
-    { 0x0f, 0xff, ' ', 2, "LD (PW%d),%3" },
-    { 0x1f, 0xff, ' ', 2, "LD (PX%d),%3" },
-    { 0x2f, 0xff, ' ', 2, "LD (PY%d),%3" },
-    { 0x3f, 0xff, ' ', 2, "LD (PZ%d),%3" },
+    { 0x0e, 0xff, ' ', 3, "LD %3,(PW%d)" },
+    { 0x1e, 0xff, ' ', 3, "LD %3,(PX%d)" },
+    { 0x2e, 0xff, ' ', 3, "LD %3,(PY%d)" },
+    { 0x3e, 0xff, ' ', 3, "LD %3,(PZ%d)" },
+    { 0x0f, 0xff, ' ', 3, "LD (PW%d),%3" },
+    { 0x1f, 0xff, ' ', 3, "LD (PX%d),%3" },
+    { 0x2f, 0xff, ' ', 3, "LD (PY%d),%3" },
+    { 0x3f, 0xff, ' ', 3, "LD (PZ%d),%3" },
     { 0x8c, 0xff, ' ', 2, "LDL PW,%I" },
     { 0x9c, 0xff, ' ', 2, "LDL PX,%I" },
     { 0xac, 0xff, ' ', 2, "LDL PY,%I" },
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index 6b21ef4..96658a2 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -82,10 +82,10 @@ struct dis_entry disass_pedm4[]=
     { 0x14, 0xff, ' ', 3, "LD PX,(SP+%b)" },
     { 0x24, 0xff, ' ', 3, "LD PY,(SP+%b)" },
     { 0x34, 0xff, ' ', 3, "LD PZ,(SP+%b)" },
-    { 0x05, 0xff, ' ', 2, "LD (SP+%b),PW" },
-    { 0x15, 0xff, ' ', 2, "LD (SP+%b),PX" },
-    { 0x25, 0xff, ' ', 2, "LD (SP+%b),PY" },
-    { 0x35, 0xff, ' ', 2, "LD (SP+%b),PZ" },
+    { 0x05, 0xff, ' ', 3, "LD (SP+%b),PW" },
+    { 0x15, 0xff, ' ', 3, "LD (SP+%b),PX" },
+    { 0x25, 0xff, ' ', 3, "LD (SP+%b),PY" },
+    { 0x35, 0xff, ' ', 3, "LD (SP+%b),PZ" },
     { 0x06, 0xff, ' ', 2, "LD HL,(PW+BC)" },
     { 0x16, 0xff, ' ', 2, "LD HL,(PX+BC)" },
     { 0x26, 0xff, ' ', 2, "LD HL,(PY+BC)" },
-- 
2.43.0


From 226c172b05a900c7120da4c9b4a02a6391dabd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 106/197] fix: reading files that are empty or have no end of
 line at the end

---
 src/core/utils.src/fio.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..76106cd 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -921,7 +921,8 @@ int
 cl_f::get_c(void)
 {
   int c;
-  while (!check_dev())
+  while (!check_dev() &&
+	 !eof())
     ;
   int i= read_dev(&c, 1);
   if (i > 0)
@@ -934,28 +935,30 @@ chars
 cl_f::get_s(void)
 {
   chars s= "";
-  char c;
+  int c;
 
-  if (eof())
-    return s;
-  c= get_c();
-  while ((c == '\n') ||
-	 (c == '\r'))
+  do
     {
       if (eof())
 	return s;
       c= get_c();
+      if ((c == 0) &&
+	  eof())
+	return s;
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
-	 (c != '\n') &&
+  while ((c == '\n') ||
+	 (c == '\r'));
+  // last line of the file can be unterminated
+  while ((c != '\n') &&
 	 (c != '\r'))
     {
-      s+= c;
+      s+= (char)c;
+      if (eof())
+	return s;
       c= get_c();
+      if ((c == 0) &&
+	  eof())
+	return s;
     }
   return s;
 }
-- 
2.43.0


From a7ed9f016c8bbfccb5127580a4f09d301454720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 107/197] fix: loading and checking of files in address spaces
 other than rom and in banks

---
 src/core/sim.src/mem.cc |  2 +-
 src/core/sim.src/uc.cc  | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 848d9e8..1fd7bcd 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2854,7 +2854,7 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
     return true;
   if ((b < 0) || (b >= nuof_banks) ||
       (banks[b] == NULL))
-    return true;
+    return false; // no such bank
   s= as_end - as_begin + 1;
   for (i= 0; i < s; i++)
     {
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 711281b..63eeeda 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1523,27 +1523,39 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	((class cl_address_space *)mem)->download(addr, val);
       return eq;
     }
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
 	{
 	  return true;
 	}
-      d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (!d->switch_to(bank, NULL))
+	{
+	  return true;
+	}
+      if (check)
+	{
+	  v= as->read(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From 2898809fc769dc3120885da9d5d49a352c7ab1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 108/197] fix: download command used uninitialized memory
 pointer

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 63eeeda..3deb93c 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -543,6 +543,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   offset_name= "0";
   offset= 0;
   uc= auc;
+  mem= uc?uc->rom:NULL;
   use_min= 0;
   use_max= 0xffffffff;
 }
-- 
2.43.0


From 4e0554fa6ea330266edd43d2a08419221c1466b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 109/197] fix: intel hex loader for memories of more than 8
 bits, segment records and base addresses

---
 src/core/sim.src/uc.cc | 97 ++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 56 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 3deb93c..3d543a6 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1622,8 +1622,9 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   uchar chk ;     // check
   int  i;
   bool ok;
-  int get_low= 0;
-  uchar lows[4]= { 0, 0, 0, 0 };
+  t_addr a, wa= 0; // address of a byte, of the word under collection
+  t_mem word= 0;
+  bool pending= false;
   class cl_memory *mem= is->get_mem();
   if (!mem)
     {
@@ -1632,6 +1633,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
       return(-1);
     }
 
+  int bpw= (mem->width <= 8)?1:((mem->width <= 16)?2:((mem->width <= 24)?3:4));
   //memset(inst_map, '\0', sizeof(inst_map));
   ok= true;
   while (ok &&
@@ -1666,56 +1668,35 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
-		      if (mem->width > 8)
-			{
-			  if (mem->width <= 16)
-			    addr/= 2;
-			  else if (mem->width <= 24)
-			    addr/= 3;
-			  else if (mem->width <= 32)
-			    addr/= 4;
-			}
+		      // records contain byte addresses
 		      for (i= 0; i < dnum; i++)
 			{
-			  if (mem->width <= 8)
+			  a= base+addr+i;
+			  if (bpw == 1)
 			    {
-			      set_rom(is, base+addr, rec[i], check);
-			      addr++;
+			      set_rom(is, a, rec[i], check);
 			      written++;
+			      continue;
 			    }
-			  else if (mem->width <= 16)
+			  if (pending &&
+			      (wa != a/bpw))
 			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
-				  written++;
-				  get_low= 0;
-				  break;
-				}
+			      set_rom(is, wa, word, check);
+			      written++;
+			      pending= false;
 			    }
-			  else if (mem->width <= 32)
+			  if (!pending)
 			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i]; get_low++; break;
-				case 2: lows[2]= rec[i]; get_low++; break;
-				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
-					  (lows[3]<<24)+
-					  (lows[2]<<16)+
-					  (lows[1]<<8)+
-					  (lows[0]),
-					  check);
-				  get_low= 0;
-				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
-				  written++;
-				  break;
-				}
+			      wa= a/bpw;
+			      word= 0;
+			      pending= true;
+			    }
+			  word|= ((t_mem)rec[i]) << (8*(a%bpw));
+			  if (a%bpw == (t_addr)bpw-1)
+			    {
+			      set_rom(is, wa, word, check);
+			      written++;
+			      pending= false;
 			    }
 			}
 		    }
@@ -1723,7 +1704,14 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		    {
 		      if (dnum >= 2)
 			{
-			  base= (rec[0]*256+rec[1]) << 16;
+			  base= ((uint)(rec[0]*256+rec[1])) << 16;
+			}
+		    }
+		  else if (rtyp == 2)
+		    {
+		      if (dnum >= 2)
+			{
+			  base= (rec[0]*256+rec[1]) << 4;
 			}
 		    }
 		  else
@@ -1732,23 +1720,20 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			      rtyp, rtyp);
 		}
 	      else
-		fprintf(stderr, "Checksum error (%x instead of %x) in "
-			"record %ld.\n", chk, sum, recnum);
+		{
+		  fprintf(stderr, "Checksum error (%x instead of %x) in "
+			  "record %ld.\n", chk, sum, recnum);
+		  rtyp= 0;
+		}
 	    }
 	  else
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
+  if (pending)
     {
-      for (i= get_low; i<4; i++)
-	lows[i]= 0;
-      set_rom(is, addr,
-	      (lows[3]<<24)+
-	      (lows[2]<<16)+
-	      (lows[1]<<8)+
-	      (lows[0]),
-	      check);
+      set_rom(is, wa, word, check);
+      written++;
     }
   
   return(written);
-- 
2.43.0


From c9b4e29813413592fea563ba5da482f9b8c5c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 110/197] fix: addresses of words in S records, overrun in
 short records

---
 src/core/sim.src/uc.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 3d543a6..35b690c 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2099,8 +2099,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
@@ -2115,7 +2115,7 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 16)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
@@ -2123,8 +2123,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 24)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
@@ -2132,9 +2132,9 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 32)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  d3= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d3= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
@@ -2172,6 +2172,10 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 	}
       if (b!=cnt)
 	continue;
+      if (((s[1] == '1') && (cnt < 3)) ||
+	  ((s[1] == '2') && (cnt < 4)) ||
+	  ((s[1] == '3') && (cnt < 5)))
+	continue;
       int chk= h2(s, 2+cnt*2);
       sum&= 0xff;
       sum^= 0xff;
-- 
2.43.0


From 3a57b580ec09198708f390eb3ea4e989c6e8cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 111/197] fix: offset of the data in OMF content records,
 overrun in short ones

---
 src/core/sim.src/uc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 35b690c..587c8ba 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -321,7 +321,7 @@ cl_omf_rec::pick_str(int i)
   l= rec[i];
   j= 0;
   while (l &&
-	 (i < len))
+	 (i+1+j < len))
     {
       s+= rec[i+1+j];
       l--;
@@ -356,8 +356,10 @@ cl_omf_rec::read(cl_f *f)
   h= c;
   if (f->eof())
     return false;
+  if (h*256+l < 1)
+    return false;
   len= h*256+l-1;
-  rec= (u8_t*)malloc(len);
+  rec= (u8_t*)malloc(len+1);
   for (i= 0; i < len; i++)
     {
       rec[i]= g(f);
@@ -1753,7 +1755,7 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From 24b0172d2d22cf463a36105dcbf2cb737357b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 112/197] fix: crash when memory of an input file on the
 command line does not exist

---
 src/core/sim.src/uc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 587c8ba..0200ad1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2273,8 +2273,11 @@ cl_uc::read_file(chars nam, class cl_console_base *con, bool check)
   is.init();
   if (is.get_mem() == NULL)
     {
-      con->dd_printf("Memory %s can not be found\n",
-		     is.get_mem_name()->cstr());
+      if (con)
+	con->dd_printf("Memory %s can not be found\n",
+		       is.get_mem_name()->cstr());
+      else
+	printf("Memory %s can not be found\n", is.get_mem_name()->cstr());
       return 0;
     }
   cl_f *f= find_loadable_file(*is.get_file_name());
-- 
2.43.0


From dcf9bf13147d0339492f75b3880f338dd845dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 113/197] fix: hex dump of memories above 64k and of words

---
 src/core/sim.src/mem.cc | 56 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 1fd7bcd..3da7cce 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -644,39 +644,51 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
     return dump_finished= ads->stop;
   if (bpl > 32)
     bpl= 32;
-  t_addr a= ads->start;
-  sum= 0;
+  // records contain bytes of the words, and address of bytes
+  int bpw= (width <= 8)?1:((width <= 16)?2:((width <= 24)?3:4));
+  t_addr a= ads->start, upper= 0;
   start_line= a;
   while (a <= ads->stop)
     {
       a++;
       if (((a % bpl) == 0) ||
-	  (a > ads->stop))
+	  (a > ads->stop) ||
+	  (a == 0))
 	{
 	  // dump line
-	  if ((a - start_line) > 0)
+	  while (start_line != a)
 	    {
-	      unsigned char c;	      
-	      sum= 0;
-	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, start_line);
-	      sum+= c;
-	      c= int(start_line >> 8) & 0xff;
-	      sum+= c;
-	      c= start_line & 0xff;
-	      sum+= c;
-	      unsigned int i;
-	      for (i= 0; i < a-start_line; i++)
+	      // a record can not pass 64k border
+	      t_addr ba= start_line*bpw, n= 0;
+	      unsigned char data[32*4];
+	      if ((ba >> 16) != upper)
+		{
+		  upper= ba >> 16;
+		  sum= 2 + 4 + (upper & 0xff) + ((upper >> 8) & 0xff);
+		  f->prntf(":02000004%04X%02X\r\n", AU(upper & 0xffff),
+			   (0x100 - sum) & 0xff);
+		}
+	      while ((start_line != a) &&
+		     ((((ba + n) >> 16) == upper)))
 		{
-		  c= read(start_line + i);
-		  f->prntf("%02X", c);
-		  sum+= c;
+		  t_mem d= read(start_line);
+		  int i;
+		  for (i= 0; i < bpw; i++)
+		    data[n++]= (d >> (i*8)) & 0xff;
+		  start_line++;
 		}
-	      sum&= 0xff;
-	      unsigned char chk= 0x100 - sum;
-	      f->prntf("%02X\r\n", chk);
+	      sum= n + ((ba >> 8) & 0xff) + (ba & 0xff);
+	      f->prntf(":%02X%04X00", AU(n), AU(ba & 0xffff));
+	      t_addr i;
+	      for (i= 0; i < n; i++)
+		{
+		  f->prntf("%02X", data[i]);
+		  sum+= data[i];
+		}
+	      f->prntf("%02X\r\n", (0x100 - sum) & 0xff);
 	    }
-	  start_line= a;
+	  if (a == 0)
+	    break;
 	}
     }
   f->write_str(":00000001FF\r\n");
-- 
2.43.0


From fae6d4e9076cf5766812c82941e48a1c7b18b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 114/197] fix: last line of asc and p2h files was skipped

---
 src/core/sim.src/uc.cc | 84 +++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 58 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 0200ad1..dd88b7d 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1767,49 +1767,24 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 long
 cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
-  int c;
   chars line= chars();
-  bool in;
   t_addr addr= 0;
   
-  in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if (in)
+      chars word= chars();
+      const char *s;
+      line= f->get_s();
+      // process
+      line.trim();
+      line.start_parse();
+      word= line.token(" ");
+      s= word.c_str();
+      if (isxdigit(*s))
 	{
-	  if ((c=='\n') || (c=='\r'))
-	    {
-	      in= false;
-	      {
-		chars word= chars();
-		const char *s;
-		// process
-		line.trim();
-		line.start_parse();
-		word= line.token(" ");
-		s= word.c_str();
-		if (isxdigit(*s))
-		  {
-		    t_mem d= chars(s).htoi();
-		    set_rom(is, addr, d, check);
-		    addr++;
-		  }
-		line= "";
-	      }
-	    }
-	  else
-	    line.append(c);
-	}
-      else // out
-	{
-	  if ((c=='\n') || (c=='\r'))
-	    ;
-	  else
-	    {
-	      in= true;
-	      line.append(c);
-	    }
+	  t_mem d= chars(s).htoi();
+	  set_rom(is, addr, d, check);
+	  addr++;
 	}
     }
   return addr;
@@ -1819,32 +1794,25 @@ long
 cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
 {
   chars line= chars();
-  int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if ((c=='\n') || (c=='\r'))
+      line= f->get_s();
+      line.trim();
+      line.start_parse();
+      chars w1= line.token(" \t");
+      chars w2= line.token(" \t");
+      chars w3= line.token(" \t");
+      if (w1.nempty() && w2.nempty() && w3.nempty())
 	{
-	  line.trim();
-	  line.start_parse();
-	  chars w1= line.token(" \t");
-	  chars w2= line.token(" \t");
-	  chars w3= line.token(" \t");
-	  if (w1.nempty() && w2.nempty() && w3.nempty())
+	  if ((w2 == "//C") || (w2 == "//I"))
 	    {
-	      if ((w2 == "//C") || (w2 == "//I"))
-		{
-		  t_mem v= w1.htoi();//strtol(w1.c_str(), 0, 16);
-		  t_addr a= w3.htoi();//strtol(w3.c_str(), 0, 16);
-		  set_rom(is, a, v, check);
-		  nr++;		  
-		}
+	      t_mem v= w1.htoi();//strtol(w1.c_str(), 0, 16);
+	      t_addr a= w3.htoi();//strtol(w3.c_str(), 0, 16);
+	      set_rom(is, a, v, check);
+	      nr++;		  
 	    }
-	  line= "";
 	}
-      else
-	line.append(c);
     }
   return nr;
 }
-- 
2.43.0


From 5b1fe937c07fc8a535731db4996d6f48f50aa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 115/197] fix: byte 0xff in input files was lost, crash on
 empty line of asc files

---
 src/core/sim.src/uc.cc    | 3 ++-
 src/core/utils.src/fio.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index dd88b7d..f513cc3 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1780,7 +1780,8 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
       line.start_parse();
       word= line.token(" ");
       s= word.c_str();
-      if (isxdigit(*s))
+      if (word.nempty() &&
+	  isxdigit(*s))
 	{
 	  t_mem d= chars(s).htoi();
 	  set_rom(is, addr, d, check);
diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 76106cd..3124758 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(c&0xff);
     }
 
   int l= strlen(line);
-- 
2.43.0


From 69b331c9f5f823b8cb3073d08725cbd8f7f017a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 116/197] fix: mos6502 forgets BRK request, R4000 clears LXPC
 on reset

---
 src/sims/mos6502.src/irq.cc  | 7 +++++++
 src/sims/mos6502.src/irqcl.h | 1 +
 src/sims/rxk.src/r4k.cc      | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/sims/mos6502.src/irq.cc b/src/sims/mos6502.src/irq.cc
index 8c8a06f..5082b9e 100644
--- a/src/sims/mos6502.src/irq.cc
+++ b/src/sims/mos6502.src/irq.cc
@@ -57,6 +57,13 @@ cl_irq_hw::init()
   return 0;
 }
 
+void
+cl_irq_hw::reset()
+{
+  // request of the BRK instruction is internal state of the CPU
+  cfg_set(m65_brk, 0);
+}
+
 void
 cl_irq_hw::print_info(class cl_console_base *con)
 {
diff --git a/src/sims/mos6502.src/irqcl.h b/src/sims/mos6502.src/irqcl.h
index c712f89..fa7b9a9 100644
--- a/src/sims/mos6502.src/irqcl.h
+++ b/src/sims/mos6502.src/irqcl.h
@@ -51,6 +51,7 @@ class cl_irq_hw: public cl_hw
   cl_irq_hw(class cl_uc *auc);
   virtual int init(void);
   virtual unsigned int cfg_size(void) { return m65_nr; }
+  virtual void reset(void);
   virtual void print_info(class cl_console_base *con);  
 };
 
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index b843cdc..008387c 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -147,6 +147,7 @@ cl_r4k::reset(void)
   mem->stackseg= 0;
   //ioi->set(0x1f, 0); // datasegh
   mem->dataseg= 0;
+  mem->set_lxpc(0);
   ioi->set(0x420, 0); // edmr
   cl_r3ka::reset();
   mode3k();  
-- 
2.43.0


From a00ba36580f696ddee8bb7659fe76008dc785de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 117/197] fix: 68xx forget SWI request on reset

---
 src/core/motorola.src/irq68.cc  | 7 +++++++
 src/core/motorola.src/irq68cl.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index f3035d1..402b897 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -50,6 +50,13 @@ cl_irq_hw::init()
   return 0;
 }
 
+void
+cl_irq_hw::reset()
+{
+  // request of the SWI instruction is internal state of the CPU
+  cfg_set(m68_swi, 0);
+}
+
 const char *
 cl_irq_hw::cfg_help(t_addr addr)
 {
diff --git a/src/core/motorola.src/irq68cl.h b/src/core/motorola.src/irq68cl.h
index b77d9f2..87eed06 100644
--- a/src/core/motorola.src/irq68cl.h
+++ b/src/core/motorola.src/irq68cl.h
@@ -47,6 +47,7 @@ class cl_irq_hw: public cl_hw
   cl_irq_hw(class cl_uc *auc);
   virtual int init(void);
   virtual unsigned int cfg_size(void) { return m68_nr; }
+  virtual void reset(void);
   virtual const char *cfg_help(t_addr addr);
   virtual void print_info(class cl_console_base *con);  
 };
-- 
2.43.0


From f43613f5b02d16854dad3d1d6d05c357c0666a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 118/197] fix: reset of 68xx masks interrupts and ends waiting

---
 src/core/motorola.src/m6800.cc  | 3 ++-
 src/sims/m68hc08.src/m68hc08.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 0290c90..1c16641 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,8 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  cCC.W(0xc0 | flagI); // interrupts are masked
+  wai= false;
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index f2f6860..74c7b04 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -99,7 +99,7 @@ cl_hc08::reset(void)
   regs.A = 0;
   regs.X = 0;
   regs.H = 0;
-  regs.P = 0x60;
+  regs.P = 0x60 | BIT_I; // interrupts are masked
   regs.VECTOR = 1;
 
   PC= rom->get(0xfffe)*256 + rom->get(0xffff);
-- 
2.43.0


From 97fa77384a4ed36536f747bf3d0f9005ba05646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 119/197] fix: half carry of ADC on 68xx counts the carry in

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 69cb8ba..5ac4e53 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From 68dd8290e6e290d18d2dc34c930fb488948feb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 120/197] fix: loads and stores of 68xx keep C and clear Z

---
 src/core/motorola.src/imove68.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..83f6d96 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,9 +73,9 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write(u16_t(a+1), op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
-- 
2.43.0


From 1fa0a4227ad180ccf026e08bfc9d51566111d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 121/197] fix: indexed JMP of 68HC11 uses IY when prefixed

---
 src/core/motorola.src/ibranch68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f850cdf..4a8bddc 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -65,7 +65,7 @@ int
 cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
-  a+= rX;
+  a+= cI->get();
   PC= a&0xffff;
   return resGO;
 }
-- 
2.43.0


From 9427600d0f14d39b57d5d62087e03265e2910067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 122/197] fix: flags of 16 bit operations and CPX on 6801

---
 src/core/motorola.src/m6801.cc | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index d154949..613aa95 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -129,7 +129,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -150,7 +150,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -168,20 +168,13 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  u16_t a= rX, b= op, r;
+  r= a-b;
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
-  if (op > x)
-    f|= flagC;
+  if (!r) f|= flagZ;
+  if (( (a&~b&~r)|(~a&b&r) ) & 0x8000) f|= flagV;
+  if (b > a) f|= flagC;
   cCC.W(f);
   return resGO;
 }
@@ -211,7 +204,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -221,7 +214,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write(u16_t(rSP-1), rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -231,7 +224,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read(u16_t(rSP+1)) * 256 + rom->read(u16_t(rSP+2));
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From 13661f067d2f43ad498a10eec9c266233625d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 123/197] fix: 68HC11 stacks IY, flags of LDD/STD/BSET/CPX,
 ABY, CPX/CPY codes, ticks

---
 src/core/motorola.src/m68hc11.cc  | 62 ++++++++++++++++++++++++-------
 src/core/motorola.src/m68hc11cl.h |  4 ++
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index f626b35..47a21da 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
@@ -429,7 +429,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -445,7 +445,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
@@ -457,6 +457,42 @@ CL11::PAGECD(t_mem code)
  * OTHER instructions
  */
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(9);
+}
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(9);
+}
+
 int
 CL11::TEST(t_mem code)
 {
@@ -480,7 +516,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -492,7 +528,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -599,7 +635,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
@@ -721,7 +757,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..7f6a75a 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -84,6 +84,9 @@ public:
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
 
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
+
   // MOVE
   virtual int ldd16(u16_t op);
   virtual int std16(t_addr addr);
@@ -94,6 +97,7 @@ public:
   virtual int bset(class cl_memory_cell &dest);
   virtual int bclr(class cl_memory_cell &dest);
   virtual int cp16(class cl_cell16 &dest, u16_t op);
+  virtual int cpx(u16_t op) { return cp16(cIX, op); }
   
   // BRANCH
   virtual int brset(u8_t op);
-- 
2.43.0


From 8772934e1d94808b6b6c92f5c9a6424e48db797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 124/197] fix: SWI of 68xx is never masked, RTI leaves the
 interrupt level

---
 src/core/motorola.src/inst68.cc | 14 ++++++++++++--
 src/core/motorola.src/m6800.cc  |  7 ++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/inst68.cc b/src/core/motorola.src/inst68.cc
index dd1732b..3afc564 100644
--- a/src/core/motorola.src/inst68.cc
+++ b/src/core/motorola.src/inst68.cc
@@ -36,6 +36,15 @@ int
 cl_m6800::RTI(t_mem code)
 {
   pull_regs(true);
+  if (it_levels->top())
+    {
+      class it_level *il= (class it_level *)(it_levels->top());
+      if (il->level >= 0)
+	{
+	  it_levels->pop();
+	  delete il;
+	}
+    }
   return resGO;
 }
 
@@ -51,8 +60,9 @@ cl_m6800::WAI(t_mem code)
 int
 cl_m6800::SWI(t_mem code)
 {
-  src_swi->request();
-  return resGO;
+  // neither masked, nor prioritized
+  return accept_it(new it_level(priority_of(src_swi->nuof),
+				src_swi->addr, PC, src_swi));
 }
 
 
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 1c16641..57969f9 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -465,7 +465,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
@@ -523,7 +523,8 @@ cl_m6800::accept_it(class it_level *il)
   class cl_it_src *is= il->source;
 
   if (!wai)
-      push_regs(false);
+    // the instruction has its own ticks
+    push_regs(is == src_swi);
   wai= false;
   
   if ((is == src_irq) ||
@@ -557,7 +558,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 9ed18df9f637d9d537ae6e244a1da6cd45d4f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 125/197] fix: effective address of 68HC08 indexed stores wraps
 at 64k

---
 src/sims/m68hc08.src/inst.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 36daa2a..5f8ad6d 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -75,14 +75,14 @@ cl_hc08::fetchea(t_mem code, bool prefix)
     case 0xe:
       tick(1);
       if (!prefix)
-        return ((unsigned char)fetch())+((regs.H << 8) | regs.X); // IX1
+        return (((unsigned char)fetch())+((regs.H << 8) | regs.X)) & 0xffff; // IX1
       else
-        return ((unsigned char)fetch())+regs.SP; // SP1
+        return (((unsigned char)fetch())+regs.SP) & 0xffff; // SP1
     case 0xd:
       if (!prefix)
-        return fetch2()+((regs.H << 8) | regs.X); // IX2
+        return (fetch2()+((regs.H << 8) | regs.X)) & 0xffff; // IX2
       else
-        return fetch2()+regs.SP; // SP2
+        return (fetch2()+regs.SP) & 0xffff; // SP2
     case 0xc:
       return fetch2();
     default:
@@ -1198,7 +1198,7 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
   }
   else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
   {
-    ea = regs.SP + fetch();
+    ea = (regs.SP + fetch()) & 0xffff;
     tick(1);
   }
   else
-- 
2.43.0


From 2e6edc5fecf64aaca597d340fb7dd3ef23c387f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 126/197] fix: DBNZ of 68HC08 does not change flags

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 5f8ad6d..11c8a45 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From 72b2951f6554a7cd088c31aadf2f0fea7c612041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 127/197] fix: DAA of 68HC08 adjusts A

---
 src/sims/m68hc08.src/inst.cc | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 11c8a45..1e5b466 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -893,26 +893,19 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
+  uchar lsn, msn, corr= 0;
 
   lsn = regs.A & 0xf;
   msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
-
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
-    FLAG_SET (BIT_C);
-  }
+  if ((regs.P & BIT_H) || (lsn > 9))
+    corr|= 0x06;
+  if ((regs.P & BIT_C) || (msn > 9) || ((msn > 8) && (lsn > 9)))
+    {
+      corr|= 0x60;
+      FLAG_SET (BIT_C);
+    }
+  regs.A+= corr;
+  FLAG_NZ (regs.A);
 
   return(resGO);
 }
-- 
2.43.0


From 03ab3667206871fde85d2174f5a19e4ae523150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 128/197] fix: SWI of 68HC08 masks interrupts

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 1e5b466..ed48105 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1333,7 +1333,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From 53de8e2fa14b74f175e3c459e284a7960bb7d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 129/197] fix: 9S08 executes the instructions of HCS08

---
 src/sims/m68hc08.src/inst.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index ed48105..f7b51e1 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1182,12 +1182,12 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
     ea = fetch();
     tick(1);
   }
-  else if ((code == 0x96) && (type->type == CPU_HCS08))
+  else if ((code == 0x96) && (type->type & (CPU_HCS08|CPU_9S08)))
   {
     ea = fetch2();
     tick(2);
   }
-  else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
+  else if (prefix && (code == 0xff) && (type->type & (CPU_HCS08|CPU_9S08)))
   {
     ea = (regs.SP + fetch()) & 0xffff;
     tick(1);
@@ -1225,7 +1225,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if ((code == 0x32) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x32) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1233,7 +1233,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xae) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xae) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = (regs.H << 8) | regs.X;
     tick(1);
     regs.H = get1(ea);
@@ -1241,7 +1241,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xbe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xbe) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((regs.H << 8) | regs.X) + fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1249,7 +1249,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xce) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xce) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((regs.H << 8) | regs.X) + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1257,7 +1257,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xfe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xfe) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = regs.SP + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1294,14 +1294,14 @@ cl_hc08::inst_cphx(t_mem code, bool prefix)
     tick(2);
     tick(1);
   }
-  else if ((code == 0x3e) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x3e) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = fetch2();
     tick(2);
     operand = (get1(ea) << 8) | get1(ea+1);
     tick(2);
     tick(1);
   }
-  else if (prefix && (code == 0xf3) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xf3) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((unsigned char)fetch())+regs.SP;
     tick(1);
     operand = (get1(ea) << 8) | get1(ea+1);
-- 
2.43.0


From 9e9137ac768184521e0557f50284344b6709c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 130/197] fix: initialize edge detectors of PIA

---
 src/core/motorola.src/pia.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index e015490..5674e0e 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -41,12 +41,14 @@ cl_pia::cl_pia(class cl_uc *auc, int aid):
   cl_hw(auc, HW_PORT, aid, "pia")
 {
   base= 0xc010;
+  prev_ca1= prev_ca2= prev_cb1= prev_cb2= 0;
 }
 
 cl_pia::cl_pia(class cl_uc *auc, int aid, t_addr the_addr):
   cl_hw(auc, HW_PORT, aid, "pia")
 {
   base= the_addr;
+  prev_ca1= prev_ca2= prev_cb1= prev_cb2= 0;
 }
 
 int
-- 
2.43.0


From aae4eb4a1488e223cb94a7db427d35cee0057b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 131/197] fix: control register B of PIA is at offset 3

---
 src/core/motorola.src/pia.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index 5674e0e..fec2594 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -65,7 +65,7 @@ cl_pia::init(void)
   ddra= cfg_cell(cfg_ddra);
   ora = cfg_cell(cfg_ora);
   ina = cfg_cell(cfg_ina);
-  crb = rs[2];
+  crb = rs[3];
   ddrb= cfg_cell(cfg_ddrb);
   orb = cfg_cell(cfg_orb);
   inb = cfg_cell(cfg_inb);
@@ -328,7 +328,7 @@ cl_pia::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  int i;
 	  if (uc->rom->valid_address(*val))
 	    {
-	      for (i= 0; i < 3; i++)
+	      for (i= 0; i < 4; i++)
 		unregister_cell(rs[i]);
 	      base= *val;
 	      init();
@@ -344,8 +344,8 @@ cl_pia::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  ca|= (*val&4)?0x80:0;
 	  cra->set(ca);
 	  u8_t cb= crb->get() & 0x3f;
-	  ca|= (*val&2)?0x40:0;
-	  ca|= (*val&1)?0x80:0;
+	  cb|= (*val&2)?0x40:0;
+	  cb|= (*val&1)?0x80:0;
 	  crb->set(cb);
 	}
       else
@@ -607,7 +607,7 @@ cl_pia::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 			 AU(uc->rom->highest_valid_address()));
 	  return true;
 	}
-      for (i= 0; i < 3; i++)
+      for (i= 0; i < 4; i++)
 	unregister_cell(rs[i]);
       base= a;
       init();
-- 
2.43.0


From bfe66033319a19e6e5c0a0a3fb3f02b66787cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 132/197] fix: state of new simulator does not depend on heap
 garbage

---
 src/core/utils.src/pobj.cc  | 22 ++++++++++++++++++++++
 src/core/utils.src/pobjcl.h |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/utils.src/pobj.cc b/src/core/utils.src/pobj.cc
index 89dd9c9..f3515b3 100644
--- a/src/core/utils.src/pobj.cc
+++ b/src/core/utils.src/pobj.cc
@@ -28,6 +28,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #include <string.h>
 #include <strings.h>
 #include <unistd.h>
+#include <new>
 
 //#include "ddconfig.h"
 
@@ -47,6 +48,27 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 									    *
 */
 
+/*
+ * Members which are not set by constructors start as zero, so state of
+ * a new simulator does not depend on garbage found in the heap
+ */
+
+void *
+cl_base::operator new(size_t size)
+{
+  void *p= calloc(1, size);
+  if (p == NULL)
+    throw std::bad_alloc();
+  return p;
+}
+
+void
+cl_base::operator delete(void *p)
+{
+  free(p);
+}
+
+
 /*
  * Initializing the object
  */
diff --git a/src/core/utils.src/pobjcl.h b/src/core/utils.src/pobjcl.h
index 7bf5cda..dd40351 100644
--- a/src/core/utils.src/pobjcl.h
+++ b/src/core/utils.src/pobjcl.h
@@ -30,6 +30,8 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 
 #include "ddconfig.h"
 
+#include <stddef.h>
+
 #include "pobjt.h"
 
 #include "eventcl.h"
@@ -57,6 +59,8 @@ private:
   class cl_base *parent;
   class cl_list *children;
 public:
+  static void *operator new(size_t size);
+  static void operator delete(void *p);
   cl_base(void);
   virtual ~cl_base(void);
 
-- 
2.43.0


From b2252f952d5cf7f5ff317850b55a56402d8b7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 133/197] fix: memory chips of OISC, PicoBlaze, Padauk have the
 width of their memory

---
 src/sims/oisc.src/oisc.cc     | 2 +-
 src/sims/pblaze.src/pblaze.cc | 2 +-
 src/sims/pdk.src/pdk.cc       | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 3c0ecb5..6557911 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -112,7 +112,7 @@ cl_oisc::make_memories(void)
   as->init();
   address_spaces->add(as);
 
-  chip= new cl_chip8("rom_chip", 0x10000, 16, 0);
+  chip= new cl_chip16("rom_chip", 0x10000, 16, 0);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= rom,
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..bd29771 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -226,7 +226,7 @@ cl_pblaze::make_memories(void)
   ad->activate(0);
 
   // stack chip
-  chip = new cl_chip8("stack_chip", stack_size, 12);
+  chip = new cl_chip16("stack_chip", stack_size, 12);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as = address_space(MEM_STACK_ID), chip, 0, stack_size-1, 0);
diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 61486f7..bd74573 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -185,7 +185,7 @@ void cl_fpp::make_memories(void)
       as->decoders->add(ad);
       ad->activate(0);
       
-      chip = new cl_chip16("ram_chip", ram_storage, 8);
+      chip = new cl_chip8("ram_chip", ram_storage, 8);
       chip->init();
       memchips->add(chip);
       
@@ -194,7 +194,7 @@ void cl_fpp::make_memories(void)
       as->decoders->add(ad);
       ad->activate(0);
       
-      chip = new cl_chip16("io_chip", io_size, 8);
+      chip = new cl_chip8("io_chip", io_size, 8);
       chip->init();
       memchips->add(chip);
       
@@ -773,7 +773,7 @@ cl_pdk::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  chip = new cl_chip16("ram_chip", ram_size, 8);
+  chip = new cl_chip8("ram_chip", ram_size, 8);
   chip->init();
   memchips->add(chip);
   
@@ -782,7 +782,7 @@ cl_pdk::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
     
-  chip = new cl_chip16("io_chip", io_size, 8);
+  chip = new cl_chip8("io_chip", io_size, 8);
   chip->init();
   memchips->add(chip);
 
-- 
2.43.0


From 3019f9e38a14e950a066035091a6c1a294fc1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 134/197] fix: m6809 arithmetic sets E, F and I bits of CC

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 26bd980..3794468 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1009,7 +1009,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
   if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
@@ -1039,7 +1039,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From 6e760465644391f0fff25ca6a14600fce5f99b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 135/197] fix: m6809 SWI2 and SWI3 stop as invalid instructions

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3794468..9f4731a 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2179,6 +2179,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2298,6 +2299,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From bb7370ff42b54fb8eac91ad84262fec2f31542c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 136/197] fix: m6809 STY and STS are swapped

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 9f4731a..8147733 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2271,9 +2271,9 @@ cl_m6809::inst_page1(t_mem code)
       break;
     case 0xf: // STY, STS
       if (code & 0x40)
-	inst_st16(code, reg.Y, ea);
-      else
 	inst_st16(code, reg.S, ea);
+      else
+	inst_st16(code, reg.Y, ea);
       break;
     }
   
-- 
2.43.0


From 2fd8cdc69570445cea4f55bd2ecff04e68a3cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 137/197] fix: m6809 effective addresses wrap at 64k

---
 src/sims/m6809.src/m6809.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 8147733..97beaa0 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -928,17 +928,18 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
 	  ea= iv;
 	  break;
 	}
+      ea&= 0xffff;
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1139,7 +1140,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1226,7 +1227,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1267,7 +1268,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1309,7 +1310,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -2250,7 +2251,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2349,7 +2350,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From c160de4d871981815aafc50b90352b728fbdb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 138/197] fix: m6809 V flag of ASL, Z flag of CLR

---
 src/sims/m6809.src/m6809.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 97beaa0..02b2530 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1925,6 +1925,7 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
+  SET_O((op8 ^ (op8<<1)) & 0x80);
   
   op8<<= 1;
 
@@ -2034,7 +2035,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From eaf7b7607cb9dac05c5d637b0349f91edae077c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 139/197] fix: m6809 half carry of ADC

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 02b2530..80f6b9f 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1011,7 +1011,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   if (c) { ++res, ++o; }
   
   reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  if ((d & 0xf) + (op & 0xf) + (c?1:0) > 0xf) reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
-- 
2.43.0


From 8e27c347f53510265f98daf1c5f41de569f165d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 140/197] fix: m6809 FIRQ mask and stack frame, end of
 interrupt service

---
 src/sims/m6809.src/m6809.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 80f6b9f..ae012a7 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -171,6 +171,7 @@ cl_m6809::mk_hw_elements(void)
 			  "Fast interrupt request",
 			  0);
   src_firq->set_cid('f');
+  src_firq->set_ie_value(0);
   src_firq->init();
   it_sources->add(src_firq);
   
@@ -962,9 +963,9 @@ cl_m6809::push_regs(bool do_cc)
       rom->write(--reg.S, B);
       rom->write(--reg.S, A);
       tick(9);
-      if (do_cc)
-	rom->write(--reg.S, reg.CC), tick(1);
     }
+  if (do_cc)
+    rom->write(--reg.S, reg.CC), tick(1);
 }
 
 void
@@ -1748,6 +1749,14 @@ cl_m6809::inst_30(t_mem code)
     case 0x0b: // RTI
       pull_regs(true);
       tick(1);
+      {
+	class it_level *il= (class it_level *)(it_levels->top());
+	if (il && (il->level >= 0))
+	  {
+	    it_levels->pop();
+	    delete il;
+	  }
+      }
       break;
     case 0x0c: // CWAI
       op8= fetch();
-- 
2.43.0


From 78f03fa9042f84405ef6de989b61cdcd1d47c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 141/197] fix: m6809 NMI is never accepted

---
 src/sims/m6809.src/m6809.cc  | 15 +++++++++++----
 src/sims/m6809.src/m6809cl.h |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ae012a7..0973be5 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -86,13 +86,20 @@ cl_m6809::reset(void)
   cl_uc::reset();
 
   reg.DP= 0;
-  en_nmi= false;
+  set_en_nmi(false);
   cwai= false;
   reg.CC= flagI | flagF;
   PC= rom->read(0xfffe)*256 + rom->read(0xffff);
   tick(6);
 }
   
+void
+cl_m6809::set_en_nmi(bool en)
+{
+  en_nmi= en;
+  irq_hw->cfg_read(cpu_nmi_en);
+}
+
 void
 cl_m6809::set_PC(t_addr addr)
 {
@@ -144,7 +151,7 @@ cl_m6809::mk_hw_elements(void)
   add_hw(h= new cl_dreg(this, 0, "dreg"));
   h->init();
   
-  add_hw(h= new cl_m6809_irq(this));
+  add_hw(h= irq_hw= new cl_m6809_irq(this));
   h->init();
 
   src_irq= new cl_it_src(this,
@@ -1067,7 +1074,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     {
       *acc= r;
       if (acc == &reg.S)
-	en_nmi= true;
+	set_en_nmi(true);
     }
   
   return resGO;
@@ -1118,7 +1125,7 @@ cl_m6809::inst_ld16(t_mem code, u16_t *acc, u16_t op)
   SET_S(op&0x8000);
 
   if (acc == &reg.S)
-    en_nmi= true;
+    set_en_nmi(true);
   
   return resGO;
 }
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index a699000..abd862e 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -85,6 +85,7 @@ public:
   class cl_address_space *regs16;
   struct reg_t reg;
   bool en_nmi;
+  class cl_hw *irq_hw;
   bool cwai;
 public:
   class cl_address_space *rom;
@@ -97,6 +98,7 @@ public:
   virtual int init(void);
   virtual const char *id_string(void);
   virtual void reset(void);
+  virtual void set_en_nmi(bool en);
   virtual void set_PC(t_addr addr);
 
   virtual void mk_hw_elements(void);
-- 
2.43.0


From 795eefed6c0d02fbcf1e0bee474f23b13f652e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 142/197] fix: stm8 RET leaves the section, JRM and JRNM
 condition

---
 src/sims/stm8.src/inst.cc | 2 +-
 src/sims/stm8.src/stm8.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index 6bdf9f0..df2842e 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -818,7 +818,7 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
          taken = !(regs.CC & BIT_H);
        break;
       case 6: // JRNM (2C) / JRM (2D)
-        taken = !(regs.CC & (BIT_I1|BIT_I0));
+        taken = (regs.CC & (BIT_I1|BIT_I0)) != (BIT_I1|BIT_I0);
         break;
       case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
         taken = 0;
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index a21bc4b..6b98e9a 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1215,7 +1215,8 @@ cl_stm8::exec_inst(void)
                      return(resINV_INST);
                }
             case 0x80: // ret
-               pop2( PC);
+               pop2( tempi);
+               PC = (PC & 0xff0000) | tempi;
 	       tick(3);
                return(resGO);
             case 0x10: 
-- 
2.43.0


From be93d11c95decf8aeec471076d919cbdd56481e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 143/197] fix: st7 X and Y variables cover other registers too

---
 src/sims/st7.src/st7.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 33f8cf1..54e6848 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -164,17 +164,17 @@ cl_st7::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  regs8= new cl_address_space("regs8", 0, 2, 8);
+  regs8= new cl_address_space("regs8", 0, 4, 8);
   regs8->init();
   regs8->get_cell(0)->decode((t_mem*)&regs.A);
   regs8->get_cell(1)->decode((t_mem*)&regs.CC);
+  regs8->get_cell(2)->decode((t_mem*)&regs.X);
+  regs8->get_cell(3)->decode((t_mem*)&regs.Y);
 
-  regs16= new cl_address_space("regs16", 0, 3, 16);
+  regs16= new cl_address_space("regs16", 0, 1, 16);
   regs16->init();
 
-  regs16->get_cell(0)->decode((t_mem*)&regs.X);
-  regs16->get_cell(1)->decode((t_mem*)&regs.Y);
-  regs16->get_cell(2)->decode((t_mem*)&regs.SP);
+  regs16->get_cell(0)->decode((t_mem*)&regs.SP);
 
   address_spaces->add(regs8);
   address_spaces->add(regs16);
@@ -187,9 +187,9 @@ cl_st7::make_memories(void)
   vars->add("CC_I", regs8, 1, BITPOS_I, BITPOS_I, "Interrupt Mask");
   vars->add("CC_H", regs8, 1, BITPOS_H, BITPOS_H, "Half Carry");
 
-  vars->add("X",  regs16, 0, 15, 0, "X Index Register");
-  vars->add("Y",  regs16, 1, 15, 0, "Y Index Register");
-  vars->add("SP", regs16, 2, 15, 0, "Stack Pointer");
+  vars->add("X",  regs8, 2, 7, 0, "X Index Register");
+  vars->add("Y",  regs8, 3, 7, 0, "Y Index Register");
+  vars->add("SP", regs16, 0, 15, 0, "Stack Pointer");
 }
 
 
-- 
2.43.0


From a37c071aa1497c9bb92ad567e8c03f788356b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 144/197] fix: tlcs JP HL+A and ix+d leave the code space, CP
 HL,mem stores the difference

---
 src/sims/tlcs.src/tlcs.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index 779f87e..5e29577 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -832,7 +832,7 @@ cl_tlcs::exec_inst2_f3(u8_t c2)
     case 0x74: reg.hl= op_and_hl_a((reg.hl+reg.raf.a)); break; // AND HL,(HL+A)
     case 0x75: reg.hl= op_xor_hl_a((reg.hl+reg.raf.a)); break; // XOR HL,(HL+A)
     case 0x76: reg.hl= op_or_hl_a((reg.hl+reg.raf.a)); break; // OR HL,(HL+A)
-    case 0x77: reg.hl= op_sub_hl_a((reg.hl+reg.raf.a)); break; // CP HL,(HL+A)
+    case 0x77: op_sub_hl_a((reg.hl+reg.raf.a)); break; // CP HL,(HL+A)
     case 0x87: inst_inc(cell_hl_a()); break; // INC (HL+A)
     case 0x8f: inst_dec(cell_hl_a()); break; // DEC (HL+A)
     case 0x97: inst_inc16((reg.hl+reg.raf.a)); break; // INCW (HL+A)
@@ -932,7 +932,7 @@ cl_tlcs::exec_inst2_f7(u8_t c2)
     default:
       switch (c2 & 0xf0)
         {
-        case 0xc0: if (cc(c2)){ tick(2); PC= reg.hl|reg.raf.a;} break; // JP [cc,]HL+A
+        case 0xc0: if (cc(c2)){ tick(2); PC= (reg.hl+reg.raf.a) & 0xffff;} break; // JP [cc,]HL+A
         case 0xd0: if (cc(c2)) inst_call(PC-2, reg.hl+reg.raf.a); break; // CALL [cc,]HL+A
         default:
           switch (c2 & 0xf8)
@@ -1016,7 +1016,7 @@ cl_tlcs::exec_inst2_e0gg(u8_t c1, u8_t c2)
     case 0x74: reg.hl= op_and_hl_a(*aof_reg16_gg(c1)); break; // AND HL,(gg)
     case 0x75: reg.hl= op_xor_hl_a(*aof_reg16_gg(c1)); break; // XOR HL,(gg)
     case 0x76: reg.hl= op_or_hl_a(*aof_reg16_gg(c1)); break; // OR HL,(gg)
-    case 0x77: reg.hl= op_sub_hl_a(*aof_reg16_gg(c1)); break; // CP HL,(gg)
+    case 0x77: op_sub_hl_a(*aof_reg16_gg(c1)); break; // CP HL,(gg)
     case 0x87: inst_inc(gg); break; // INC (gg)
     case 0x8f: inst_dec(gg); break; // DEC (gg)
     case 0x97: inst_inc16gg(c1, *aof_reg16_gg(c1)); break; // INCW (gg)
@@ -1569,7 +1569,7 @@ cl_tlcs::exec_inst4_f4ix(u8_t c1, u8_t c2, u8_t c3)
     default:
       switch (c3 & 0xf0)
         {
-        case 0xc0: if (cc(c3)){ tick(2);  PC= *aof_reg16_ix(c1)+d;} break; // JP [cc,]ix+d
+        case 0xc0: if (cc(c3)){ tick(2);  PC= (*aof_reg16_ix(c1)+d) & 0xffff;} break; // JP [cc,]ix+d
         case 0xd0: if (cc(c3)) inst_call(PC-4, *aof_reg16_ix(c1)+d); break; // CALL [cc,]ix+d
         default:
           switch (c3 & 0xf8)
-- 
2.43.0


From bb5083027280c19931b72cfe0b18c820e3368212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 145/197] fix: avr immediate operands of CPI, SUBI, SBCI, ANDI
 and ORI

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From b30c8b989d2e382e70e8bccf73438d510a979f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 146/197] fix: avr SBC, SBCI, CPC, ROR and ADC carry in

---
 src/sims/avr.src/arith_inst.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..5611e59 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  t_mem c= (sreg&BIT_C)?1:0;
+  result= D+R+c;
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + c > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
@@ -751,7 +752,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From c22c5201d6bd2eb237967ae3bd1db1579c986d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 147/197] fix: avr NEG half carry, MUL zero flag, ADIW
 overflow, SBIW immediate is unsigned

---
 src/sims/avr.src/arith_inst.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 5611e59..7805fab 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -576,7 +576,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
@@ -845,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!(resl|resh))
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
@@ -881,7 +883,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
@@ -919,8 +921,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From 0e0022d4f4b08090358e594872c2d54f1b014115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 148/197] fix: avr LPM addresses bytes, SBIC and SBIS skip
 whole instructions

---
 src/sims/avr.src/jump_inst.cc | 8 ++++----
 src/sims/avr.src/move_inst.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..b539161 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -384,8 +384,8 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
+      int size= inst_length(PC);
+      fetch();
       while (size > 1)
 	{
 	  fetch();
@@ -414,8 +414,8 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
+      int size= inst_length(PC);
+      fetch();
       while (size > 1)
 	{
 	  fetch();
diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..cd7aa41 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From ad312d214889b2c4a2352fc67b28a3a6a915ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:58 +0000
Subject: [PATCH 149/197] fix: avr disassembly of ORI names the wrong register

---
 src/sims/avr.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..3e7d385 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -112,7 +112,7 @@ struct dis_entry disass_avr[]= {
   { 0x9c00, 0xfc00, ' ', 1, "mul %d,%r" },
   { 0x9401, 0xfe0f, ' ', 1, "neg %d" },
   { 0x2800, 0xfc00, ' ', 1, "or %d,%r" },
-  { 0x6000, 0xf000, ' ', 1, "ori %d,%K" },
+  { 0x6000, 0xf000, ' ', 1, "ori %D,%K" },
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-- 
2.43.0


From 52e593920abefc076de86cba7ecef4cc84bc1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 150/197] fix: s51 counters 0 and 1 count 1-to-0 transitions,
 and only while they run

---
 src/sims/s51.src/timer0.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..01e50ea 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -206,6 +206,9 @@ cl_timer0::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_timer0::tick(int cycles)
 {
+  if (!TR || (GATE && !INT))
+    // edges are not counted while the counter is stopped
+    T_edge= 0;
   switch (mode)
     {
     case 0: do_mode0(cycles); break;
@@ -395,8 +398,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 40aeeeba8d9688275cddb4d35a81af1f9b15c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 151/197] fix: s51 timer 2 counts every cycle and only enabled
 T2EX edges

---
 src/sims/s51.src/timer2.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..8307147 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -145,6 +145,9 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 int
 cl_timer2::tick(int cycles)
 { 
+  if (!EXEN2)
+    // T2EX is ignored
+    t2ex_edge= 0;
   switch (mode)
     {
     case T2MODE_BAUDRATE:
@@ -224,10 +227,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +259,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From 9152a6cb2ecd70e8eb534140258dfeb568d3a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 152/197] fix: s51 a write to IE or IP, or to a bit of them,
 delays the interrupt by one instruction

---
 src/sims/s51.src/interrupt.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 3fde583..43216df 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -56,10 +56,16 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
       cl_address_space *bas= uc->address_space("bits");
+      for (int i= 0; i < 8; i++)
+	{
+	  register_cell(bas, IE+i);
+	  register_cell(bas, IP+i);
+	}
       cell_it0= register_cell(bas, 0x88);
       cell_it1= register_cell(bas, 0x8a);
     }
@@ -99,7 +105,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From ff94526fdd72d6e18acccb51d5458fbf3718019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 153/197] fix: s51 level activated external interrupt request
 is withdrawn with the pin

---
 src/sims/s51.src/interrupt.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 43216df..825e2ac 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -117,10 +117,15 @@ cl_interrupt::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_interrupt::tick(int cycles)
 {
-  if (!bit_IT0 && !bit_INT0)
-    cell_tcon->set(cell_tcon->get() | bmIE0);
-  if (!bit_IT1 && !bit_INT1)
-    cell_tcon->set(cell_tcon->get() | bmIE1);
+  // level activated: the request follows the pin
+  if (!bit_IT0)
+    cell_tcon->set(bit_INT0?
+		   (cell_tcon->get() & ~bmIE0):
+		   (cell_tcon->get() | bmIE0));
+  if (!bit_IT1)
+    cell_tcon->set(bit_INT1?
+		   (cell_tcon->get() & ~bmIE1):
+		   (cell_tcon->get() | bmIE1));
   return(resGO);
 }
 
-- 
2.43.0


From c051e35eba83b2a6fbe057fb6fcd96c5a4513f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 154/197] fix: s51 simultaneous interrupt requests are served
 by priority, and the one which ends idle mode at once

---
 src/sims/s51.src/uc51.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 8bb4a0a..17e4904 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1826,6 +1826,9 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *src= NULL;
+  int src_pr= 0;
+  // highest priority first, polling order within the same priority
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1837,22 +1840,21 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
+	  if ((src == NULL) || (pr > src_pr))
 	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
+	      src= is;
+	      src_pr= pr;
 	    }
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
-  return(resGO);
+  if (src == NULL)
+    return(resGO);
+  src->clear();
+  sim->app->get_commander()->
+    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	  ticks->get_rtime(), ticks->get_ticks(), object_name(src), PC);
+  IL= new it_level(src_pr, src->addr, PC, src);
+  return(accept_it(IL));
 }
 
 int
-- 
2.43.0


From 425a125da757f14630525f56617821b36a8fa01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 155/197] fix: s51 time passes for the peripherals in idle mode
 and during the interrupt call

---
 src/sims/s51.src/uc51.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 17e4904..1e9da16 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1721,6 +1721,8 @@ cl_51core::do_inst(void)
     {
       // tick hw in idle state
       tick(1);
+      if (state == stIDLE)
+	tick_hw(1);
     }
 
   if ((result == resGO) && (PC == PCsave) && stop_selfjump)
@@ -1772,6 +1774,8 @@ cl_51core::do_emu(void)
     {
       // tick hw in idle state
       tick(1);
+      if (state == stIDLE)
+	tick_hw(1);
     }
 
   if (result == resGO)
@@ -1876,8 +1880,9 @@ cl_51core::accept_it(class it_level *il)
   state= stGO;
   sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
   it_levels->push(il);
-  tick(1);
+  tick(2);
   int res= inst_lcall(0, il->addr, true);
+  tick_hw(2);
   if (res != resGO)
     return(res);
   else
-- 
2.43.0


From ea814313f368fcf9e9b47c5e2f9535bd12e80a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 156/197] fix: s51 setting port pins is not a write of the port
 latch

---
 src/sims/s51.src/port.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..40f4cfb 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -178,7 +178,13 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
 	cfg->write(port_value, port_pins & nv);
     }
 
-  conf(cell, val);
+  if ((cell != cell_p) &&
+      !bas->is_owned(cell, &ba))
+    {
+      // not a write of the port latch
+      conf(cell, val);
+      return;
+    }
   
   ep.id= id;
   ep.addr= addr_p;
-- 
2.43.0


From 0bfdf6c36b066936463ca77e3ce9e5028dc54407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 157/197] fix: s51 timer 2 does not count edges seen while it
 was a timer

---
 src/sims/s51.src/timer2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 8307147..639ca16 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -148,6 +148,9 @@ cl_timer2::tick(int cycles)
   if (!EXEN2)
     // T2EX is ignored
     t2ex_edge= 0;
+  if (!C_T || !TR)
+    // edges are not counted
+    T_edge= 0;
   switch (mode)
     {
     case T2MODE_BAUDRATE:
-- 
2.43.0


From 73f3a60d0002e66aa75a34482d47b62d03bc6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 158/197] fix: s51 timer 2 down counting: survives a write of
 T2CON, toggles EXF2 and not a port bit, ends at zero reload value

---
 src/sims/s51.src/timer2.cc  | 56 +++++++++++++++++++++----------------
 src/sims/s51.src/timer2cl.h |  1 +
 src/sims/s51.src/uc52.cc    |  1 +
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 639ca16..66c40a2 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,8 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  cell_t2mod= 0;
+  bit_dcen= bit_t2oe= bit_t2ex= false;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -79,6 +81,24 @@ cl_timer2::added_to_uc(void)
   uc->it_sources->add(exf2it);
 }
 
+/* Modes which are selected by T2MOD */
+
+void
+cl_timer2::set_t2mod_mode(void)
+{
+  if ((features & t2_down) &&
+      bit_dcen &&
+      mode == T2MODE_RELOAD)
+    {
+      mode= T2MODE_DOWN;
+      if (exf2it)
+	exf2it->deactivate();
+    }
+  if ((features & t2_clock_out) &&
+      bit_t2oe)
+    mode= T2MODE_CLKOUT;
+}
+
 void
 cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 {
@@ -118,23 +138,15 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 	mode= T2MODE_BAUDRATE;
       else
 	mode= T2MODE_OFF;
+      set_t2mod_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      t_mem c= cell_tcon->get();
+      write(cell_tcon, &c);
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
@@ -307,13 +319,14 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
+	  u16_t cnt= cell_th->get()*256+cell_tl->get();
+	  if (cnt > (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	    {
+	      cnt--;
+	      cell_th->set(cnt >> 8);
+	      cell_tl->set(cnt & 0xff);
+	    }
 	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
@@ -322,13 +335,8 @@ cl_timer2::do_t2_down(int cycles)
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..3216e2c 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -71,6 +71,7 @@ public:
   //virtual void new_hw_added(class cl_hw *new_hw);
 
   //virtual ulong read(class cl_mem *mem, long addr);
+  virtual void set_t2mod_mode(void);
   virtual void write(class cl_memory_cell *cell, t_mem *val);
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


From 0e36cd0829601f02d10b5bd4eae80a865b0c9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 159/197] fix: s51 serial port: mode 2 bit time, timer 2 baud
 rate is per direction and only in modes 1 and 3

---
 src/sims/s51.src/serial.cc  | 48 ++++++++++++++++++++++++-------------
 src/sims/s51.src/serialcl.h |  3 ++-
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..e079bb3 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -84,7 +84,7 @@ cl_serial::init(void)
       t2_baud= d & (bmRCLK | bmTCLK);
     }
   else
-    t2_baud= false;
+    t2_baud= 0;
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -180,7 +180,7 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
+	  _divby= _bmSMOD?32:64;
 	  break;
 	case 3:
 	  _bits= 11;
@@ -203,7 +203,9 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  _divby= _bmSMOD?16:32;
 	  break;
 	  }*/
-      if (_mode)
+      if (_mode == 2)
+	_divby= _bmSMOD?32:64;
+      else if (_mode)
 	_divby= _bmSMOD?16:32;
     }
   else
@@ -263,22 +265,29 @@ cl_serial::serial_bit_cnt(void)
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
+  int tr_div= _divby, rec_div= _divby;
+  if (_mode & 1)
+    {
+      // overflows of timer 2 are divided by 16 always
+      if (t2_baud & bmTCLK)
+	tr_div= 16;
+      if (t2_baud & bmRCLK)
+	rec_div= 16;
+    }
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      while (*tr_src >= tr_div)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= tr_div;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      while (*rec_src >= rec_div)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= rec_div;
 	  s_rec_bit++;
 	}
     }
@@ -368,8 +377,10 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       if (where->id == 1)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if ((t2_baud & bmRCLK) == 0)
+	    s_rec_t1++;
+	  if ((t2_baud & bmTCLK) == 0)
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
@@ -377,15 +388,20 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 	    {
 	    case EV_T2_MODE_CHANGED:
 	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
 		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
+		int n= *d & (bmRCLK | bmTCLK);
+		if ((n ^ t2_baud) & bmRCLK)
+		  s_rec_t1= 0;
+		if ((n ^ t2_baud) & bmTCLK)
+		  s_tr_t1= 0;
+		t2_baud= n;
 		break;
 	      }
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_baud & bmRCLK)
+		s_rec_t1++;
+	      if (t2_baud & bmTCLK)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..40d2bcf 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,8 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2;
+  int t2_baud; // RCLK and TCLK bits of T2CON
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
-- 
2.43.0


From 8853eec421b1af0e9bd7f91edadc63c550cc4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:46 +0000
Subject: [PATCH 160/197] fix: s51 MDU computes without signed overflow, most
 negative dividend over -1 does not stop the simulator

---
 src/sims/s51.src/mdu.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index 8168f17..e356eef 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -39,7 +39,7 @@ cl_mdu::cl_mdu(class cl_uc *auc, int aid):
 void
 cl_mdu::op_32udiv16(void)
 {
-  u32_t dend= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  u32_t dend= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   u16_t dor= v[5]*256 + v[4];
   u32_t quo= 0;
   u16_t rem= 0;
@@ -94,7 +94,7 @@ cl_mdu::op_16umul16(void)
 {
   u16_t mand= v[1]*256 + v[0];
   u16_t mor= v[5]*256 + v[4];
-  u32_t pr= mand * mor;
+  u32_t pr= (u32_t)mand * mor;
   regs[0]->set(pr & 0xff);
   regs[1]->set((pr>>8) & 0xff);
   regs[2]->set((pr>>16) & 0xff);
@@ -112,7 +112,7 @@ cl_mdu::op_norm(void)
 {
   u32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (d == 0)
     set_steps(0);
   else if (d & 0x80000000)
@@ -138,7 +138,7 @@ cl_mdu::op_lshift(void)
 {
   u32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (dir_right())
     d<<= get_steps();
   else
@@ -513,7 +513,7 @@ cl_mdu88x::tick(int cycles)
 void
 cl_mdu88x::op_32sdiv16(void)
 {
-  i32_t dend= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  i32_t dend= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   i16_t dor= v[5]*256 + v[4];
   i32_t quo= 0;
   i16_t rem= 0;
@@ -521,8 +521,9 @@ cl_mdu88x::op_32sdiv16(void)
     set_ovr(true);
   else
     {
-      quo= dend / dor;
-      rem= dend % dor;
+      // remainder and quotient of the most negative dividend may not fit
+      quo= (i32_t)((i64_t)dend / dor);
+      rem= (i16_t)((i64_t)dend % dor);
       set_ovr(false);
       //printf("\nSIM %d/%d=%d,%d %x,%x\n", dend, dor, quo, rem, quo, rem);
     }
@@ -588,9 +589,9 @@ cl_mdu88x::op_ashift(void)
 {
   i32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (dir_right())
-    d<<= get_steps();
+    d= (u32_t)d << get_steps();
   else
     d>>= get_steps();
   regs[0]->set(d & 0xff);
-- 
2.43.0


From 15058c6505cbbdae84baffccbd566e3c7bad51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:46 +0000
Subject: [PATCH 161/197] fix: s51 517 MDU clears its overflow flag

---
 src/sims/s51.src/mdu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index e356eef..d038959 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -333,7 +333,7 @@ cl_mdu517::set_ovr(bool val)
   if (val)
     con->set(con->get() | 0x40);
   else
-    con->set(con->get() | 0x40);
+    con->set(con->get() & ~0x40);
 }
 
 void
-- 
2.43.0


From d5b9a9106efe465568a1749727b44f445b85bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:46 +0000
Subject: [PATCH 162/197] fix: t870c disassembler prints the address of a
 direct operand in its comment

---
 src/sims/tlcs.src/t870c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index 86f94e3..e9cac6b 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -444,7 +444,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      if (comment)
 		{
 		  u16_t a= aof_dstF(code32);
-		  comment->appendf("; [%04] %02x %02x",
+		  comment->appendf("; [%04x] %02x %02x",
 				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
-- 
2.43.0


From 6e9e8ee27809e6842a1a95b21fa41d9404dc0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 163/197] fix: peripherals get the cycles of interrupt calls
 and of waiting, 68HC12 ones not twice; timer deletion by number, value of new
 timers

---
 src/core/sim.src/uc.cc           | 25 ++++++++++++++++++++++++-
 src/core/sim.src/uccl.h          |  1 +
 src/sims/m68hc12.src/m68hc12.cc  | 22 ++++++++++++++--------
 src/sims/m68hc12.src/m68hc12cl.h |  2 +-
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f513cc3..6dfafae 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
@@ -3166,7 +3167,7 @@ cl_uc::del_counter(int nr)
 
   if (nr >= counters->count)
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
@@ -3277,6 +3278,8 @@ cl_uc::do_inst(void)
 	  hist->forget_last();
 	}
     }
+  else
+    idle_cycle();
   post_inst();
 
   if ((res == resGO) && (PC == instPC) && stop_selfjump && !repeating)
@@ -3287,7 +3290,11 @@ cl_uc::do_inst(void)
       
   if ((res == resGO || res == resNOT_DONE))
     {
+      inst_ticks= 0;
       int r= do_interrupt();
+      if (inst_ticks > 0)
+	// cycles of the interrupt call
+	tick_hw(inst_ticks);
       if (r != resGO)
 	res= r;
       if (errors->count)
@@ -3299,6 +3306,17 @@ cl_uc::do_inst(void)
   return(res);
 }
 
+// One machine cycle of waiting
+void
+cl_uc::idle_cycle(void)
+{
+  inst_ticks= 0;
+  tick(1);
+  if (state != stIDLE)
+    // peripherals do not work in power down
+    inst_ticks= 0;
+}
+
 int
 cl_uc::do_emu(void)
 {
@@ -3313,11 +3331,16 @@ cl_uc::do_emu(void)
 	/* backup to start of instruction */
 	PC= instPC;
     }
+  else
+    idle_cycle();
   post_emu();
 
   if ((res == resGO || res == resNOT_DONE))
     {
+      inst_ticks= 0;
       int r= do_interrupt();
+      if (inst_ticks > 0)
+	tick_hw(inst_ticks);
       if (r != resGO)
 	res= r;
     }
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 4b9a4cd..6590d31 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -450,6 +450,7 @@ public:
   virtual bool fetch(t_mem *code);
   virtual int do_inst(void);
   virtual int do_emu(void);
+  void idle_cycle(void);
   virtual void pre_inst(void);
   virtual void pre_emu(void);
   virtual int exec_inst(void);
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 3642686..a1eb326 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -194,6 +194,7 @@ CL12::pre_inst(void)
   cI= &cIX;
   xb_tick_shift= 0;
   extra_ticks= 0;
+  code_ticks= 0;
 }
 
 void
@@ -204,6 +205,7 @@ CL12::pre_emu(void)
   cI= &cIX;
   xb_tick_shift= 0;
   extra_ticks= 0;
+  code_ticks= 0;
 }
 
 int
@@ -220,7 +222,7 @@ CL12::exec_inst(void)
     {
       code= fetch();
       fn= hc12wrap->page0x18[code];
-      inst_ticks= ticks12p18[code];
+      code_ticks= ticks12p18[code];
     }
   else if (code == 0x04)
     {
@@ -231,7 +233,7 @@ CL12::exec_inst(void)
   else
     {
       fn= hc12wrap->page0[code];
-      inst_ticks= ticks12p0[code];
+      code_ticks= ticks12p0[code];
     }
   if (fn)
     res= fn(this, code);
@@ -245,22 +247,26 @@ CL12::exec_inst(void)
 void
 CL12::post_inst(void)
 {
-  if (inst_ticks & 0xf00)
-    inst_ticks= (inst_ticks>>(4*xb_tick_shift)) & 0xf;
-  tick(inst_ticks);
+  if (code_ticks & 0xf00)
+    code_ticks= (code_ticks>>(4*xb_tick_shift)) & 0xf;
+  if (code_ticks)
+    tick(code_ticks);
   if (extra_ticks)
     tick(extra_ticks);
+  code_ticks= extra_ticks= 0;
   cl_m68hcbase::post_inst();
 }
 
 void
 CL12::post_emu(void)
 {
-  if (inst_ticks & 0xf00)
-    inst_ticks= (inst_ticks>>(4*xb_tick_shift)) & 0xf;
-  tick(inst_ticks);
+  if (code_ticks & 0xf00)
+    code_ticks= (code_ticks>>(4*xb_tick_shift)) & 0xf;
+  if (code_ticks)
+    tick(code_ticks);
   if (extra_ticks)
     tick(extra_ticks);
+  code_ticks= extra_ticks= 0;
   cl_m68hcbase::post_emu();
 }
 
diff --git a/src/sims/m68hc12.src/m68hc12cl.h b/src/sims/m68hc12.src/m68hc12cl.h
index 2be541b..7ed290a 100644
--- a/src/sims/m68hc12.src/m68hc12cl.h
+++ b/src/sims/m68hc12.src/m68hc12cl.h
@@ -78,7 +78,7 @@ public:
   const char *tex_names[8], *loop_names[8];
   u16_t XIRQ_AT, COP_AT, TRAP_AT, CMR_AT;
   class cl_hc12_cpu *cpu12;
-  int extra_ticks, xb_tick_shift;
+  int extra_ticks, xb_tick_shift, code_ticks;
   bool block_irq;
   u8_t rev_st, rd_Rx, Rx, rd_Fy, Fy; // REV state
 public:
-- 
2.43.0


From 54159d4e0e87e27f119e42537fa8bfaa6b2e79ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 164/197] =?UTF-8?q?fix:=20timer=20commands=20print=20the?=
 =?UTF-8?q?=20number=20of=20a=20timer=20given=20by=20name,=20=C2=B5=20is?=
 =?UTF-8?q?=20one=20unit=20prefix?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/core/cmd.src/cmd_timer.cc | 1 +
 src/core/utils.src/utils.cc   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 185f9da..50a1b27 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -85,6 +85,7 @@ COMMAND_DO_WORK_UC(cl_timer_cmd)
       as_nr= false;
       id_str= params[0]->s_value;
       ticker= uc->get_counter(id_str);
+      id_nr= ticker?uc->counters->index_of(ticker):0;
     }
   cmdline->shift();
   return(false);
diff --git a/src/core/utils.src/utils.cc b/src/core/utils.src/utils.cc
index 0da2f31..a7dfb08 100644
--- a/src/core/utils.src/utils.cc
+++ b/src/core/utils.src/utils.cc
@@ -518,7 +518,7 @@ strtoscale(const char *scale, const char **units)
             if (!strncmp(scale, "µ", sizeof("µ") - 1))
               {
                 d = 1 / 1000000.0;
-                *units = &scale[sizeof("µ")];
+                *units = &scale[sizeof("µ") - 1];
               }
             else
               {
-- 
2.43.0


From 5021dd7b995708fa402a9796464f701cc92987ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 165/197] fix: where finds data in memories that do not start
 at 0, fill ends at the end of the memory, 32 bit wide bit ranges

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 src/core/cmd.src/cmd_uc.cc  | 8 +++++++-
 src/core/sim.src/mem.cc     | 7 ++++---
 src/core/sim.src/var.cc     | 4 ++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..0cf991c 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -107,7 +107,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
             con->dd_printf("Error: excess data for bit(s)\n");
           else
             {
-              t_mem mask= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+              t_mem mask= (~(t_mem)0 >> (31 - (bitnr_high - bitnr_low))) << bitnr_low;
               mem->write(start, (mem->get(start) & (~mask)) | ((array[0] << bitnr_low) & mask));
               uc->check_errors();
               mem->dump(start, bitnr_high, bitnr_low, con);
diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index ed2e3c4..3abeacd 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -634,7 +634,13 @@ COMMAND_DO_WORK_UC(cl_fill_cmd)
     start= params[1]->value.address;
     end  = params[2]->value.address;
     what = params[3]->value.number;
-    t_addr i;
+    t_addr i, last= mem->highest_valid_address();
+    if (end > last)
+      {
+	if (start <= end)
+	  mem->err_inv_addr(last+1);
+	end= last;
+      }
     for (i= start; i <= end; i++)
       {
 	t_mem d;
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 3da7cce..af296f5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -713,12 +713,13 @@ cl_memory::search_next(bool case_sensitive,
   else
     a= *addr;
 
-  if (a+len > size)
-    return(false);
+  t_addr last= highest_valid_address();
+  if (a < lowest_valid_address())
+    a= lowest_valid_address();
 
   found= false;
   while (!found &&
-	 a+len <= size)
+	 a+len-1 <= last)
     {
       bool match= true;
       for (i= 0; i < len && match; i++)
diff --git a/src/core/sim.src/var.cc b/src/core/sim.src/var.cc
index fd54633..9609af4 100644
--- a/src/core/sim.src/var.cc
+++ b/src/core/sim.src/var.cc
@@ -98,7 +98,7 @@ cl_cvar::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= (~(t_mem)0 >> (31 - (bitnr_high - bitnr_low))) << bitnr_low;
         }
       else
         {
@@ -157,7 +157,7 @@ cl_var::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= (~(t_mem)0 >> (31 - (bitnr_high - bitnr_low))) << bitnr_low;
         }
       else
         {
-- 
2.43.0


From e7f550752f6dc59fcca9139a97908851ad59cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:25 +0000
Subject: [PATCH 166/197] fix: ticks of the last instruction are kept over the
 interrupt check

---
 src/core/sim.src/uc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 6dfafae..46d2c42 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3290,11 +3290,13 @@ cl_uc::do_inst(void)
       
   if ((res == resGO || res == resNOT_DONE))
     {
+      int it= inst_ticks;
       inst_ticks= 0;
       int r= do_interrupt();
       if (inst_ticks > 0)
 	// cycles of the interrupt call
 	tick_hw(inst_ticks);
+      inst_ticks+= it;
       if (r != resGO)
 	res= r;
       if (errors->count)
@@ -3337,10 +3339,12 @@ cl_uc::do_emu(void)
 
   if ((res == resGO || res == resNOT_DONE))
     {
+      int it= inst_ticks;
       inst_ticks= 0;
       int r= do_interrupt();
       if (inst_ticks > 0)
 	tick_hw(inst_ticks);
+      inst_ticks+= it;
       if (r != resGO)
 	res= r;
     }
-- 
2.43.0


From d6b94e1dd9bbf18c14f76073298c3714fc6f2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:58 +0000
Subject: [PATCH 167/197] fix: parameters of wrong kind in break, dump and set
 option commands are rejected

---
 src/core/cmd.src/cmd_bp.cc   | 8 ++++----
 src/core/sim.src/arg.cc      | 2 ++
 src/core/utils.src/option.cc | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/cmd.src/cmd_bp.cc b/src/core/cmd.src/cmd_bp.cc
index 32c581d..ba93dc6 100644
--- a/src/core/cmd.src/cmd_bp.cc
+++ b/src/core/cmd.src/cmd_bp.cc
@@ -148,7 +148,7 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS NUMBER STRING STRING)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= *(params[1]->value.string.string);
     addr= params[2]->value.address;
     hit= params[3]->value.number;
     s= params[4]->get_svalue();
@@ -158,14 +158,14 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS NUMBER)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= *(params[1]->value.string.string);
     addr= params[2]->value.address;
     hit= params[3]->value.number;
     do_event(uc, mem, op, addr, hit, cond, con);
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS STRING STRING)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= *(params[1]->value.string.string);
     addr= params[2]->value.address;
     hit= 1;
     s= params[3]->get_svalue();
@@ -175,7 +175,7 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= *(params[1]->value.string.string);
     addr= params[2]->value.address;
     hit= 1;
     do_event(uc, mem, op, addr, hit, cond, con);
diff --git a/src/core/sim.src/arg.cc b/src/core/sim.src/arg.cc
index 944c253..be43e16 100644
--- a/src/core/sim.src/arg.cc
+++ b/src/core/sim.src/arg.cc
@@ -312,6 +312,8 @@ cl_cmd_sym_arg::get_bit_address(class cl_uc *uc, // input
   if (uc->vars->by_name.search(get_svalue(), i))
     {
       class cl_var *v= (cl_var*)uc->vars->by_name.at(i);
+      if (v->get_mem() == NULL)
+        return false;
       if (mem)
         *mem= v->get_mem();
       if (mem_addr)
diff --git a/src/core/utils.src/option.cc b/src/core/utils.src/option.cc
index af1d766..7d97381 100644
--- a/src/core/utils.src/option.cc
+++ b/src/core/utils.src/option.cc
@@ -336,7 +336,8 @@ cl_options::get_option(const char *the_name, const char *creator)
 class cl_option *
 cl_options::get_option(int idx)
 {
-  if (idx >= count)
+  if ((idx < 0) ||
+      (idx >= count))
     return(0);
   return((class cl_option *)(at(idx)));
 }
-- 
2.43.0


From 5ddd425a4d23f70acab9a2615aac2b15fb3e01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:58 +0000
Subject: [PATCH 168/197] fix: a deleted console is not used when simulation
 stops; exec of an unusable file

---
 src/core/cmd.src/newcmd.cc | 7 +++++++
 src/core/utils.src/app.cc  | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/core/cmd.src/newcmd.cc b/src/core/cmd.src/newcmd.cc
index 6d8690c..cccb193 100644
--- a/src/core/cmd.src/newcmd.cc
+++ b/src/core/cmd.src/newcmd.cc
@@ -134,6 +134,11 @@ cl_console_base::cl_console_base(void):
 
 cl_console_base::~cl_console_base(void)
 {
+  class cl_commander_base *c= application?(application->get_commander()):NULL;
+  if (c && (c->frozen() == this))
+    c->freeze(NULL);
+  if (c && (c->actual_console == this))
+    c->actual_console= NULL;
   if (prompt_option)
     delete prompt_option;
   if (null_prompt_option)
@@ -1169,6 +1174,8 @@ cl_commander_base::exec_on(class cl_console_base *cons, char *file_name)
     return 0;
 
   class cl_console_base *subcon = cons->clone_for_exec(file_name);
+  if (!subcon)
+    return 0;
   subcon->set_flag(CONS_NOWELCOME, true);
   subcon->set_flag(CONS_INTERACTIVE, false);
   add_console(subcon);
diff --git a/src/core/utils.src/app.cc b/src/core/utils.src/app.cc
index 9e20105..7121bff 100644
--- a/src/core/utils.src/app.cc
+++ b/src/core/utils.src/app.cc
@@ -93,6 +93,7 @@ cl_app::~cl_app(void)
 {
   remove_simulator();
   delete commander;
+  commander= NULL;
   delete in_files;
   delete ocon;
   delete options;
-- 
2.43.0


From e9c420884460de5af0289a0c5001d0d5a3e0ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:58 +0000
Subject: [PATCH 169/197] fix: non-existent memory is read in its own width;
 wide or zero line length in dump

---
 src/core/sim.src/mem.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index af296f5..bb9098f 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -218,7 +218,7 @@ cl_memory::dump(int smart,
   if (!con->get_fout())
     return dump_finished;
 
-  if (bpl < 0)
+  if (bpl <= 0)
     {
       bpl= 8;
       if (width > 16)
@@ -252,14 +252,14 @@ cl_memory::dump(int smart,
     {
       step= +1;
       ads->stop++;
-      if (ads->start + bpl > ads->stop)
+      if ((t_addr)bpl > ads->stop - ads->start)
         bpl= ads->stop - ads->start;
     }
   else
     {
       step= -1;
       ads->stop--;
-      if (ads->start - bpl < ads->stop)
+      if ((t_addr)bpl > ads->start - ads->stop)
         bpl= ads->start - ads->stop;
     }
 
@@ -1546,7 +1546,8 @@ cl_memory_cell::operator=(t_mem v)
 t_mem
 cl_dummy_cell::d()
 {
-  return data?(*((u32_t*)data)):0;
+  // default data is common with cells of wider memories
+  return data?((*((u32_t*)data)) & mask):0;
 }
 
 void
-- 
2.43.0


From 81a89306c1a3c36eff570e6b518fb7bdaaf1c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 170/197] fix: cpu hardware with wrong index is not found;
 negative length of history

---
 src/core/sim.src/uc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 46d2c42..5dc7b0a 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -440,6 +440,8 @@ cl_exec_hist::list(class cl_console_base *con, bool inc, int nr)
     return;
   if (t==h)
     return;
+  if (nr <= 0)
+    return;
   if (nr > len-1)
     nr= len-1;
   if (nr > get_used())
@@ -2493,6 +2495,8 @@ cl_uc::get_hw(const char *id_string, int hwid, int *idx)
   class cl_hw *hw;
   int i= 0;
 
+  if (strcmp(id_string, "cpu") == 0)
+    return (cpu && (cpu->id == hwid))?cpu:NULL;
   if (idx)
     i= *idx;
   hw= get_hw(id_string, &i);
-- 
2.43.0


From 9855503c310b3af92406199b0ce3bdec6e2bd049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 171/197] fix: hardware commands with missing address space

---
 src/core/sim.src/pc16550.cc | 7 ++++++-
 src/core/sim.src/simif.cc   | 2 +-
 src/core/sim.src/vcd.cc     | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/pc16550.cc b/src/core/sim.src/pc16550.cc
index 197044f..db6d05c 100644
--- a/src/core/sim.src/pc16550.cc
+++ b/src/core/sim.src/pc16550.cc
@@ -186,7 +186,7 @@ cl_pc16550::set_cmd(class cl_cmdline *cmdline,
       t_addr a= params[1]->value.address;
       if (!mem->is_address_space())
 	{
-	  con->dd_printf("%s is not an address space\n");
+	  con->dd_printf("%s is not an address space\n", mem->get_name("unknown"));
 	  return true;
 	}
       if (!mem->valid_address(a))
@@ -204,6 +204,11 @@ cl_pc16550::set_cmd(class cl_cmdline *cmdline,
     {
       int i;
       t_addr a= params[0]->value.number;
+      if (!as)
+	{
+	  con->dd_printf("Address space is not known yet\n");
+	  return true;
+	}
       if (!as->valid_address(a))
 	{
 	  con->dd_printf("Address must be between 0x%x and 0x%x\n",
diff --git a/src/core/sim.src/simif.cc b/src/core/sim.src/simif.cc
index 1494178..9872ed3 100644
--- a/src/core/sim.src/simif.cc
+++ b/src/core/sim.src/simif.cc
@@ -670,7 +670,7 @@ cl_simulator_interface::set_cmd(class cl_cmdline *cmdline,
       t_addr a= params[1]->value.address;
       if (!mem->is_address_space())
 	{
-	  con->dd_printf("%s is not an address space\n");
+	  con->dd_printf("%s is not an address space\n", mem->get_name("unknown"));
 	  return true;
 	}
       if (!mem->valid_address(a))
diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 8fd03f7..ba60bdf 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -272,7 +272,7 @@ cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bi
 {
   if (!m->is_address_space())
     {
-      if (con) con->dd_printf("%s is not an address space\n");
+      if (con) con->dd_printf("%s is not an address space\n", m->get_name("unknown"));
       return;
     }
   if (!m->valid_address(a))
-- 
2.43.0


From 3163723e17021cab51c44c5ce823d2ac15b7c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 172/197] fix: type record of processors without a type table
 is cleared

---
 src/sims/avr.src/avr.cc   | 2 +-
 src/sims/pdk.src/pdk13.cc | 2 +-
 src/sims/pdk.src/pdk14.cc | 2 +-
 src/sims/pdk.src/pdk15.cc | 2 +-
 src/sims/pdk.src/pdk16.cc | 2 +-
 src/sims/st7.src/st7.cc   | 2 +-
 src/sims/xa.src/xa.cc     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7a869a8..5c4e37a 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -121,7 +121,7 @@ static struct name_entry sfr_tabl[]= {
 cl_avr::cl_avr(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_AVR;
   sleep_executed= 0;
 }
diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index a896d50..5d654d1 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp13::cl_fpp13(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK13;
 }
 
diff --git a/src/sims/pdk.src/pdk14.cc b/src/sims/pdk.src/pdk14.cc
index 7ec811c..5adf55e 100644
--- a/src/sims/pdk.src/pdk14.cc
+++ b/src/sims/pdk.src/pdk14.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp14::cl_fpp14(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp13(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK14;
 }
 
diff --git a/src/sims/pdk.src/pdk15.cc b/src/sims/pdk.src/pdk15.cc
index 4bfa185..0511d20 100644
--- a/src/sims/pdk.src/pdk15.cc
+++ b/src/sims/pdk.src/pdk15.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp15::cl_fpp15(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp14(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK15;
 }
 
diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..1fb9f76 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp16::cl_fpp16(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp15(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK16;
 }
 
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 54e6848..649d65e 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -61,7 +61,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_st7::cl_st7(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_ST7;
 }
 
diff --git a/src/sims/xa.src/xa.cc b/src/sims/xa.src/xa.cc
index c14dd40..9639c5c 100644
--- a/src/sims/xa.src/xa.cc
+++ b/src/sims/xa.src/xa.cc
@@ -231,7 +231,7 @@ static struct name_entry bit_tabXA51[]=
 cl_xa::cl_xa(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_XA;
 }
 
-- 
2.43.0


From 0028a57f5045ed37cd1eb7ffc7cfc59588d0cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 173/197] fix: import of other files into PicoBlaze

---
 src/sims/pblaze.src/cmdpblaze.cc | 20 ++++++++++----------
 src/sims/pblaze.src/pblaze.cc    | 12 ++++++++++++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/sims/pblaze.src/cmdpblaze.cc b/src/sims/pblaze.src/cmdpblaze.cc
index 8826452..8f8397c 100644
--- a/src/sims/pblaze.src/cmdpblaze.cc
+++ b/src/sims/pblaze.src/cmdpblaze.cc
@@ -29,8 +29,8 @@
 COMMAND_DO_WORK_UC(cl_pbstate_cmd)
 {
   char *fname = NULL;
-  if (cmdline->param(0) != 0) {
-    fname = cmdline->param(0)->get_svalue();
+  if ((cmdline->param(0) != 0) && cmdline->param(0)->as_string()) {
+    fname = cmdline->param(0)->value.string.string;
   }
 
   ((cl_pblaze *) uc)->print_state(con, fname);
@@ -45,8 +45,8 @@ CMDHELP(cl_pbstate_cmd,
 COMMAND_DO_WORK_UC(cl_import_pbstate_cmd)
 {
   char *fname = NULL;
-  if (cmdline->param(0) != 0) {
-    fname = cmdline->param(0)->get_svalue();
+  if ((cmdline->param(0) != 0) && cmdline->param(0)->as_string()) {
+    fname = cmdline->param(0)->value.string.string;
     ((cl_pblaze *) uc)->load_state(con, fname);
   }
   else {
@@ -65,8 +65,8 @@ CMDHELP(cl_import_pbstate_cmd,
 COMMAND_DO_WORK_UC(cl_import_interrupts_cmd)
 {
   char *fname = NULL;
-  if (cmdline->param(0) != 0) {
-    fname = cmdline->param(0)->get_svalue();
+  if ((cmdline->param(0) != 0) && cmdline->param(0)->as_string()) {
+    fname = cmdline->param(0)->value.string.string;
 
     cl_option * opt = uc->sim->app->options->get_option("pblaze_interrupt_file");
     if (opt == NULL) {
@@ -94,8 +94,8 @@ CMDHELP(cl_import_interrupts_cmd,
 COMMAND_DO_WORK_UC(cl_import_input_cmd)
 {
   char *fname = NULL;
-  if (cmdline->param(0) != 0) {
-    fname = cmdline->param(0)->get_svalue();
+  if ((cmdline->param(0) != 0) && cmdline->param(0)->as_string()) {
+    fname = cmdline->param(0)->value.string.string;
 
     cl_option * opt = uc->sim->app->options->get_option("pblaze_input_file");
     if (opt == NULL) {
@@ -122,8 +122,8 @@ CMDHELP(cl_import_input_cmd,
 COMMAND_DO_WORK_UC(cl_get_output_cmd)
 {
   char *fname = NULL;
-  if (cmdline->param(0) != 0) {
-    fname = cmdline->param(0)->get_svalue();
+  if ((cmdline->param(0) != 0) && cmdline->param(0)->as_string()) {
+    fname = cmdline->param(0)->value.string.string;
   }
 
     ((cl_pblaze *) uc)->output_port->print_outputs(fname);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index bd29771..46a5e6d 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -639,6 +639,10 @@ cl_pblaze::load_state(class cl_console_base *con, char *file_name)
   TiXmlElement *root = doc.FirstChildElement("picoblaze");
   TiXmlElement *element;
 
+  if (!root || !root->Attribute("type")) {
+    con->dd_printf("Error: it is not a state of Picoblaze.");
+    return;
+  }
   // TODO lover/upper case
   if (strcmp(root->Attribute("type"), id_string()) != 0) {
     con->dd_printf("Error: types of Picoblaze don't match current configuration.");
@@ -1227,6 +1231,10 @@ cl_pblaze::read_interrupt_file(void)
 
     TiXmlElement *root = doc.FirstChildElement("interrupts");
     TiXmlElement *element;
+    if (!root) {
+      fprintf(stderr, "No interrupts in file `%s'.\n", file);
+      return;
+    }
 
     for(element = root->FirstChildElement("interrupt"); element; element = element->NextSiblingElement()) {
       long interrupt_tick = strtol(element->GetText(), NULL, 0);
@@ -1252,6 +1260,10 @@ cl_pblaze::read_input_file(void)
 
     TiXmlElement *root = doc.FirstChildElement("inputs");
     TiXmlElement *element;
+    if (!root) {
+      fprintf(stderr, "No inputs in file `%s'.\n", file);
+      return;
+    }
 
     for(element = root->FirstChildElement("input"); element; element = element->NextSiblingElement()) {
 
-- 
2.43.0


From 080eead1e7c0075b5e5cf89eca7813157a6aeefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:04 +0000
Subject: [PATCH 174/197] fix: MCS-48 addc a,@r and the port of anld, orld

---
 src/sims/i8048.src/i8020cl.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..c67f5ad 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -239,6 +239,8 @@ protected:
   int ADCR5(MP) { return add(R[5]->read(), true); }
   int ADCR6(MP) { return add(R[6]->read(), true); }
   int ADCR7(MP) { return add(R[7]->read(), true); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int DECA(MP) { cA.W(rA-1); return resGO; }
   int CPLA(MP) { cA.W(~(cA.R())); return resGO; }
   int INCIR0(MP) { RDWR; return inc(iram_ir(0)); }
@@ -279,14 +281,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4, &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(5, &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(6, &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(7, &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4, &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(5, &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(6, &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(7, &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
-- 
2.43.0


From 8030c5650862f56328b517b8f669d461ed4c778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:04 +0000
Subject: [PATCH 175/197] fix: MCS-48 expander instructions keep high nibble of
 P2

---
 src/sims/i8048.src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From 3e1c652991efbb5ee38a1fb9a01102034928ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:04 +0000
Subject: [PATCH 176/197] fix: MCS-48 djnz, page of conditional jumps, bank of
 jumps in ISR

---
 src/sims/i8048.src/branch.cc | 28 ++++++++++++----------------
 src/sims/i8048.src/i8048.cc  |  2 +-
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..8b06240 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -34,7 +34,7 @@ cl_i8020::jmp(MP)
   u16_t a;
   a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   PC= a;
   return resGO;
 }
@@ -44,7 +44,7 @@ CL2::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(false);
   PC= a;
   return resGO;
@@ -53,25 +53,23 @@ CL2::call(MP)
 int
 CL2::jb(MP)
 {
+  // destination is in the page of the operand
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   u8_t m= 1<<((code>>5)&7);
   if (rA & m)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
+    PC= page | a;
   return resGO;
 }
 
 int
 CL2::jif(bool cond)
 {
+  // destination is in the page of the operand
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   if (cond)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
+    PC= page | a;
   return resGO;
 }
 
@@ -163,14 +161,12 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code&7;
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
-    {
-      PC&= 0xf00;
-      PC+= a;
-    }
+  if (R[r]->R() != 0)
+    PC= page | a;
   return resGO;
 }
 
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index 3626a17..daf41c7 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -266,7 +266,7 @@ cl_i8048::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(true);
   PC= a;
   return resGO;
-- 
2.43.0


From fe56e3bc505d9a317584cc5b417f5eaab405cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:04 +0000
Subject: [PATCH 177/197] fix: MCS-48 duration of anl a,# and mov @r,a, jumps
 above 1k on UPI-42

---
 src/sims/i8048.src/decode.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 5c652ab..454bd0c 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -164,7 +164,7 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -214,7 +214,7 @@ DEC( bf, MOVR7I8	, "mov r7,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 // c1 undefined
 // c2 undefined
 // c3 undefined
-DEC( c4, JMP6   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( c4, JMP6   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( c5, SELRB0		, "sel rb0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( c6, JZ		, "jz 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( c7, MOVAF		, "mov a,psw"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -248,7 +248,7 @@ DEC( df, XRLR7		, "xrl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 // e1 undefined
 // e2 undefined
 DEC( e3, MOVP3AIA	, "movp3 a,@a"	, ' ', 1, false, 2, (void*)"84--" ) //48,41
-DEC( e4, JMP7   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( e4, JMP7   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( e5, SELMB0		, "sel mb0"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( e5, ENDMA		, "en dma"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( e6, JNC		, "jnc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From 77f57cbf8213ed4f7a6e93812c92a1fcff9c3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:05 +0000
Subject: [PATCH 178/197] fix: MCS-48 counter input and timer interrupt

---
 src/sims/i8048.src/i8020.cc | 6 +++---
 src/sims/i8048.src/timer.cc | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index 29377e2..a3c2786 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -402,7 +402,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
-	      a= addr & 0xf00;
+	      a= (addr+1) & 0xf00;
 	      a|= rom->get(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
@@ -876,13 +876,13 @@ cl_i8020_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
     case i8020cpu_t1:
       if (val)
 	{
+	  bool was_high= (ipins & ipm_t1) != 0;
 	  *val= (*val)?1:0;
 	  ipins&= ~ipm_t1;
 	  ipins|= (*val)?ipm_t1:0;
 	  if (u->timer)
 	    {
-	      if ((cell->get() != 0) &&
-		  (*val == 0))
+	      if (was_high && (*val == 0))
 		{
 		  u->timer->do_counter(1);
 		}
diff --git a/src/sims/i8048.src/timer.cc b/src/sims/i8048.src/timer.cc
index 402cafc..1f44d85 100644
--- a/src/sims/i8048.src/timer.cc
+++ b/src/sims/i8048.src/timer.cc
@@ -143,7 +143,10 @@ cl_timer::do_overflow(void)
 {
   cfg_write(tcfg_tflag, 1);
   if (int_enabled)
-    cfg_write(tcfg_ovflag, 1);
+    {
+      cfg_write(tcfg_ovflag, 1);
+      cfg_write(tcfg_irq, 1);
+    }
 }
 
 const char *
-- 
2.43.0


From fda62b82a5b54f11ffffe4f752aba91e147c474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:53 +0000
Subject: [PATCH 179/197] fix: timer command without id used a stale timer

---
 src/core/cmd.src/cmd_timer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 50a1b27..4d054d2 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -65,7 +65,7 @@ COMMAND_DO_WORK_UC(cl_timer_cmd)
   if (!params[0])
     {
       con->dd_printf("Timer id is missing.\n");
-      return(false);
+      return(true);
     }
   if (params[0]->as_number())
     {
-- 
2.43.0


From 6152d427caec77b7ca1ec8a5d9068f965919f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:35 +0000
Subject: [PATCH 180/197] fix: endless loop of MCS-51 register print when DPTR
 select mask is zero

---
 src/sims/s51.src/uc51.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 1e9da16..58fff47 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1321,7 +1321,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	  // multi DPTR chip style
 	  act= sfr->get(cpu->cfg_get(uc51cpu_aof_mdpc));
 	  mask= cpu->cfg_get(uc51cpu_mask_mdpc);
-	  while ((mask&1) == 0)
+	  while (mask && ((mask&1) == 0))
 	    {
 	      act>>= 1;
 	      mask>>= 1;
@@ -1352,7 +1352,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	  // multi DPTR sfr style
 	  act= sfr->get(cpu->cfg_get(uc51cpu_aof_mdps));
 	  mask= cpu->cfg_get(uc51cpu_mask_mdps);
-	  while ((mask&1) == 0)
+	  while (mask && ((mask&1) == 0))
 	    {
 	      act>>= 1;
 	      mask>>= 1;
-- 
2.43.0


From 7b30d2fc35614188ce7f604fb53efd854d86b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:07 +0000
Subject: [PATCH 181/197] fix: deleting of cells and bit ranges from VCD

---
 src/core/sim.src/vcd.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index ba60bdf..accec5e 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -227,6 +227,12 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
 void
 cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
 {
+  if (bitnr_high == -1 && cell)
+    bitnr_high = cell->get_width() - 1;
+
+  if (bitnr_low == -1)
+    bitnr_low = 0;
+
   for (class cl_vcd_var **var_p = &vars; *var_p; var_p = &((*var_p)->next_var))
     {
       if ((*var_p)->cell == cell)
@@ -594,7 +600,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
+            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[4]->value.number, params[3]->value.number);
           return true;
         }
       return false;
@@ -633,7 +639,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
+            del_var(con, params[1]->value.cell, params[3]->value.number, params[2]->value.number);
           return true;
         }
       return false;
-- 
2.43.0


From a0f20ef1483b45e50b69ff0554239489dfb94f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:01 +0000
Subject: [PATCH 182/197] fix: time scale of VCD output

---
 src/core/sim.src/vcd.cc | 57 ++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index accec5e..12d74b5 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -74,6 +74,27 @@ static i64_t ULPs(double d1, double d2)
 }
 
 
+/* Length of one step of the output, with the largest unit which makes
+   it a whole number */
+
+static double scale_in_unit(double steps_per_sec, const char **unit)
+{
+  static const char *units[]= { "ms", "us", "ns", "ps", "fs" };
+  double mul= 1e3;
+  double len= 0;
+
+  for (int i= 0; i < 5; i++, mul*= 1e3)
+    {
+      double l= mul / steps_per_sec;
+      *unit= units[i];
+      len= (double)((u64_t)(l + 0.5));
+      double diff= (l > len) ? l - len : len - l;
+      if (len >= 1 && diff < len * 1e-6)
+        break;
+    }
+  return len;
+}
+
 #if defined(HAVE_WORKING_FORK) && defined(HAVE_DUP2) && defined(HAVE_PIPE) && defined(HAVE_WAITPID)
 
 #  if !defined(HAVE__EXIT)
@@ -680,7 +701,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             con->dd_printf("Units must be ms, us, ns, ps or fs\n");
           if (p1[0] == 't')
-            timescale = time;
+            // output needs units per second
+            timescale = (state == -1 && time > 0) ? 1.0 / time : time;
           else if (p1[0] == 'p')
             {
               pausetime = time;
@@ -793,18 +815,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 		      else
 			fprintf(fd, "$date\n\t%s$end\n", ctime(&now));
 		      fprintf(fd, "$version\n\tucsim\n$end\n$timescale ");
-                      if (timescale >= 1e15)
-                        fprintf(fd, "%.0ffs", timescale * 1e-15);
-                      else if (timescale >= 1e12)
-                        fprintf(fd, "%.0fps", timescale * 1e-12);
-                      else if (timescale >= 1e9)
-                        fprintf(fd, "%.0fns", timescale * 1e-9);
-                      else if (timescale >= 1e6)
-                        fprintf(fd, "%.0fus", timescale * 1e-6);
-                      else if (timescale >= 1e3)
-                        fprintf(fd, "%.0fms", timescale * 1e-3);
-                      else
-                        fprintf(fd, "%.0fms", timescale * 1e3);
+                      const char *unit;
+                      double len= scale_in_unit(timescale, &unit);
+                      fprintf(fd, "%.0f%s", len, unit);
 
                       fprintf(fd, " $end\n$scope module %s $end\n", modul.c_str());
 
@@ -946,7 +959,10 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
                   starttime = 0.0;
                   event = 0.0;
                   if (state != -1)
-                    clear_vars();
+                    {
+                      clear_vars();
+                      timescale = 0;
+                    }
                   else if (!vars)
                     reset_next_var_id();
                 }
@@ -1151,16 +1167,9 @@ cl_vcd::print_info(class cl_console_base *con)
         con->dd_printf("  Time scale: auto set on start\n");
       else
         {
-          if (timescale >= 1e15)
-            con->dd_printf("  Time scale: %.0f fs\n", timescale * 1e-15);
-          else if (timescale >= 1e12)
-            con->dd_printf("  Time scale: %.0f ps\n", timescale * 1e-12);
-          else if (timescale >= 1e9)
-            con->dd_printf("  Time scale: %.0f ns\n", timescale * 1e-9);
-          else if (timescale >= 1e6)
-            con->dd_printf("  Time scale: %.0f us\n", timescale * 1e-6);
-          else
-            con->dd_printf("  Time scale: %.0f ms\n", timescale * 1e-3);
+          const char *unit;
+          double len= scale_in_unit(timescale, &unit);
+          con->dd_printf("  Time scale: %.0f %s\n", len, unit);
         }
     }
 
-- 
2.43.0


From 9e67b7a23513cbeab3fb9b7483a4db3de7d690ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:01 +0000
Subject: [PATCH 183/197] fix: start time of VCD input set before start or in
 pause

---
 src/core/sim.src/vcd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 12d74b5..d43d489 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -416,7 +416,7 @@ cl_vcd::parse_header(cl_console_base *con)
         {
           if (token[0] == '#')
             {
-              event = starttime + timescale * strtod(&token[1], NULL);
+              event = timescale * strtod(&token[1], NULL); // relative to starttime
               //uc->sim->app->debug("vcd[%d]: first event at %.15f\n", cl_hw::id, event);
               break;
             }
@@ -713,7 +713,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             {
               starttime += time;
-              event += time;
+              if (state == -1 || (started && !paused))
+                event += time;
               //uc->sim->app->debug("vcd[%d]: event rescheduled to %.15f\n", cl_hw::id, event);
             }
           return true;
-- 
2.43.0


From de085515b22c52ed1551003dcf3aff8afc07f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:01 +0000
Subject: [PATCH 184/197] fix: comments, and vectors with identifier 0 or 1 in
 VCD input

---
 src/core/sim.src/vcd.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index d43d489..45d82d1 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1061,6 +1061,12 @@ cl_vcd::tick(int cycles)
       t_mem value = 0;
       while ((more_data = read_word(0U)))
         {
+          if (state == 0 && !strcmp(word, "$comment"))
+            {
+              while ((more_data = read_word(0U)) && strcmp(word, "$end"))
+                ;
+              continue;
+            }
           if (state == 0 && word[0] != '1' && word[0] != '0')
             {
               if (word[0] == '#')
@@ -1089,18 +1095,18 @@ cl_vcd::tick(int cycles)
             {
               // ID for preceding value or bit followed by ID
               char id;
-              if (word[0] == '1')
+              if (state == 1)
+                id = word[0];
+              else if (word[0] == '1')
                 {
                   value = 1;
                   id = word[1];
                 }
-              else if (word[0] == '0')
+              else
                 {
                   value = 0;
                   id = word[1];
                 }
-              else
-                id = word[0];
 
               for (class cl_vcd_var *var = vars; var; var = var->next_var)
                 {
-- 
2.43.0


From d67128e8d06dd8a1e27f0ca09c1424a19e50531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:52 +0000
Subject: [PATCH 185/197] fix: VCD input lost highest bit of whole cells

---
 src/core/sim.src/vcd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 45d82d1..2d6b0b7 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -473,8 +473,9 @@ cl_vcd::parse_header(cl_console_base *con)
 
           if (param->as_bit(uc))
             {
+              int low = (param->value.bit.bitnr_low < 0) ? 0 : param->value.bit.bitnr_low;
               if (param->value.bit.mem->is_address_space())
-                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), param->value.bit.bitnr_low + width - 1, param->value.bit.bitnr_low);
+                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), low + width - 1, low);
               else
                 con->dd_printf("Unable to interpret %s as a memory/bit reference in an address space\n", token);
             }
-- 
2.43.0


From 998edceb342520cf9aa9c21a341faeb0390eacde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:36 +0000
Subject: [PATCH 186/197] fix: VCD variable identifiers run out of printable
 characters

---
 src/core/sim.src/vcd.cc  | 28 ++++++++++++++++++++++------
 src/core/sim.src/vcdcl.h |  4 +---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 2d6b0b7..394c519 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -174,7 +174,6 @@ cl_vcd::cl_vcd(class cl_uc *auc, int aid, chars aid_string):
   filename= NULL;
   fd= 0;
   vars= NULL;
-  reset_next_var_id();
   starttime= 0;
   timescale= 0;
   event= 0;
@@ -195,6 +194,22 @@ cl_vcd::init(void)
   return 0;
 }
 
+// First identifier which is not used by other variables, 0 if there is none
+
+char
+cl_vcd::get_next_var_id(void)
+{
+  for (char i= 33; i < 127; i++)
+    {
+      class cl_vcd_var *v= vars;
+      while (v && v->var_id != i)
+        v= v->next_var;
+      if (!v)
+        return i;
+    }
+  return 0;
+}
+
 void
 cl_vcd::clear_vars(void)
 {
@@ -242,6 +257,12 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
         }
     }
 
+  if (!var_id && !get_next_var_id())
+    {
+      if (con) con->dd_printf("Too many variables\n");
+      return;
+    }
+
   *var_p = new cl_vcd_var(this, var_id, cell, bitnr_high, bitnr_low);
 }
 
@@ -264,9 +285,6 @@ cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitn
               *var_p = (*var_p)->next_var;
               delete old;
 
-              if (vars == NULL && !started)
-                reset_next_var_id();
-
               return;
             }
         }
@@ -965,8 +983,6 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
                       clear_vars();
                       timescale = 0;
                     }
-                  else if (!vars)
-                    reset_next_var_id();
                 }
               started= paused= false;
               return true;
diff --git a/src/core/sim.src/vcdcl.h b/src/core/sim.src/vcdcl.h
index cbd3a7c..75428a0 100644
--- a/src/core/sim.src/vcdcl.h
+++ b/src/core/sim.src/vcdcl.h
@@ -36,7 +36,6 @@ class cl_vcd_var;
 class cl_vcd: public cl_hw
 {
  private:
-  char var_id;
   char *filename;
   FILE *fd;
   class cl_vcd_var *vars;
@@ -52,7 +51,7 @@ class cl_vcd: public cl_hw
 
   inline bool is_running(void) const { return started && !paused; }
 
-  inline char get_next_var_id(void) { return var_id++; }
+  char get_next_var_id(void);
 
   virtual bool set_cmd(class cl_cmdline *cmdline, class cl_console_base *con);
   virtual void set_help(class cl_console_base *con);
@@ -63,7 +62,6 @@ class cl_vcd: public cl_hw
   virtual void print_info(class cl_console_base *con);
 
  private:
-  inline void reset_next_var_id(void) { var_id = 33; }
   void add_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
     {
       add_var(con, 0, cell, bitnr_low, bitnr_high);
-- 
2.43.0


From 164541b56f7cce3218c097ab1b3938ec77ce27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:12 +0000
Subject: [PATCH 187/197] fix: VCD input mixed values of earlier changes into
 vectors

---
 src/core/sim.src/vcd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 394c519..bb64ded 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1097,6 +1097,7 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
+                  value = 0;
                   for (char *ptr = word; *ptr; ptr++)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
                   state = 1;
-- 
2.43.0


From 55595daa58b5bd2725470fba9d4cb95db978b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 188/197] fix: break of VCD input on PDK

---
 src/sims/pdk.src/pdk.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index bd74573..44cabfd 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -950,6 +950,12 @@ cl_pdk::exec_inst(void)
   inst_ticks= 0;
   if (mode == pm_run)
     {
+      if (vcd_break)
+	{
+	  // breaks are checked when FPP fetches
+	  fpps[act]->vcd_break= true;
+	  vcd_break= false;
+	}
       fpps[act]->pre_inst();
       ret= fpps[act]->exec_inst();
       fpps[act]->post_inst();
-- 
2.43.0


From a97d4a3b9082f68b363dde059a4119a58d6aeed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:30 +0000
Subject: [PATCH 189/197] fix: address of EEARH of the AVR

---
 src/sims/avr.src/avr.cc    | 2 +-
 src/sims/avr.src/regsavr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 5c4e37a..6caf9e8 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -84,7 +84,7 @@ static struct name_entry sfr_tabl[]= {
   { CPU_ALL_AVR, 0x003C, "EECR" },
   { CPU_ALL_AVR, 0x003D, "EEDR" },
   { CPU_ALL_AVR, 0x003E, "EEARL" },
-  { CPU_ALL_AVR, 0x003E, "EEARH" },
+  { CPU_ALL_AVR, 0x003F, "EEARH" },
   { CPU_ALL_AVR, 0x0041, "WDTCR" },
   { CPU_ALL_AVR, 0x0042, "ASSR" },
   { CPU_ALL_AVR, 0x0043, "OCR2" },
diff --git a/src/sims/avr.src/regsavr.h b/src/sims/avr.src/regsavr.h
index 8c3f07a..4312c96 100644
--- a/src/sims/avr.src/regsavr.h
+++ b/src/sims/avr.src/regsavr.h
@@ -69,7 +69,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #define EECR	0x003C
 #define EEDR	0x003D
 #define EEARL	0x003E
-#define EEARH	0x003E
+#define EEARH	0x003F
 #define WDTCR	0x0041
 #define ASSR	0x0042
 #define OCR2	0x0043
-- 
2.43.0


From ccaf49ad0a526ef00a93d43a743c378503b0551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:30 +0000
Subject: [PATCH 190/197] fix: variables of zero flag and alternate HL of
 TLCS-90

---
 src/sims/tlcs.src/tlcs.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index 5e29577..0324a58 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -110,7 +110,7 @@ cl_tlcs::init(void)
   vars->add("A", regs8, 0, 7, 0, "");
   vars->add("F", regs8, 1, 7, 0, "");
   vars->add("F_S", regs8, 1, 7, 7, "");
-  vars->add("F_Z", regs8, 1, 7, 7, "Zero");
+  vars->add("F_Z", regs8, 1, 6, 6, "Zero");
   vars->add("F_I", regs8, 1, 5, 5, "Interrupt Mask");
   vars->add("F_H", regs8, 1, 4, 4, "Half Carry");
   vars->add("F_X", regs8, 1, 3, 3, "");
@@ -127,7 +127,7 @@ cl_tlcs::init(void)
   vars->add("ALT_A", regs8, 8, 7, 0, "");
   vars->add("ALT_F", regs8, 9, 7, 0, "");
   vars->add("ALT_F_S", regs8, 9, 7, 7, "");
-  vars->add("ALT_F_Z", regs8, 9, 7, 7, "Zero");
+  vars->add("ALT_F_Z", regs8, 9, 6, 6, "Zero");
   vars->add("ALT_F_I", regs8, 9, 5, 5, "Interrupt Mask");
   vars->add("ALT_F_H", regs8, 9, 4, 4, "Half Carry");
   vars->add("ALT_F_X", regs8, 9, 3, 3, "");
@@ -151,7 +151,7 @@ cl_tlcs::init(void)
   vars->add("ALT_AF", regs16, 7, 15, 0, "");
   vars->add("ALT_BC", regs16, 8, 15, 0, "");
   vars->add("ALT_DE", regs16, 9, 15, 0, "");
-  vars->add("ALT_HL", regs16, 11, 15, 0, "");
+  vars->add("ALT_HL", regs16, 10, 15, 0, "");
 
   return(0);
 }
-- 
2.43.0


From 646dd1c473039fc7b019dd668c0680b12d8c4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:31 +0000
Subject: [PATCH 191/197] fix: bits of EIP and WDCON of DS80C390

---
 src/sims/s51.src/uc51.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 58fff47..bea2842 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -430,7 +430,7 @@ static struct name_entry bit_tab51[]=
   {CPU_89C51R|CPU_251, 0x90, "T2"},
   /* WDCON */
   {CPU_DS390|CPU_DS390F, 0xdf, "SMOD_1"},
-  {CPU_DS390|CPU_DS390F, 0xde, "POR,"},
+  {CPU_DS390|CPU_DS390F, 0xde, "POR"},
   {CPU_DS390|CPU_DS390F, 0xdd, "EPF1"},
   {CPU_DS390|CPU_DS390F, 0xdc, "PF1"},
   {CPU_DS390|CPU_DS390F, 0xdb, "WDIF"},
@@ -447,14 +447,14 @@ static struct name_entry bit_tab51[]=
   {CPU_DS390|CPU_DS390F, 0xe9, "EX3"},
   {CPU_DS390|CPU_DS390F, 0xe8, "EX2"},
   /* EIP */
-  {CPU_DS390|CPU_DS390F, 0xef, "CANBIP"},
-  {CPU_DS390|CPU_DS390F, 0xee, "C0IP"},
-  {CPU_DS390|CPU_DS390F, 0xed, "C1IP"},
-  {CPU_DS390|CPU_DS390F, 0xec, "PWDI"},
-  {CPU_DS390|CPU_DS390F, 0xeb, "PX5"},
-  {CPU_DS390|CPU_DS390F, 0xea, "PX4"},
-  {CPU_DS390|CPU_DS390F, 0xe9, "PX3"},
-  {CPU_DS390|CPU_DS390F, 0xe8, "PX2"},
+  {CPU_DS390|CPU_DS390F, 0xff, "CANBIP"},
+  {CPU_DS390|CPU_DS390F, 0xfe, "C0IP"},
+  {CPU_DS390|CPU_DS390F, 0xfd, "C1IP"},
+  {CPU_DS390|CPU_DS390F, 0xfc, "PWDI"},
+  {CPU_DS390|CPU_DS390F, 0xfb, "PX5"},
+  {CPU_DS390|CPU_DS390F, 0xfa, "PX4"},
+  {CPU_DS390|CPU_DS390F, 0xf9, "PX3"},
+  {CPU_DS390|CPU_DS390F, 0xf8, "PX2"},
 
   {0, 0, NULL}
 };
-- 
2.43.0


From e1d1c342d73a63fe5b13e58bb74d089310854fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:28 +0000
Subject: [PATCH 192/197] fix: selection of an FPP and decreasing number of
 FPPs on PDK

---
 src/sims/pdk.src/pdk.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 44cabfd..a2f4c28 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -882,8 +882,8 @@ cl_pdk::set_act(u8_t val)
   u8_t r= 0;
   if (val < nuof_fpp)
     r= val;
-  cPC.decode(&(fpps[act]->PC));
-  PC= fpps[act]->PC;
+  cPC.decode(&(fpps[r]->PC));
+  PC= fpps[r]->PC;
   return r;
 }
 
@@ -895,6 +895,13 @@ cl_pdk::set_nuof(u8_t val)
     val= 8;
   if (val<1)
     val= 1;
+  if (act >= val)
+    {
+      // actual FPP is going to be deleted
+      act= 0;
+      cPC.decode(&(fpps[0]->PC));
+      PC= fpps[0]->PC;
+    }
   for (i=0; i<8; i++)
     {
       if (i<val)
-- 
2.43.0


From e90a82f9cfb5799ac573e8613c03736f73cada88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:16 +0000
Subject: [PATCH 193/197] fix: searching for holes does not touch devices in
 the memory

---
 src/core/cmd.src/cmd_uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 3abeacd..ec43986 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -786,7 +786,7 @@ COMMAND_DO_WORK_UC(cl_hole_cmd)
       //	     l, h, a, v);
       for (ad= l; ad <= h; ad++)
 	{
-	  mv= m->read(ad);
+	  mv= m->get(ad);
 	  if (!in && (mv==v))
 	    {
 	      // found start
-- 
2.43.0


From 65d41f543f355f0a5a509ceb6782735bf6847cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:16 +0000
Subject: [PATCH 194/197] fix: NMI of 68xx is enabled without looking at its
 configuration first

---
 src/core/motorola.src/irq68.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 402b897..f8366ef 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -46,6 +46,8 @@ cl_irq_hw::init()
   //class cl_var *v;
 
   cl_hw::init();
+  // NMI can not be masked
+  cfg_cell(m68_nmi_en)->set(1);
 
   return 0;
 }
-- 
2.43.0


From c884b1feb4b37a49eae0cdb846d9cf81f8d3d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:16 +0000
Subject: [PATCH 195/197] fix: reading configuration of STM8 UART does not
 break clear sequence

---
 src/sims/stm8.src/serial.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a44b59..18166e5 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -163,8 +163,9 @@ cl_serial::read(class cl_memory_cell *cell)
       cfg_set(serconf_able_receive, 1);
       return s_in;
     }
+  if (conf(cell, NULL))
+    return cell->get();
   sr_read= (cell == regs[sr]);
-  conf(cell, NULL);
   return cell->get();
 }
 
-- 
2.43.0


From 8c0a5ee0975bc86f7c03b587b45f769635dae203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:22 +0000
Subject: [PATCH 196/197] fix: info of the 8041 shows the actual status

---
 src/sims/i8048.src/i8041.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 6dd3504..98ba682 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -332,7 +332,7 @@ void
 cl_i8041_cpu::print_info(class cl_console_base *con)
 {
   class cl_i8041 *u= (class cl_i8041 *)uc;
-   u8_t s= cfg_get(i8041cpu_status);
+   u8_t s= cfg_read(i8041cpu_status);
   con->dd_printf("DBBIN = 0x%02x\n", cfg_get(i8041cpu_in));
   con->dd_printf("DBBOUT= 0x%02x\n", cfg_get(i8041cpu_out));
   con->dd_printf("STATUS= 0x%02x IBF=%d OBF=%d flags41=0x%02x\n",
-- 
2.43.0


From a77f012dfe8aedb7d0a7c2b17ff1607740790ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:39 +0000
Subject: [PATCH 197/197] fix: binary dump does not read the cell after the
 range

---
 src/core/sim.src/mem.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index bb9098f..8a9e762 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -592,16 +592,15 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
     ads->stop= ads->start + 10 * bpl - 1;
 
   t_addr a= ads->start;
-  t_mem d= read(a);
   while ((a <= ads->stop) &&
 	 (a <= hva))
     {
-      char c= d;
+      char c= read(a);
       if (a >= lva)
 	{
 	  f->write(&c, 1);
 	}
-      d= read(++a);
+      a++;
     }
 
   dump_finished= a;
-- 
2.43.0

