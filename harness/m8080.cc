// Lockstep reference model: Intel 8080 / 8085 (written from the Intel manuals).
#include "vh.h"
static bool is85;
static Shadow M;
static cl_memory_cell *cA,*cF,*cBC,*cDE,*cHL,*cSP;
struct St { u8 a,f; u16 bc,de,hl,sp,pc; } s;
enum { C=1, P=4, AC=0x10, Z=0x40, S=0x80 };
static bool par(u8 v){ return !(__builtin_popcount(v)&1); }
static u8 cyc; static u8 fmask; // flags compared
static u8 kset; // 8085: expected value of X5 (0/0x20), 0xff: not compared
static bool cmpA;
static u8 rd(u16 a){ return M.r(a); }
static void wr(u16 a,u8 v){ M.w(a,v); }
static u8 f8(){ return rd(s.pc++); }
static u16 f16(){ u8 l=f8(); u8 h=f8(); return h<<8|l; }
static u8 getr(int r){ switch(r){case 0:return s.bc>>8;case 1:return s.bc;case 2:return s.de>>8;case 3:return s.de;case 4:return s.hl>>8;case 5:return s.hl;case 6:return rd(s.hl);default:return s.a;} }
static void setr(int r,u8 v){ switch(r){case 0:s.bc=(s.bc&0xff)|v<<8;break;case 1:s.bc=(s.bc&0xff00)|v;break;case 2:s.de=(s.de&0xff)|v<<8;break;case 3:s.de=(s.de&0xff00)|v;break;case 4:s.hl=(s.hl&0xff)|v<<8;break;case 5:s.hl=(s.hl&0xff00)|v;break;case 6:wr(s.hl,v);break;default:s.a=v;} }
static u16 rp(int i){ return i==0?s.bc:i==1?s.de:i==2?s.hl:s.sp; }
static void setrp(int i,u16 v){ (i==0?s.bc:i==1?s.de:i==2?s.hl:s.sp)=v; }
static void szp(u8 r){ s.f=(s.f&~(S|Z|P))|(r&0x80?S:0)|(r?0:Z)|(par(r)?P:0); }
static void setf(int m,bool v){ s.f=v?(s.f|m):(s.f&~m); }
static void push(u16 v){ wr(--s.sp,v>>8); wr(--s.sp,v); }
static u16 pop(){ u8 l=rd(s.sp++); u8 h=rd(s.sp++); return h<<8|l; }
static bool cond(int c){ bool v; switch(c>>1){case 0:v=s.f&Z;break;case 1:v=s.f&C;break;case 2:v=s.f&P;break;default:v=s.f&S;} return (c&1)?v:!v; }
static void alu(int op,u8 b){
  u8 a=s.a; unsigned c=(s.f&C)?1:0, r;
  switch(op){
  case 0: case 1: if(op==0)c=0; r=a+b+c; setf(C,r>0xff); setf(AC,(a&15)+(b&15)+c>15); s.a=r; szp(s.a); break;
  case 2: case 3: case 7: if(op!=3)c=0; r=a-b-c; setf(C,(int)a-(int)b-(int)c<0); setf(AC,(a&15)+((~b)&15)+(1-c)>15); szp(r); if(op!=7)s.a=r; break;
  case 4: r=a&b; setf(C,0); setf(AC,is85?1:((a|b)&8)); s.a=r; szp(r); break;
  case 5: s.a=a^b; setf(C,0);setf(AC,0);szp(s.a);break;
  case 6: s.a=a|b; setf(C,0);setf(AC,0);szp(s.a);break;
  }
}
static void step(){
  cyc=0; fmask=S|Z|AC|P|C; kset=0xff; cmpA=true;
  u8 op=f8(); int x=op>>6,y=(op>>3)&7,z=op&7,p=y>>1,q=y&1;
  if(x==1){ if(op==0x76){cyc=is85?5:7;return;} setr(y,getr(z)); cyc=(y==6||z==6)?7:(is85?4:5); return; }
  if(x==2){ alu(y,getr(z)); cyc=z==6?7:4; return; }
  if(x==0) switch(z){
  case 0:
    if(y==0||!is85){cyc=4;return;}
    switch(op){
    case 0x08:{u32 r=(u32)s.hl-s.bc; setf(C,s.hl<s.bc); s.hl=r; setf(Z,!s.hl); setf(S,s.hl&0x8000); fmask=S|Z|C;cyc=10;return;}
    case 0x10: setf(C,s.hl&1); s.hl=(s.hl>>1)|(s.hl&0x8000); cyc=7; return;
    case 0x18:{ bool c=s.de&0x8000; s.de=(s.de<<1)|(s.f&C?1:0); setf(C,c); cyc=10; return;}
    case 0x20: cmpA=false; cyc=4; return; // RIM
    case 0x28: s.de=s.hl+f8(); cyc=10; return;
    case 0x30: cyc=4; return; // SIM
    case 0x38: s.de=s.sp+f8(); cyc=10; return;
    } return;
  case 1: if(!q){ setrp(p,f16()); cyc=10; } else { u32 r=(u32)s.hl+rp(p); setf(C,r>0xffff); s.hl=r; cyc=10; } return;
  case 2: switch(y){
    case 0: wr(s.bc,s.a);cyc=7;return; case 1: s.a=rd(s.bc);cyc=7;return;
    case 2: wr(s.de,s.a);cyc=7;return; case 3: s.a=rd(s.de);cyc=7;return;
    case 4:{u16 a=f16(); wr(a,s.hl); wr(a+1,s.hl>>8);cyc=16;return;}
    case 5:{u16 a=f16(); s.hl=rd(a)|rd((u16)(a+1))<<8;cyc=16;return;}
    case 6: wr(f16(),s.a);cyc=13;return; case 7: s.a=rd(f16());cyc=13;return;
    } return;
  case 3: { u16 v=rp(p); u16 n=q?v-1:v+1; if(is85) kset=(q?v==0:v==0xffff)?0x20:0; setrp(p,n); cyc=is85?6:5; return; }
  case 4: { u8 v=getr(y); u8 r=v+1; setf(AC,(v&15)==15); szp(r); setr(y,r); cyc=y==6?10:(is85?4:5); return; }
  case 5: { u8 v=getr(y); u8 r=v-1; setf(AC,(v&15)!=0); szp(r); setr(y,r); cyc=y==6?10:(is85?4:5); return; }
  case 6: setr(y,f8()); cyc=y==6?10:7; return;
  case 7: cyc=4; switch(y){
    case 0: setf(C,s.a&0x80); s.a=s.a<<1|s.a>>7; return;
    case 1: setf(C,s.a&1); s.a=s.a>>1|s.a<<7; return;
    case 2: { bool c=s.a&0x80; s.a=s.a<<1|(s.f&C?1:0); setf(C,c); return; }
    case 3: { bool c=s.a&1; s.a=s.a>>1|(s.f&C?0x80:0); setf(C,c); return; }
    case 4: { u8 a=s.a; u8 corr=0; bool c=s.f&C; if((a&15)>9||(s.f&AC)) corr=6; if(a>0x99||c||((a>>4)>=9&&(a&15)>9)){corr|=0x60;c=true;} setf(AC,(a&15)+(corr&15)>15); s.a=a+corr; szp(s.a); setf(C,c); return; }
    case 5: s.a=~s.a; return;
    case 6: s.f|=C; return;
    case 7: s.f^=C; return;
    }
  }
  // x==3
  switch(z){
  case 0: if(cond(y)){ s.pc=pop(); cyc=is85?12:11;} else cyc=is85?6:5; return;
  case 1: if(!q){ u16 v=pop(); cyc=10; if(p==3){ s.a=v>>8; s.f=is85?(v&0xff):((v&0xd7)|2); } else setrp(p,v); return; }
    switch(p){ case 0: s.pc=pop();cyc=10;return; case 1: if(is85){ wr(s.de,s.hl); wr(s.de+1,s.hl>>8); cyc=10;return;} s.pc=pop();cyc=10;return; case 2: s.pc=s.hl;cyc=is85?6:5;return; case 3: s.sp=s.hl;cyc=is85?6:5;return; } return;
  case 2: { u16 a=f16(); bool c=cond(y); if(c) s.pc=a; cyc=is85?(c?10:7):10; return; }
  case 3: switch(y){
    case 0: s.pc=f16();cyc=10;return;
    case 1: if(is85){ if(s.f&2){ push(s.pc); s.pc=0x40; cyc=12; } else cyc=6; return; } s.pc=f16();cyc=10;return;
    case 2: f8();cyc=10;return; case 3: f8();cyc=10;cmpA=false;return;
    case 4: { u8 l=rd(s.sp),h=rd((u16)(s.sp+1)); wr(s.sp,s.hl); wr(s.sp+1,s.hl>>8); s.hl=h<<8|l; cyc=is85?16:18; return; }
    case 5: { u16 t=s.hl;s.hl=s.de;s.de=t;cyc=is85?4:5;return; }
    default: cyc=4; return; }
  case 4: { u16 a=f16(); bool c=cond(y); if(c){push(s.pc);s.pc=a;} cyc=is85?(c?18:9):(c?17:11); return; }
  case 5: if(!q){ if(p==3) push(s.a<<8|s.f); else push(rp(p)); cyc=is85?12:11; return; }
    if(p==0||!is85){ u16 a=f16(); push(s.pc); s.pc=a; cyc=is85?18:17; return; }
    if(op==0xdd||op==0xfd){ u16 a=f16(); bool k=s.f&0x20; bool t=(op==0xfd)?k:!k; if(t)s.pc=a; cyc=t?10:7; return; }
    s.hl=rd(s.de)|rd((u16)(s.de+1))<<8; cyc=10; return; // LHLX
  case 6: alu(y,f8()); cyc=7; return;
  case 7: { u16 a=y*8; push(s.pc); s.pc=a; cyc=is85?12:11; return; }
  }
}
static void put(){ cA->set(s.a);cF->set(s.f);cBC->set(s.bc);cDE->set(s.de);cHL->set(s.hl);cSP->set(s.sp);U->PC=s.pc; }
static St get(){ St r; r.a=cA->get(); r.f=cF->get(); r.bc=cBC->get(); r.de=cDE->get(); r.hl=cHL->get(); r.sp=cSP->get(); r.pc=U->PC; return r; }
static std::string str(const St&t){ return vfmt("A=%02x F=%02x BC=%04x DE=%04x HL=%04x SP=%04x PC=%04x",t.a,t.f,t.bc,t.de,t.hl,t.sp,t.pc); }
static void randst(Rng&g){ s.a=g.b(); s.f=g.next(); if(!is85) s.f=(s.f&0xd7)|2; s.bc=g.w();s.de=g.w();s.hl=g.w();s.sp=g.w(); s.pc=g.chance(5)?0xfffc + g.below(4):g.next(); }
int vh_main(){
  is85= strcmp(U->id_string(),"i8085")==0;
  cA=vh_var("A");cF=vh_var("F");cBC=vh_var("BC");cDE=vh_var("DE");cHL=vh_var("HL");cSP=vh_var("SP");
  Rng g(vh_seed);
  M.attach(U->rom,0x10000); M.randomize(g,0,0x10000);
  const char *nm= is85?"8085":"8080";
  long total=0; int op=g.below(256);
  while(total<vh_cases){
    randst(g); put(); int len= g.chance(70)?1:2+g.below(40);
    for(int k=0;k<len;k++){
      if(k==0||g.chance(80)){ op=(op+1)&255; M.poke(s.pc,op); M.poke((u16)(s.pc+1),g.b()); M.poke((u16)(s.pc+2),g.b()); }
      u8 o=rd(s.pc); St pre=s; u8 b1=rd(s.pc+1),b2=rd(s.pc+2);
      vh_case("%s:op=%02x %s",nm,o,str(pre).c_str());
      M.clear(); step();
      long t0=U->inst_ticks; U->do_inst(); St r=get();
      std::string d; bool bad=false; std::string what;
      auto ck=[&](const char*n,u32 a,u32 b){ if(a!=b){ if(what.size()) what+="+"; what+=n; d+=vfmt(" %s=%x want %x",n,a,b); bad=true; } };
      if(cmpA) ck("A",r.a,s.a); ck("F",r.f&fmask,s.f&fmask); if(kset!=0xff) ck("K",r.f&0x20,kset);
      if(!is85) ck("Ffixed",r.f&0x2a,2);
      ck("BC",r.bc,s.bc);ck("DE",r.de,s.de);ck("HL",r.hl,s.hl);ck("SP",r.sp,s.sp);ck("PC",r.pc,s.pc);
      if(cyc) ck("ticks",U->inst_ticks,cyc);
      std::string md; if(!M.cmp_touched(md)){ bad=true; if(what.size()) what+="+"; what+="mem"; d+=md; for(u32 a:M.touched) M.cells[a]->set(M.m[a]); }
      if(bad) vh_fail(vfmt("%s:op=%02x:%s",nm,o,what.c_str()),str(pre)+vfmt(" code=%02x %02x %02x ->",o,b1,b2)+d);
      u8 rf=r.f; if(!bad){ s.f=rf; s.a=r.a; } else { if(is85) s.f=(s.f&fmask)|(rf&~fmask); put(); }
      vh_distinct("op/flags",(u64)o<<16|pre.f<<8|r.f); total++;
      if(total<4) vh_sample(str(pre)+vfmt(" op %02x %02x %02x -> ",o,b1,b2)+str(r));
      U->state=stGO;
    }
    if(total%512<len){ std::string d; if(!M.cmp_all(d)) vh_fail(vfmt("%s:stray-write",nm),"memory the instruction stream should not have written changed:"+d); vh_stat("fullmem",1);}
  }
  vh_stat("cases",total);
  return 0;
}
