// Lockstep reference model: M68HC08 / HCS08 / 9S08 (S08 with paging MMU).
// Written from the CPU08 central processor unit reference manual, the HCS08 family reference manual and the MC9S08QE128 manual (MMU).
#include "lock.h"
#include "m68hc08cl.h"
static Lock L; static Rng &g= L.g;
static Shadow LAS;                         // linear (paged) memory of the 9S08
static cl_mmu *mmu;
static u32 A,H,X,S,P,PC,LAP; static int cpu; static bool odd;   // cpu 0: HC08, 1: HCS08, 2: 9S08
enum { C=1,Z=2,N=4,I=8,HC=16,V=0x80 };
static long lin(u32 a){ a&=0xffff; if(cpu<2||a<0x2080) return -1; if(a>=0x8000&&a<0xc000) return (L.M.r(0x78)&7)*0x4000+(a&0x3fff); return a; }
static u8 mr(u32 a){ a&=0xffff; long l=lin(a); return l<0?L.M.r(a):LAS.r(l); }
static void mp(u32 a,u8 v){ a&=0xffff; if(cpu==2&&a>=0x78&&a<0x80) return; long l=lin(a); if(l<0) L.M.poke(a,v); else LAS.poke(l,v); }
static u8 rd(u32 a){ a&=0xffff; if(cpu==2&&a>=0x78&&a<0x80){ u8 v;
    switch(a){ case 0x78: return L.M.r(a); case 0x79: v=LAP>>16; break; case 0x7a: v=LAP>>8; break; case 0x7b: v=LAP; break;
      case 0x7c: case 0x7d: v=LAS.r(LAP); LAP=(LAP+1)&0x1ffff; break; case 0x7e: v=LAS.r(LAP); break; default: v=0; }
    return v; }
  return mr(a); }
static void wr(u32 a,u8 v){ a&=0xffff; if(cpu==2&&a>=0x78&&a<0x80){
    switch(a){ case 0x78: if(v>7) odd=true; L.M.w(a,v); break; case 0x79: LAP=(LAP&0xffff)|(v&1)<<16; break; case 0x7a: LAP=(LAP&0x100ff)|v<<8; break; case 0x7b: LAP=(LAP&0x1ff00)|v; break;
      case 0x7c: case 0x7d: LAS.w(LAP,v); LAP=(LAP+1)&0x1ffff; break; case 0x7e: LAS.w(LAP,v); break; case 0x7f: LAP=(LAP+(i8)v)&0x1ffff; break; }
    return; }
  long l=lin(a); if(l<0) L.M.w(a,v); else LAS.w(l,v); }
static u8 f8(){ u8 v=mr(PC); if(cpu==2&&PC>=0x78&&PC<0x80) odd=true; PC=(PC+1)&0xffff; return v; }
static u16 f16(){ u8 h=f8(); return h<<8|f8(); }
static void sf(u32 m,bool v){ P=v?P|m:P&~m; }
static void nz(u8 v){ sf(N,v&0x80); sf(Z,!v); }
static void push(u8 v){ if(cpu==2&&S>=0x78&&S<0x80) odd=true; wr(S,v); S=(S-1)&0xffff; }
static u8 pop(){ S=(S+1)&0xffff; return rd(S); }
static void push16(u16 v){ push(v); push(v>>8); }
static u16 pop16(){ u8 h=pop(); return h<<8|pop(); }
static u32 HX(){ return H<<8|X; } static void setHX(u32 v){ H=(v>>8)&0xff; X=v&0xff; }
static u32 &m_(const char *n){ for(auto &r:L.regs) if(!strcmp(r.name,n)) return r.mask; abort(); }
static u32 ea(int hi,bool sp){ switch(hi){ case 3: case 0xb: return f8(); case 0xc: return f16(); case 0xd:{ u16 o=f16(); return (o+(sp?S:HX()))&0xffff; }
  case 6: case 0xe:{ u8 o=f8(); return (o+(sp?S:HX()))&0xffff; } case 7: case 0xf: return HX(); } abort(); }
static u8 sub(u8 a,u8 b,int c){ unsigned r=a-b-c; u8 q=r; nz(q); sf(C,r>255); sf(V,((a^b)&(a^q))&0x80); return q; }
static u8 add(u8 a,u8 b,int c){ unsigned r=a+b+c; u8 q=r; nz(q); sf(C,r>255); sf(V,(~(a^b)&(a^q))&0x80); sf(HC,(a&15)+(b&15)+c>15); return q; }
static void lg(u8 v){ nz(v); sf(V,0); }
static void vnc(){ sf(V,!(P&N)!=!(P&C)); }
static bool rmw(int op,u8 v,u8 &r){
  switch(op){
  case 0: r=-v; nz(r); sf(C,r); sf(V,r==0x80); break;
  case 3: r=~v; lg(r); sf(C,1); break;
  case 4: r=v>>1; sf(C,v&1); nz(r); vnc(); break;
  case 6: r=v>>1|(P&C)<<7; sf(C,v&1); nz(r); vnc(); break;
  case 7: r=v>>1|(v&0x80); sf(C,v&1); nz(r); vnc(); break;
  case 8: r=v<<1; sf(C,v&0x80); nz(r); vnc(); break;
  case 9: r=v<<1|(P&C); sf(C,v&0x80); nz(r); vnc(); break;
  case 10: r=v-1; nz(r); sf(V,v==0x80); break;
  case 12: r=v+1; nz(r); sf(V,v==0x7f); break;
  case 13: r=v; lg(r); break;
  case 15: r=0; lg(r); break;
  default: return false; }
  return true; }
static void br(bool t){ i8 o=f8(); if(t) PC=(PC+o)&0xffff; }
static void ldhx(u32 a){ u8 h=rd(a); X=rd(a+1); H=h; sf(V,0); sf(N,H&0x80); sf(Z,!H&&!X); }
static void sthx(u32 a){ wr(a,H); wr(a+1,X); sf(V,0); sf(N,H&0x80); sf(Z,!H&&!X); }
static void cphx(u16 b){ u16 a=HX(); u16 q=a-b; sf(Z,!q); sf(N,q&0x8000); sf(C,a<b); sf(V,((a^b)&(a^q))&0x8000); }
static u16 rd16(u32 a){ u8 h=rd(a); return h<<8|rd(a+1); }
static void hi8(u8 op,bool sp){          // 8 columns of register/memory instructions
  int h=op>>4, lo=op&15; bool imm=h==0xa;
  auto o=[&]()->u8{ return imm?f8():rd(ea(h,sp)); };
  switch(lo){
  case 0: A=sub(A,o(),0); return; case 1: sub(A,o(),0); return; case 2: A=sub(A,o(),P&C); return; case 3: sub(X,o(),0); return;
  case 4: A&=o(); lg(A); return; case 5: lg(A&o()); return; case 6: A=o(); lg(A); return;
  case 7: wr(ea(h,sp),A); lg(A); return;
  case 8: A^=o(); lg(A); return; case 9: A=add(A,o(),P&C); return; case 10: A|=o(); lg(A); return; case 11: A=add(A,o(),0); return;
  case 14: X=o(); lg(X); return; case 15: wr(ea(h,sp),X); lg(X); return; }
  L.skip=true; }
static void rmwcol(u8 op,bool sp){
  int h=op>>4, lo=op&15; u8 r; u32 *q=h==4?&A:h==5?&X:0;
  if(lo==1){ u8 a,b; if(h==4||h==5){ a=h==4?A:X; b=f8(); br(a==b); return; }
    a=A; b=rd(ea(h,sp)); i8 o=f8(); if(a==b) PC=(PC+o)&0xffff; if(!sp&&(h==6||h==7)) setHX(HX()+1); return; }
  if(lo==11){ if(q){ *q=(*q-1)&0xff; br(*q); return; } u32 a=ea(h,sp); u8 v=rd(a)-1; wr(a,v); br(v); return; }
  if(q){ if(!rmw(lo,*q,r)){ L.skip=true; return; } *q=r; return; }
  u32 a=ea(h,sp); u8 v=rd(a); if(!rmw(lo,v,r)){ L.skip=true; return; } if(lo!=13) wr(a,r); }
static void step(){
  odd=false; u8 op=f8(); int h=op>>4, lo=op&15; bool s08=cpu>0;
  if(op==0x9e){ u8 o=f8(); L.opname=vfmt("9e%02x",o);
    if(o>>4==6&&o!=0x62&&o!=0x65&&o!=0x6e) rmwcol(o,true);
    else if((o>>4==0xd||o>>4==0xe)&&(o&15)!=12&&(o&15)!=13) hi8(o,true);
    else if(s08) switch(o){ case 0xae: ldhx(HX()); break; case 0xbe:{ u16 d=f16(); ldhx((HX()+d)&0xffff); break; } case 0xce:{ u8 d=f8(); ldhx((HX()+d)&0xffff); break; }
      case 0xfe:{ u8 d=f8(); ldhx((S+d)&0xffff); break; } case 0xff:{ u8 d=f8(); sthx((S+d)&0xffff); break; } case 0xf3:{ u8 d=f8(); cphx(rd16((S+d)&0xffff)); break; }
      default: L.skip=true; }
    else L.skip=true;
    if(odd) L.skip=true; return; }
  int bit=(op>>1)&7;
  switch(h){
  case 0:{ u8 v=rd(f8()); bool b=(v>>bit)&1; sf(C,b); br(b!=(op&1)); break; }
  case 1:{ u8 a=f8(); u8 v=rd(a); wr(a,(op&1)?v&~(1<<bit):v|1<<bit); break; }
  case 2:{ bool t=true; switch(bit){ case 0:t=true;break;case 1:t=!(P&(C|Z));break;case 2:t=!(P&C);break;case 3:t=!(P&Z);break;case 4:t=!(P&HC);break;case 5:t=!(P&N);break;case 6:t=!(P&I);break;case 7:t=false;break; }
    br(t!=(op&1)); break; }
  default:
    switch(op){
    case 0x32: if(!s08){ L.skip=true; return; } ldhx(f16()); break;
    case 0x42:{ u32 r=A*X; X=r>>8; A=r&0xff; sf(C,0); sf(HC,0); break; }
    case 0x52:{ u32 d=H<<8|A; if(!X||d/X>255){ sf(C,1); m_("A")=m_("H")=0; m_("P")&=~(u32)Z; break; } A=d/X; H=d%X; sf(C,0); sf(Z,!A); break; }
    case 0x62: A=(A>>4|A<<4)&0xff; break;
    case 0x72:{ // decimal adjust: correction table of the manual
      u8 ms=A>>4,ls=A&15,cf=0; bool c=P&C,hc=P&HC,co=c;
      if(!c&&!hc){ if(ls<=9){ if(ms<=9) cf=0; else cf=0x60,co=true; } else { if(ms<=8) cf=6; else cf=0x66,co=true; } }
      else if(!c&&hc){ if(ls>3){ L.skip=true; return; } if(ms<=9) cf=6; else cf=0x66,co=true; }
      else if(c&&!hc){ if(ms>2) { L.skip=true; return; } cf=ls<=9?0x60:0x66; }
      else { if(ms>3||ls>3){ L.skip=true; return; } cf=0x66; }
      A=(A+cf)&0xff; sf(C,co); nz(A); m_("P")&=~(u32)V; break; }
    case 0x3e: if(!s08){ L.skip=true; return; } cphx(rd16(f16())); break;
    case 0x35: sthx(f8()); break; case 0x45:{ H=f8(); X=f8(); sf(V,0); sf(N,H&0x80); sf(Z,!H&&!X); break; } case 0x55: ldhx(f8()); break;
    case 0x65: cphx(f16()); break; case 0x75: cphx(rd16(f8())); break;
    case 0x4e:{ u8 v=rd(f8()); wr(f8(),v); lg(v); break; } case 0x5e:{ u8 v=rd(f8()); wr(HX(),v); lg(v); setHX(HX()+1); break; }
    case 0x6e:{ u8 v=f8(); wr(f8(),v); lg(v); break; } case 0x7e:{ u8 v=rd(HX()); wr(f8(),v); lg(v); setHX(HX()+1); break; }
    case 0x80:{ u8 v=pop(); P=v|0x60; A=pop(); X=pop(); PC=pop16(); break; } case 0x81: PC=pop16(); break;
    case 0x83: push16(PC); push(X); push(A); push(P|0x60); sf(I,1); PC=rd16(0xfffc); break;
    case 0x84: P=A|0x60; break; case 0x85: A=P|0x60; break;
    case 0x86: A=pop(); break; case 0x87: push(A); break; case 0x88: X=pop(); break; case 0x89: push(X); break; case 0x8a: H=pop(); break; case 0x8b: push(H); break;
    case 0x8c: H=0; lg(0); break;
    case 0x8d: if(cpu<2){ L.skip=true; return; } { u8 p=pop(); PC=pop16(); wr(0x78,p); break; }
    case 0xac: if(cpu<2){ L.skip=true; return; } { u8 p=f8(); u16 a=f16(); push16(PC); push(rd(0x78)); wr(0x78,p); PC=a; break; }
    case 0x90: br(!(P&N)==!(P&V)); break; case 0x91: br(!(P&N)!=!(P&V)); break;
    case 0x92: br(!(P&Z)&&!(P&N)==!(P&V)); break; case 0x93: br((P&Z)||!(P&N)!=!(P&V)); break;
    case 0x94: S=(HX()-1)&0xffff; break; case 0x95: setHX(S+1); break;
    case 0x96: if(!s08){ L.skip=true; return; } sthx(f16()); break;
    case 0x97: X=A; break; case 0x98: sf(C,0); break; case 0x99: sf(C,1); break; case 0x9a: sf(I,0); break; case 0x9b: sf(I,1); break;
    case 0x9c: S=(S&0xff00)|0xff; if(S!=0xff) m_("SP")=0xff; break; case 0x9d: break; case 0x9f: A=X; break;
    case 0xa7:{ i8 o=f8(); S=(S+o)&0xffff; break; } case 0xaf:{ i8 o=f8(); setHX(HX()+o); break; }
    case 0xad:{ i8 o=f8(); push16(PC); PC=(PC+o)&0xffff; break; }
    case 0x82: case 0x8e: case 0x8f: case 0x52+0x100: L.skip=true; return;
    default:
      if(h>=3&&h<=7){ if(lo==2||lo==5||lo==14){ L.skip=true; return; } rmwcol(op,false); break; }
      if(h>=0xb&&lo==12){ PC=ea(h,false); break; }
      if(h>=0xb&&lo==13){ u16 a=ea(h,false); push16(PC); PC=a; break; }
      if(h>=0xa){ hi8(op,false); break; }
      L.skip=true; } }
  if(odd) L.skip=true; }
int vh_main(){
  std::string id=U->id_string(); cpu=id=="HC08"?0:id=="HCS08"?1:2; L.nm=cpu==0?"HC08":cpu==1?"HCS08":"9S08";
  L.reg("A",&A,0xff); L.reg("H",&H,0xff); L.reg("X",&X,0xff); L.reg("SP",&S,0xffff); L.reg("P",&P,0xff); L.flagreg=4; L.pc=&PC;
  if(cpu==2) mmu=((cl_9s08*)U)->mmu;
  U->do_inst();                              // the reset vector is taken by the first step
  Rng q(vh_seed+5); 
  if(cpu==2){ LAS.attach(vh_as("las"),0x20000); L.M.attach(U->rom,0x2080); LAS.randomize(q,0,0x20000); L.M.randomize(q,0,0x78); L.M.randomize(q,0x80,0x2080); L.M.poke(0x78,2); }
  else { L.M.attach(U->rom,0x10000); L.M.randomize(q,0,0x10000); }
  static int op=q.below(512);
  L.randst=[](){ A=g.b();H=g.b();X=g.b();S=(u16)g.next();P=0x60|(g.next()&0x9f); LAP=g.next()&0x1ffff;
    if(g.chance(10)){ H=g.chance(50)?0:0xff; X=H^g.below(3); } if(g.chance(10)) S=g.chance(50)?g.below(3):0xffffu-g.below(2);
    if(g.chance(20)){ H=0; if(cpu==2) X=0x76+g.below(10); }
    if(g.chance(10)) LAP=g.chance(50)?0:0x1ffff; if(g.chance(5)) A=g.chance(50)?0:0x80; if(g.chance(5)) A=g.below(10)*16+g.below(10);
    if(cpu==2){ mmu->lin_addr=LAP; u8 p=g.below(8); L.M.m[0x78]=p; L.M.cells[0x78]->write(p); }
    do PC=g.chance(5)?0xfffc+g.below(4):(u16)g.next(); while(cpu==2&&PC>=0x70&&PC<0x80); };
  L.putcode=[](u32 pc){ op=(op+1)&511; u32 p=pc; 
    if(op>=256) mp(p++,0x9e);
    mp(p++,op&255);
    for(int i=0;i<3;i++){ u8 b=g.b(); if(g.chance(8)) b=g.chance(50)?0:0xff; if(cpu==2&&g.chance(15)) b=0x77+g.below(10); if(cpu==2&&(op&255)==0xac&&i==0) b&=7;
      u32 a=(p+i)&0xffff; if(cpu==2&&a>=0x78&&a<0x80) return; mp(a,b); } 
    if(op==0x8d) mp(S+1,g.below(8)); };
  L.code=[](){ return vfmt("%02x %02x %02x %02x %02x",mr(PC),mr(PC+1),mr(PC+2),mr(PC+3),mr(PC+4)); };
  L.opkey=[]()->u64{ u8 o=mr(PC); return o==0x9e?o<<8|mr(PC+1):o; };
  L.step=[](){ LAS.clear(); step(); if(L.skip){ for(u32 a:LAS.touched) LAS.m[a]=LAS.real(a); if(mmu) LAP=mmu->lin_addr; } };
  if(cpu==2) L.extra=[](std::string &w,std::string &d){ std::string e; static int n=0; 
    bool bad=!LAS.cmp_touched(e); if(!bad&&++n%4096==0) bad=!LAS.cmp_all(e);
    if(mmu->lin_addr!=LAP){ if(w.size()) w+="+"; w+="LAP"; d+=vfmt(" LAP=%x want %x",(int)mmu->lin_addr,LAP); LAP=mmu->lin_addr; }
    if(bad){ if(w.size()) w+="+"; w+="mem"; d+=e; for(u32 a:LAS.touched) LAS.cells[a]->set(LAS.m[a]); } return !bad; };
  if(cpu==2) L.fixup=[](){ for(int a=0x79;a<0x80;a++) L.M.m[a]=L.M.real(a); };
  L.run(); return 0; }
