// Lockstep reference model: MCS-48 family (8048, UPI-41, 8021, 8022), from the MCS-48 / UPI-41 user manuals.
#include "lock.h"
#include "i8048cl.h"
#include "i8041cl.h"
static Lock L; static Rng &g= L.g;
static char fam;                      // '8' '4' '2' '1'
static u32 PC, A, PSW, MB, F1; static u32 romsz, ramsz; static u32 p3;
enum { C=0x80, AC=0x40, F0=0x20, BS=0x10 };
struct Mem { std::vector<cl_memory_cell*> c; std::vector<u32> m, t; void att(cl_address_space*a,u32 n){ for(u32 i=0;i<n;i++){c.push_back(a->get_cell(i)); m.push_back(c[i]->get());} }
  u8 r(u32 a){return m[a];} void w(u32 a,u8 v){ m[a]=v; t.push_back(a);} void poke(u32 a,u8 v){m[a]=v;c[a]->set(v);} 
  void sync(){ for(u32 i=0;i<c.size();i++) m[i]=c[i]->get(); } };
static Mem RAM, XR;
static cl_memory_cell *cTmode,*cT,*cTF,*cTI,*cP[3],*cPin[3],*cX[4],*cXpin[4],*cBin,*cBout,*cT0,*cT1,*cINT,*cF1,*cMB;
static u32 T, TF, TI, TM, P[3], X[4], BO; static bool bus_cmp; static u32 pin[3], xpin[4], bin, t0, t1, eni;
static cl_i8020 *u; static i8020cpu_confs dummy;
static u8 f(){ u8 v= L.M.r(PC); PC= (PC&0x800)|((PC+1)&0x7ff); return v; }
static u32 rr(int i){ return ((fam=='8'||fam=='4')&&(PSW&BS)?24:0)+i; }
static u8 R(int i){ return RAM.r(rr(i)); } static void W(int i,u8 v){ RAM.w(rr(i),v); }
static u32 ind(int i){ u32 a=R(i&1); if(a>=ramsz){ L.skip=true; return 0; } return a; }
static u8 fixp(u32 v){ if(fam=='8'||fam=='4') return v|8; return v|0x18; }
static void setP(u32 v){ PSW=fixp(v&0xff); }
static void fl(u32 m,bool v){ setP(v?PSW|m:PSW&~m); }
static void push(){ u32 s=PSW&7; RAM.w(8+2*s,PC); u8 h=(PC>>8)&15; if(fam=='8'||fam=='4') h|=PSW&0xf0; RAM.w(9+2*s,h); setP((PSW&~7)|((s+1)&7)); }
static void pop(bool p){ u32 s=(PSW-1)&7; u8 l=RAM.r(8+2*s),h=RAM.r(9+2*s); PC=l|(h&15)<<8; if(p) setP((PSW&0xf)|(h&0xf0)); setP((PSW&~7)|s); }
static void add(u8 b,int c){ u32 r=A+b+c; fl(AC,(A&15)+(b&15)+c>15); fl(C,r>255); A=r&255; }
static void jc(bool c){ u32 page=PC&0xf00; u8 o=f(); if(c) PC=page|o; }
static u32 vh_chip_size(const char*n){ return U->memory(n)->get_size(); }
static u8 op; static bool irqm, isr; static u32 irq, intp;
static const char *avail(u8 o);
static void step(){
  op=f(); u32 lo=op&15, hi=op>>4; int cy=1; bus_cmp=false;
  auto alusrc=[&]()->u8{ return lo>=8?R(lo&7):RAM.r(ind(lo&1)); };
  if(lo==4){ u32 pg=(op&0xe0)<<3; u8 o=f(); u32 a=pg|o|(MB&&!isr?0x800:0); if(op&0x10) push(); PC=a; cy=2; goto done; }
  if(lo==2&&(hi&1)){ jc(A>>(op>>5)&1); cy=2; goto done; }
  if(lo>=8||lo<2) switch(hi){
    case 1: if(lo<2){u32 a=ind(lo); RAM.w(a,RAM.r(a)+1);} else W(lo&7,R(lo&7)+1); goto done;
    case 2: { u32 a= lo<2?ind(lo):rr(lo&7); u8 t=RAM.r(a); RAM.w(a,A); A=t; goto done; }
    case 3: if(lo<2){ u32 a=ind(lo); u8 t=RAM.r(a); RAM.w(a,(t&0xf0)|(A&15)); A=(A&0xf0)|(t&15); goto done; } break;
    case 4: A|=alusrc(); goto done; case 5: A&=alusrc(); goto done;
    case 6: add(alusrc(),0); goto done; case 7: add(alusrc(),PSW&C?1:0); goto done;
    case 10: if(lo<2) RAM.w(ind(lo),A); else W(lo&7,A); goto done;
    case 11: { u8 o=f(); if(lo<2) RAM.w(ind(lo),o); else W(lo&7,o); cy=2; goto done; }
    case 12: if(lo>=8) W(lo&7,R(lo&7)-1); goto done;
    case 13: A^=alusrc(); goto done;
    case 14: if(lo>=8){ u32 page=PC&0xf00; u8 o=f(); u8 v=R(lo&7)-1; W(lo&7,v); if(v) PC=page|o; cy=2; goto done; } break;
    case 15: A=alusrc(); goto done;
  }
  switch(op){
  case 0x00: break;
  case 0x02: if(fam=='8'){ BO=A; bus_cmp=true; cy=2; } break;
  case 0x03: add(f(),0); cy=2; break; case 0x13: add(f(),PSW&C?1:0); cy=2; break;
  case 0x05: eni=1; break; case 0x15: eni=0; break;
  case 0x07: A=(A-1)&255; break; case 0x17: A=(A+1)&255; break; case 0x27: A=0; break; case 0x37: A^=255; break;
  case 0x08: A= fam=='8'?bin:P[0]&pin[0]; cy=2; break;
  case 0x09: A=P[1]&pin[1]; cy=2; break; case 0x0a: A=P[2]&pin[2]; cy=2; break;
  case 0x0c: case 0x0d: case 0x0e: case 0x0f: A=xpin[op&3]; P[2]=(P[2]&0xf0)|A; cy=2; break;
  case 0x16: jc(TF); TF=0; cy=2; break;
  case 0x23: A=f(); cy=2; break;
  case 0x25: TI=1; break; case 0x35: TI=0; irq=0; break;
  case 0x26: jc(!t0); cy=2; break; case 0x36: jc(t0); cy=2; break;
  case 0x46: jc(!t1); cy=2; break; case 0x56: jc(t1); cy=2; break;
  case 0x39: P[1]=A; cy=2; break; case 0x3a: P[2]=A&(fam=='1'||fam=='2'?15:255); cy=2; break; case 0x90: if(fam=='1'||fam=='2'){ P[0]=A; cy=2; break; } XR.w(R(0),A); cy=2; break;
  case 0x3c: case 0x3d: case 0x3e: case 0x3f: X[op&3]=A&15; P[2]=(P[2]&0xf0)|(A&15); cy=2; break;
  case 0x8c: case 0x8d: case 0x8e: case 0x8f: X[op&3]|=A&15; P[2]=(P[2]&0xf0)|X[op&3]; cy=2; break;
  case 0x9c: case 0x9d: case 0x9e: case 0x9f: X[op&3]&=A&15; P[2]=(P[2]&0xf0)|X[op&3]; cy=2; break;
  case 0x42: A=T; break; case 0x62: T=A; break;
  case 0x43: A|=f(); cy=2; break; case 0x53: A&=f(); cy=2; break; case 0xd3: A^=f(); cy=2; break;
  case 0x45: TM=1; break; case 0x55: TM=2; break; case 0x65: TM=0; break;
  case 0x47: A=(A>>4|A<<4)&255; break;
  case 0x57: { if((A&15)>9||(PSW&AC)){ if(A>0xf9) fl(C,1); A=(A+6)&255; } if((A>>4)>9||(PSW&C)){ A=(A+0x60)&255; fl(C,1); } break; }
  case 0x67: { bool c=A&1; A=A>>1|(PSW&C?0x80:0); fl(C,c); break; }
  case 0x77: A=(A>>1|A<<7)&255; break;
  case 0xe7: A=(A<<1|A>>7)&255; break;
  case 0xf7: { bool c=A&0x80; A=(A<<1|(PSW&C?1:0))&255; fl(C,c); break; }
  case 0x75: break;
  case 0x76: jc(F1); cy=2; break; case 0xb6: jc(PSW&F0); cy=2; break;
  case 0x80: case 0x81: A=XR.r(R(op&1)); cy=2; break; case 0x91: XR.w(R(1),A); cy=2; break;
  case 0x83: pop(false); cy=2; break;
  case 0x93: pop(fam!='2'); isr=false; cy=2; break;
  case 0x85: fl(F0,0); break; case 0x95: fl(F0,!(PSW&F0)); break;
  case 0xa5: F1=0; break; case 0xb5: F1^=1; break;
  case 0x86: jc(!intp); cy=2; break;                                   // INT pin held high
  case 0x88: BO|=f(); bus_cmp=true; cy=2; break; case 0x98: BO&=f(); bus_cmp=true; cy=2; break;
  case 0x89: P[1]|=f(); cy=2; break; case 0x8a: P[2]|=f(); cy=2; break;
  case 0x99: P[1]&=f(); cy=2; break; case 0x9a: P[2]&=f(); cy=2; break;
  case 0x96: jc(A); cy=2; break; case 0xc6: jc(!A); cy=2; break;
  case 0xe6: jc(!(PSW&C)); cy=2; break; case 0xf6: jc(PSW&C); cy=2; break;
  case 0x97: fl(C,0); break; case 0xa7: fl(C,!(PSW&C)); break;
  case 0xa3: A=L.M.r((PC&0xf00)|A); cy=2; break;
  case 0xe3: A=L.M.r(0x300|A); cy=2; break;
  case 0xb3: PC=(PC&0xf00)|L.M.r((PC&0xf00)|A); cy=2; break;
  case 0xc5: setP(PSW&~BS); break; case 0xd5: setP(PSW|BS); break;
  case 0xc7: A=PSW; break; case 0xd7: setP(A); break;
  case 0xe5: MB=0; break; case 0xf5: MB=1; break;
  default: L.skip=true;
  }
 done:
  L.cyc=cy*5;
  if(op==0xe3&&(PC&0x800)) L.skip=true;      // MOVP3 in the upper bank: the manuals leave the bank open
  if(PC>=romsz) L.skip=true;
}
// opcodes of the family that are judged
static bool ok(u8 o){
  int h=o>>4,l=o&15; bool e=fam=='8'||fam=='4'; // expanded families
  static const u8 undef[]={0x01,0x06,0x0b,0x33,0x38,0x3b,0x63,0x66,0x73,0x82,0x87,0x8b,0x92+0x100-0x100,0x9b,0xa2,0xa6,0xb7,0xc0,0xc1,0xc2,0xc3,0xe0,0xe1,0xe2,0xf3};
  if(l==2&&(h&1)) return e;                     // JBb
  for(u8 x:undef) if(x==o) return false;
  if(l==4){ u32 pg=(o&0xe0)>>5; if(fam=='4'&&o>=0x94&&romsz==1024) return false; return pg*256<romsz; }
  if(h==12&&l>=8) return e;
  switch(o){
  case 0x02: case 0x08: if(fam=='4') return false; if(o==2) return fam=='8'; return true;
  case 0x22: case 0xd6: return false;
  case 0x05: case 0x15: case 0x25: case 0x35: return fam!='1';
  case 0x26: return fam!='1'; case 0x36: return fam!='1';
  case 0x75: return false;                      // ENT0 CLK: no observable effect modelled, documented duration differs
  case 0x76: case 0xb6: case 0x85: case 0x95: case 0xa5: case 0xb5: case 0x89: case 0x8a: case 0x99: case 0x9a: case 0xc5: case 0xd5: case 0xc7: case 0xd7: case 0xe3: return e;
  case 0x80: case 0x81: case 0x91: case 0x86: case 0x88: case 0x98: case 0xe5: case 0xf5: return fam=='8';
  case 0x90: return fam!='4';
  case 0x93: return fam!='1';
  }
  return true;
}
static void vec(u32 a){ push(); PC=a; isr=true; L.cyc=0; vh_stat(a==3?"external interrupts taken":"timer interrupts taken",1); }
static void accept(){ if(isr) return; bool e= fam=='8'?!intp: fam=='2'?!t0:false; if(eni&&e) vec(3); else if(TI&&irq){ irq=0; vec(7); } }
static const u8 irqops[]={0x00,0x05,0x15,0x25,0x25,0x35,0x16,0x45,0x45,0x65,0x62,0x42,0x93,0x93,0x83,0x04,0x14,0x24,0x44,0x17,0x86,0x56,0x46,0xe5,0xf5};
static void pins(){
  int n= g.chance(60)?0:1+g.below(3);
  while(n--) switch(g.below(3)){
    case 0: { u32 v=g.chance(50); bool edge=t1&&!v; cT1->write(v); t1=v; if(edge&&TM==1){ T=(T+1)&255; vh_stat("counted edges",1); if(!T){ TF=1; if(TI) irq=1; vh_stat("counter overflows",1); } } break; }
    case 1: if(fam=='8'){ intp=!g.chance(30); cINT->write(intp); } break;
    case 2: if(fam!='1'){ t0=!g.chance(30); cT0->write(t0); } break; }
}
static void sync_hw(){ u->in_isr=false; isr=false; irq=0;
  cTmode->write(TM=0); cTI->write(0); TI=0; u->timer->int_request=0; u->timer->overflow_flag=0; if(u->ints) u->ints->dis_e(); eni=0;
  u->it_enabled();
}
int vh_main(){
  irqm= vh_mode=="irq"; if(irqm) L.contpct=90;
  u=(cl_i8020*)U; fam=u->info_ch; romsz=vh_chip_size("rom_chip"); ramsz=vh_chip_size("iram_chip");
  bool e=fam=='8'||fam=='4';
  L.nm=strdup(vfmt("mcs48-%c",fam).c_str()); L.M.attach(U->rom,romsz); g= Rng(vh_seed); L.M.randomize(g,0,romsz); L.pc=&PC;
  RAM.att(U->address_space("iram"),ramsz); XR.att(U->address_space("xram"),256);
  L.reg("A",&A,0xff,"ACC"); L.reg("PSW",&PSW,0xff,"psw"); if(e){ L.reg("MB",&MB,1,"A11"); L.reg("F1",&F1,1,"F1"); }
  cTmode=vh_var("timer0_mode"); cT=vh_var("timer0"); cTF=vh_var("timer0_flag"); cTI=vh_var("timer0_int_enabled");
  for(int i=(e?1:0);i<3;i++){ cP[i]=vh_var(strdup(vfmt("port%d_odr",i).c_str())); cPin[i]=vh_var(strdup(vfmt("port%d_pin",i).c_str())); }
  for(int i=0;i<4;i++){ cX[i]=vh_var(strdup(vfmt("pext0_odr%d",i+4).c_str())); cXpin[i]=vh_var(strdup(vfmt("pext0_pin%d",i+4).c_str())); }
  if(e){ cBin=vh_var("bus0_in"); cBout=vh_var("bus0_out"); } if(fam!='1') cT0=vh_var("T0"); cT1=vh_var("T1"); if(fam=='8') cINT=vh_var("INT");
  L.randst=[&]{
    sync_hw(); A=g.b(); setP(g.b()); if(!e) PSW&=~0x20; MB=e&&fam=='8'&&romsz>2048?g.chance(40):0; F1=e?g.chance(50):0;
    PC=g.chance(8)?((g.below(romsz>>8))<<8|(0xfd+g.below(3))):g.below(romsz);
    for(u32 i=0;i<ramsz;i++) RAM.poke(i,g.b()); for(int i=0;i<256;i++) XR.poke(i,g.b());
    for(int b=0;b<(e?2:1);b++) for(int i=0;i<2;i++) if(g.chance(97)) RAM.poke(b*24+i,g.below(ramsz));
    if(romsz<0x1000) for(int i=0;i<8;i++) RAM.poke(9+2*i,RAM.m[9+2*i]&(0xf0|((romsz-1)>>8)));
    if(!e) for(int i=0;i<8;i++) RAM.poke(9+2*i,RAM.m[9+2*i]&0xf);
    for(int i=(e?1:0);i<3;i++){ u32 k=(i==2&&!e)?15:255; P[i]=g.b()&k; pin[i]=g.b()&k; cP[i]->write(P[i]); cPin[i]->write(pin[i]); }
    for(int i=0;i<4;i++){ X[i]=g.below(16); xpin[i]=g.below(16); U->address_space("ports")->write(4+i,X[i]); cXpin[i]->write(xpin[i]); }
    if(fam=='8'){ bin=g.b(); cBin->write(bin); BO=g.b(); }
    T=g.b(); cT->write(T); TF=g.chance(50); cTF->write(TF); t1=g.chance(50); cT1->write(t1); if(fam!='1'){ t0=g.chance(50); cT0->write(t0); } intp=1; if(cINT) cINT->write(1); if(irqm&&g.chance(70)){ T=0xfc+g.below(4); cT->write(T); }
    sync_hw(); T=cT->read();
  };
  L.putcode=[&](u32 at){ static u32 o=g.below(256); do o=irqm?irqops[g.below(sizeof irqops)]:(o+1)&255; while(!ok(o)); L.M.poke(at,o); if(romsz<0x1000||1){ u32 n=(at&0x800)|((at+1)&0x7ff); if(n<romsz) L.M.poke(n,g.b()); } };
  L.code=[&]{ U->address_space("aspsw"); u->cpsw->write(PSW); if(e){ u->cmb.set(MB); }
    if(fam=='8'){ cBout->write(BO); }
    return vfmt("%02x %02x psw=%02x",L.M.r(PC),L.M.r((PC&0x800)|((PC+1)&0x7ff)),PSW); };
  L.opkey=[&]{ return (u64)L.M.r(PC); };
  L.step=[&]{ RAM.t.clear(); XR.t.clear(); if(!ok(L.M.r(PC))||(romsz<2048&&PC>=romsz-1)||(fam=='2'&&!t0&&!irqm&&L.M.r(PC)==5)){ L.skip=true; return; } if(irqm) pins(); step(); L.opname=vfmt("%02x",op); if(irqm&&!L.skip){ accept(); if(PC>=romsz) L.skip=true; } if(L.skip){ RAM.sync(); XR.sync(); } };
  L.extra=[&](std::string &what,std::string &d){
    auto ck=[&](const char*n,u32 a,u32 b){ if(a!=b){ if(what.size()) what+="+"; what+=n; d+=vfmt(" %s=%x want %x",n,a,b);} };
    for(u32 i=0;i<ramsz;i++) if(RAM.c[i]->get()!=(t_mem)RAM.m[i]){ ck("iram",RAM.c[i]->get(),RAM.m[i]); d+=vfmt("@%x",i); RAM.c[i]->set(RAM.m[i]); }
    for(u32 a:XR.t) if(XR.c[a]->get()!=(t_mem)XR.m[a]){ ck("xram",XR.c[a]->get(),XR.m[a]); XR.c[a]->set(XR.m[a]); }
    for(int i=(e?1:0);i<3;i++){ u32 v=cP[i]->read(); if(i==2&&!e) v&=15; if(v!=P[i]) { ck(vfmt("P%d",i).c_str(),v,P[i]); cP[i]->write(P[i]); } }
    for(int i=0;i<4;i++){ u32 v=U->address_space("ports")->get(4+i); if(v!=X[i]){ ck(vfmt("P%d",i+4).c_str(),v,X[i]); U->address_space("ports")->write(4+i,X[i]); } }
    ck("tmode",cTmode->read(),TM); u32 t=cT->read(); if(TM!=2) ck("T",t,T); T=t; if(TM!=2) ck("TF",cTF->read(),TF); TF=cTF->read();
    if(fam!='1'){ ck("TCNTI",cTI->read(),TI); if(u->ints) ck("EI",u->ints->ene,eni); }
    if(bus_cmp) ck("bus",cBout->read(),BO);
    vh_stat("banks",PSW&BS?1:0);
    if(irqm){ ck("inISR",u->in_isr,isr); if(fam!='1') ck("IRQ",u->timer->int_request,irq); isr=u->in_isr; irq=u->timer->int_request; TM=cTmode->read(); TI=cTI->read(); if(TM==2){ cTmode->write(0); TM=0; } if(u->ints) eni=u->ints->ene; } else sync_hw();
    return true; };
  L.run(); return 0;
}
