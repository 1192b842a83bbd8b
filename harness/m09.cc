// Lockstep reference model: MC6809. Written from the MC6809 programming manual.
#include "lock.h"
#include "m6809cl.h"
#undef A
#undef B
#undef D
static Lock L; static Rng &g= L.g;
static u32 A,B,X,Y,Uu,S,DP,P,PC;
enum { C=1,V=2,Z=4,N=8,I=16,H=32,F=64,E=128 };
static bool io; static bool isio(u32 a){ return a>=0xc000&&a<0xc030; }
static u8 rd(u32 a){ a&=0xffff; if(isio(a)) io=true; return L.M.r(a); }
static void wr(u32 a,u8 v){ a&=0xffff; if(isio(a)) io=true; L.M.w(a,v); }
static u8 f8(){ u8 v=rd(PC); PC=(PC+1)&0xffff; return v; }
static u16 f16(){ u8 h=f8(); return h<<8|f8(); }
static u16 rd16(u32 a){ u8 h=rd(a); return h<<8|rd(a+1); }
static void wr16(u32 a,u16 v){ wr(a,v>>8); wr(a+1,v); }
static void sf(u32 m,bool v){ P=v?P|m:P&~m; }
static void nz8(u8 v){ sf(N,v&0x80); sf(Z,!v); }
static void nz16(u16 v){ sf(N,v&0x8000); sf(Z,!v); }
static void push(u32 &s,u8 v){ s=(s-1)&0xffff; wr(s,v); }
static u8 pop(u32 &s){ u8 v=rd(s); s=(s+1)&0xffff; return v; }
static void push16(u32 &s,u16 v){ push(s,v); push(s,v>>8); }
static u16 pop16(u32 &s){ u8 h=pop(s); return h<<8|pop(s); }
static u32 D(){ return A<<8|B; } static void setD(u16 v){ A=v>>8; B=v&0xff; }
static u32 &m_(const char *n){ for(auto &r:L.regs) if(!strcmp(r.name,n)) return r.mask; abort(); }
static void noH(){ m_("CC")&=~(u32)H; }
enum { IMM,DIR,IDX,EXT };
static u16 idx(){
  u8 p=f8(); u32 *r[4]={&X,&Y,&Uu,&S}; u32 &q=*r[(p>>5)&3]; u16 a=0; bool ind=(p&0x90)==0x90;
  if(!(p&0x80)) return q+((p&0x10)?(int)(p&15)-16:(p&15));
  switch(p&15){
  case 0: if(ind) L.skip=true; a=q; q=(q+1)&0xffff; break; case 1: a=q; q=(q+2)&0xffff; break;
  case 2: if(ind) L.skip=true; q=(q-1)&0xffff; a=q; break; case 3: q=(q-2)&0xffff; a=q; break;
  case 4: a=q; break; case 5: a=q+(i8)B; break; case 6: a=q+(i8)A; break;
  case 8: { i8 o=f8(); a=q+o; break; } case 9: { u16 o=f16(); a=q+o; break; } case 11: a=q+D(); break;
  case 12: { i8 o=f8(); a=PC+o; break; } case 13: { u16 o=f16(); a=PC+o; break; }
  case 15: if(p!=0x9f) L.skip=true; a=f16(); break;
  default: L.skip=true; }
  return ind?rd16(a):a; }
static u16 ea(int m){ switch(m){ case DIR: return DP<<8|f8(); case IDX: return idx(); case EXT: return f16(); } return 0; }
static u8 op8(int m){ return m==IMM?f8():rd(ea(m)); }
static u16 op16(int m){ return m==IMM?f16():rd16(ea(m)); }
static u8 sub8(u8 a,u8 b,int c){ unsigned r=a-b-c; u8 q=r; nz8(q); sf(C,r>255); sf(V,((a^b)&(a^q))&0x80); noH(); return q; }
static u8 add8(u8 a,u8 b,int c){ unsigned r=a+b+c; u8 q=r; nz8(q); sf(C,r>255); sf(V,(~(a^b)&(a^q))&0x80); sf(H,(a&15)+(b&15)+c>15); return q; }
static u16 sub16(u16 a,u16 b){ u16 q=a-b; nz16(q); sf(C,a<b); sf(V,((a^b)&(a^q))&0x8000); return q; }
static u16 add16(u16 a,u16 b){ unsigned r=a+b; u16 q=r; nz16(q); sf(C,r>0xffff); sf(V,(~(a^b)&(a^q))&0x8000); return q; }
static void logi(u8 v){ nz8(v); sf(V,0); }
static void logi16(u16 v){ nz16(v); sf(V,0); }
static bool rmw(int op,u8 v,u8 &r){
  switch(op){
  case 0: r=-v; nz8(r); sf(C,r); sf(V,r==0x80); noH(); break;
  case 3: r=~v; nz8(r); sf(V,0); sf(C,1); break;
  case 4: r=v>>1; sf(C,v&1); nz8(r); break;
  case 6: r=v>>1|(P&C)<<7; sf(C,v&1); nz8(r); break;
  case 7: r=v>>1|(v&0x80); sf(C,v&1); nz8(r); noH(); break;
  case 8: r=v<<1; sf(C,v&0x80); nz8(r); sf(V,(v^(v<<1))&0x80); noH(); break;
  case 9: r=v<<1|(P&C); sf(C,v&0x80); nz8(r); sf(V,(v^(v<<1))&0x80); break;
  case 10: r=v-1; nz8(r); sf(V,v==0x80); break;
  case 12: r=v+1; nz8(r); sf(V,v==0x7f); break;
  case 13: r=v; nz8(r); sf(V,0); break;
  case 15: r=0; nz8(0); sf(V,0); sf(C,0); break;
  default: return false; }
  return true; }
static bool cond(int c){ bool n=P&N,z=P&Z,v=P&V,cy=P&C,r=true;
  switch(c>>1){ case 0:r=true;break;case 1:r=!(cy||z);break;case 2:r=!cy;break;case 3:r=!z;break;case 4:r=!v;break;case 5:r=!n;break;case 6:r=n==v;break;case 7:r=!(z||n!=v);break; }
  return r!=(c&1); }
static void pushall(){ push16(S,PC); push16(S,Uu); push16(S,Y); push16(S,X); push(S,DP); push(S,B); push(S,A); push(S,P); }
static u32 *r16(int n){ switch(n){ case 1: return &X; case 2: return &Y; case 3: return &Uu; case 4: return &S; case 5: return &PC; } return 0; }
static u32 getr(int n){ switch(n){ case 0: return D(); case 8: return A; case 9: return B; case 10: return P; case 11: return DP; } return *r16(n); }
static void setr(int n,u32 v){ switch(n){ case 0: setD(v); break; case 8: A=v; break; case 9: B=v; break; case 10: P=v; break; case 11: DP=v; break; default: *r16(n)=v; } }
static bool badr(int a){ return (a>5&&a<8)||a>11; }
static void pshs(u32 &s,u32 &o,u8 m){ if(m&128) push16(s,PC); if(m&64) push16(s,o); if(m&32) push16(s,Y); if(m&16) push16(s,X); if(m&8) push(s,DP); if(m&4) push(s,B); if(m&2) push(s,A); if(m&1) push(s,P); }
static void puls(u32 &s,u32 &o,u8 m){ if(m&1) P=pop(s); if(m&2) A=pop(s); if(m&4) B=pop(s); if(m&8) DP=pop(s); if(m&16) X=pop16(s); if(m&32) Y=pop16(s); if(m&64) o=pop16(s); if(m&128) PC=pop16(s); }
static void page0(u8 op){
  int hi=op>>4, lo=op&15;
  if(hi==2){ i8 o=f8(); if(cond(lo)) PC=(PC+o)&0xffff; return; }
  if(hi==0||(hi>=4&&hi<=7)){
    int m=hi==0?DIR:hi==6?IDX:EXT; u8 r;
    if(lo==14){ if(hi==4||hi==5){ L.skip=true; return; } PC=ea(m); return; }
    if(hi==4||hi==5){ u32 &q=hi==4?A:B; if(!rmw(lo,q,r)){ L.skip=true; return; } q=r; return; }
    if(lo==1||lo==2||lo==5||lo==11){ L.skip=true; return; }
    u16 a=ea(m); if(!rmw(lo,rd(a),r)){ L.skip=true; return; } if(lo!=13) wr(a,r); return; }
  if(hi>=8){
    int m=hi&3; bool ab=hi>=12; u32 &q=ab?B:A;
    switch(lo){
    case 0: q=sub8(q,op8(m),0); return; case 1: sub8(q,op8(m),0); return; case 2: q=sub8(q,op8(m),P&C); return;
    case 3:{ u16 v=op16(m); setD(ab?add16(D(),v):sub16(D(),v)); return; }
    case 4: q&=op8(m); logi(q); return; case 5: logi(q&op8(m)); return; case 6: q=op8(m); logi(q); return;
    case 7: if(m==IMM){ L.skip=true; return; } { u16 a=ea(m); logi(q); wr(a,q); return; }
    case 8: q^=op8(m); logi(q); return; case 9: q=add8(q,op8(m),P&C); return; case 10: q|=op8(m); logi(q); return; case 11: q=add8(q,op8(m),0); return;
    case 12: if(ab){ u16 v=op16(m); setD(v); logi16(v); } else sub16(X,op16(m)); return;
    case 13: if(ab){ if(m==IMM){ L.skip=true; return; } u16 a=ea(m); wr16(a,D()); logi16(D()); return; }
      if(m==IMM){ i8 o=f8(); push16(S,PC); PC=(PC+o)&0xffff; return; }
      { u16 a=ea(m); push16(S,PC); PC=a; return; }
    case 14:{ u16 v=op16(m); if(ab) Uu=v; else X=v; logi16(v); return; }
    case 15:{ if(m==IMM){ L.skip=true; return; } u16 a=ea(m), v=ab?Uu:X; wr16(a,v); logi16(v); return; } }
    return; }
  switch(op){
  case 0x12: return;
  case 0x16:{ u16 o=f16(); PC=(PC+o)&0xffff; return; }
  case 0x17:{ u16 o=f16(); push16(S,PC); PC=(PC+o)&0xffff; return; }
  case 0x19:{ u8 cf=0; bool c=P&C,h=P&H; u8 ms=A>>4,ls=A&15; if(ls>9||h) cf|=6; if(c||ms>9||(ms>8&&ls>9)) cf|=0x60; unsigned r=A+cf; A=r&0xff; nz8(A); sf(C,c||r>255); m_("CC")&=~(u32)V; return; }
  case 0x1a: P|=f8(); return; case 0x1c: P&=f8(); return;
  case 0x1d: A=(B&0x80)?0xff:0; nz16(D()); m_("CC")&=~(u32)V; return;
  case 0x1e: case 0x1f:{ u8 p=f8(); int s=p>>4,d=p&15; if(badr(s)||badr(d)||((s^d)&8)){ L.skip=true; return; } u32 a=getr(s),b=getr(d); setr(d,a); if(op==0x1e) setr(s,b); return; }
  case 0x30: case 0x31: case 0x32: case 0x33:{ u16 a=idx(); u32 *r[]={&X,&Y,&S,&Uu}; *r[op&3]=a; if(op<0x32) sf(Z,!a); return; }
  case 0x34: pshs(S,Uu,f8()); return; case 0x35: puls(S,Uu,f8()); return; case 0x36: pshs(Uu,S,f8()); return; case 0x37: puls(Uu,S,f8()); return;
  case 0x39: PC=pop16(S); return;
  case 0x3a: X=(X+B)&0xffff; return;
  case 0x3b: P=pop(S); if(P&E){ A=pop(S); B=pop(S); DP=pop(S); X=pop16(S); Y=pop16(S); Uu=pop16(S); } PC=pop16(S); return;
  case 0x3d:{ u32 d=A*B; setD(d); sf(Z,!d); sf(C,d&0x80); return; }
  case 0x3f: P|=E; pushall(); P|=I|F; PC=rd16(0xfffa); return; }
  L.skip=true; }
static void pageX(u8 pre,u8 op){
  int m=(op>>4)&3;
  if(pre==0x10){
    if(op>0x20&&op<0x30){ u16 o=f16(); if(cond(op&15)) PC=(PC+o)&0xffff; return; }
    if(op==0x3f){ P|=E; pushall(); PC=rd16(0xfff4); return; }
    if(op>=0x80&&op<0xc0) switch(op&15){ case 3: sub16(D(),op16(m)); return; case 12: sub16(Y,op16(m)); return; case 14: Y=op16(m); logi16(Y); return;
      case 15: if(m){ u16 a=ea(m); wr16(a,Y); logi16(Y); return; } }
    if(op>=0xc0) switch(op&15){ case 14: S=op16(m); logi16(S); return; case 15: if(m){ u16 a=ea(m); wr16(a,S); logi16(S); return; } }
  } else {
    if(op==0x3f){ P|=E; pushall(); PC=rd16(0xfff2); return; }
    if(op>=0x80&&op<0xc0) switch(op&15){ case 3: sub16(Uu,op16(m)); return; case 12: sub16(S,op16(m)); return; }
  }
  L.skip=true; }
static void step(){
  io=false; u8 op=f8();
  if(op==0x10||op==0x11){ u8 o2=f8(); L.opname=vfmt("%02x%02x",op,o2); pageX(op,o2); }
  else page0(op);
  if(io) L.skip=true; }
static cl_memory_cell *proxy8(u8_t *p){ cl_cell8 *c=new cl_cell8(); c->init(); c->decode(p); return c; }
static cl_memory_cell *proxy16(u16_t *p){ cl_cell16 *c=new cl_cell16(); c->init(); c->decode(p); return c; }
static void reg(const char *n,u32 *m,u32 mask,cl_memory_cell *c){ LReg r; r.name=n; r.c=c; r.m=m; r.mask=mask; L.regs.push_back(r); }
static bool armed= false; static int req= 0; static cl_memory_cell *rq[4];
static void pops(){ while (U->it_levels->count > 1) delete (it_level*)U->it_levels->pop(); }
static void irqstep(){
  bool isr= U->it_levels->count > 1; req= 0; for(int i=1;i<4;i++) rq[i]->write(0);
  if(!isr||g.chance(70)){ pops(); isr= false; if(g.chance(25)){ req= 1+g.below(3); rq[req]->write(1); } }
  if(isr&&g.chance(50)) L.M.poke(PC,0x3b);
  bool rti= L.M.r(PC)==0x3b, lds= L.M.r(PC)==0x10&&(L.M.r((PC+1)&0xffff)&0xcf)==0xce; step(); if(!L.skip&&lds) armed= true; if(L.skip){ pops(); for(int i=1;i<4;i++) rq[i]->write(0); return; }
  if(req&&!(m_("CC")&H)) { L.skip=true; pops(); for(int i=1;i<4;i++) rq[i]->write(0); return; }
  if(req==3&&!armed) vh_stat("nmi_unarmed",1);
  if(req&&(req==3?armed:!(P&(req==1?I:F)))){
    vh_stat(req==1?"irq":req==2?"firq":"nmi",1); L.opname+= vfmt(":%s",req==1?"irq":req==2?"firq":"nmi");
    if(req==2){ P&=~(u32)E; push16(S,PC); push(S,P); P|=I|F; PC=rd16(0xfff6); }
    else { P|=E; pushall(); P|=req==3?I|F:I; PC=rd16(req==1?0xfff8:0xfffc); } isr= true; }
  else if(rti) isr= false;
  if(io) L.skip= true;
  L.extra=[isr](std::string &w,std::string &d){ if((U->it_levels->count > 1)!=isr){ w+="+isr"; d+=vfmt(" interrupt service %d want %d",U->it_levels->count-1,isr); pops(); } return true; }; }
int vh_main(){
  if(vh_mode=="irq"){ L.keep= true; rq[1]=vh_var("IRQ"); rq[2]=vh_var("FIRQ"); rq[3]=vh_var("NMI"); }
  cl_m6809 *u=(cl_m6809*)U; L.nm="6809";
  reg("A",&A,0xff,proxy8(&u->reg.acc.a8.rA)); reg("B",&B,0xff,proxy8(&u->reg.acc.a8.rB)); reg("X",&X,0xffff,proxy16(&u->reg.X)); reg("Y",&Y,0xffff,proxy16(&u->reg.Y));
  reg("U",&Uu,0xffff,proxy16(&u->reg.U)); reg("S",&S,0xffff,proxy16(&u->reg.S)); reg("DP",&DP,0xff,proxy8(&u->reg.DP)); reg("CC",&P,0xff,proxy8(&u->reg.CC)); L.flagreg=7; L.pc=&PC;
  L.M.attach(U->rom,0x10000); Rng q(vh_seed+5); L.M.randomize(q,0,0xc000); L.M.randomize(q,0xc030,0x10000);
  static int op=q.below(1024);
  L.randst=[](){ A=g.b();B=g.b();X=(u16)g.next();Y=(u16)g.next();Uu=(u16)g.next();S=(u16)g.next();DP=g.b();P=g.b();
    if(g.chance(8)) X=g.chance(50)?g.below(3):0xffffu-g.below(2); if(g.chance(8)) S=g.chance(50)?g.below(3):0xffffu-g.below(2);
    if(g.chance(5)) A=g.chance(50)?0:0x80; if(g.chance(5)) B=g.chance(50)?0:0xff; do PC=g.chance(5)?0xfffc+g.below(4):(u16)g.next(); while(PC>0xbff8&&PC<0xc030); };
  L.putcode=[](u32 pc){ op=(op+1)&1023; u32 p=pc; if(pc>0xbff8&&pc<0xc030) return;
    if(op>=512){ static const u8 o10[]={0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x3f,0x83,0x93,0xa3,0xb3,0x8c,0x9c,0xac,0xbc,0x8e,0x9e,0xae,0xbe,0x9f,0xaf,0xbf,0xce,0xde,0xee,0xfe,0xdf,0xef,0xff},
        o11[]={0x3f,0x83,0x93,0xa3,0xb3,0x8c,0x9c,0xac,0xbc};
      if(op<896){ L.M.poke(p++,0x10); L.M.poke(p++,o10[op%sizeof o10]); } else { L.M.poke(p++,0x11); L.M.poke(p++,o11[op%sizeof o11]); } }
    else L.M.poke(p++,op&255);
    for(int i=0;i<3;i++){ u8 b=g.b(); if(g.chance(8)) b=g.chance(50)?0:0xff; L.M.poke((p+i)&0xffff,b); }
    if((op&255)>=0x1e&&(op&255)<=0x1f&&g.chance(80)){ int w=g.below(2)*8,k=w?4:6; L.M.poke(p,(w+g.below(k))<<4|(w+g.below(k))); } };
  L.code=[](){ return vfmt("%02x %02x %02x %02x %02x",L.M.r(PC),L.M.r(PC+1),L.M.r(PC+2),L.M.r(PC+3),L.M.r(PC+4)); };
  L.opkey=[]()->u64{ u8 o=L.M.r(PC); return o==0x10||o==0x11?o<<8|L.M.r(PC+1):o; };
  L.step=[](){ if(vh_mode=="irq") irqstep(); else step(); };
  L.fixup=[](){ ((cl_m6809*)U)->cwai=false; };
  L.run(); return 0; }
