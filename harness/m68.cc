// Lockstep reference model: MC6800, MC6801, MC68HC11.
// Written from the M6800 programming reference manual, the MC6801 reference manual and the M68HC11 reference manual.
#include "lock.h"
#include "m6800cl.h"
#undef A
#undef B
#undef D
#undef rA
#undef rB
#undef rX
#undef rSP
static Lock L; static Rng &g= L.g;
static u32 A,B,X,Y,S,P,PC; static int cpu; static bool dev, io;   // cpu 0: 6800, 1: 6801, 2: HC11
enum { C=1,V=2,Z=4,N=8,I=16,H=32 };
static void chk(u32 a){ if(dev&&a>=0x8000&&a<0x8040) io=true; }
static u8 rd(u32 a){ a&=0xffff; chk(a); return L.M.r(a); }
static void wr(u32 a,u8 v){ a&=0xffff; chk(a); L.M.w(a,v); }
static u8 f8(){ u8 v=rd(PC); PC=(PC+1)&0xffff; return v; }
static u16 f16(){ u8 h=f8(); return h<<8|f8(); }
static u16 rd16(u32 a){ u8 h=rd(a); return h<<8|rd(a+1); }
static void wr16(u32 a,u16 v){ wr(a,v>>8); wr(a+1,v); }
static void sf(u32 m,bool v){ P=v?P|m:P&~m; }
static void nz8(u8 v){ sf(N,v&0x80); sf(Z,!v); }
static void nz16(u16 v){ sf(N,v&0x8000); sf(Z,!v); }
static void push(u8 v){ wr(S,v); S=(S-1)&0xffff; }
static u8 pop(){ S=(S+1)&0xffff; return rd(S); }
static void push16(u16 v){ push(v); push(v>>8); }
static u16 pop16(){ u8 h=pop(); return h<<8|pop(); }
static u32 D(){ return A<<8|B; } static void setD(u16 v){ A=v>>8; B=v&0xff; }
static bool py;                       // index register of the prefix
static u32 &ix(){ return py?Y:X; }
static u32 &m_(const char *n){ for(auto &r:L.regs) if(!strcmp(r.name,n)) return r.mask; abort(); }
enum { IMM,DIR,IDX,EXT };
static u16 ea(int m){ switch(m){ case DIR: return f8(); case IDX: return ix()+f8(); case EXT: return f16(); } return 0; }
static u8 op8(int m){ return m==IMM?f8():rd(ea(m)); }
static u16 op16(int m){ return m==IMM?f16():rd16(ea(m)); }
static u8 sub8(u8 a,u8 b,int c){ unsigned r=a-b-c; u8 q=r; nz8(q); sf(C,r>255); sf(V,((a^b)&(a^q))&0x80); return q; }
static u8 add8(u8 a,u8 b,int c){ unsigned r=a+b+c; u8 q=r; nz8(q); sf(C,r>255); sf(V,(~(a^b)&(a^q))&0x80); sf(H,(a&15)+(b&15)+c>15); return q; }
static u16 sub16(u16 a,u16 b){ u16 q=a-b; nz16(q); sf(C,a<b); sf(V,((a^b)&(a^q))&0x8000); return q; }
static u16 add16(u16 a,u16 b){ unsigned r=a+b; u16 q=r; nz16(q); sf(C,r>0xffff); sf(V,(~(a^b)&(a^q))&0x8000); return q; }
static void logi(u8 v){ nz8(v); sf(V,0); }
static bool nc(){ return !(P&N)!=!(P&C); }
// single operand column operations; false: undefined code
static bool rmw(int op,u8 v,u8 &r){
  switch(op){
  case 0: r=-v; nz8(r); sf(C,r); sf(V,r==0x80); break;
  case 3: r=~v; nz8(r); sf(V,0); sf(C,1); break;
  case 4: r=v>>1; sf(C,v&1); nz8(r); sf(V,nc()); break;
  case 6: r=v>>1|(P&C)<<7; sf(C,v&1); nz8(r); sf(V,nc()); break;
  case 7: r=v>>1|(v&0x80); sf(C,v&1); nz8(r); sf(V,nc()); break;
  case 8: r=v<<1; sf(C,v&0x80); nz8(r); sf(V,nc()); break;
  case 9: r=v<<1|(P&C); sf(C,v&0x80); nz8(r); sf(V,nc()); break;
  case 10: r=v-1; nz8(r); sf(V,v==0x80); break;
  case 12: r=v+1; nz8(r); sf(V,v==0x7f); break;
  case 13: r=v; nz8(r); sf(V,0); sf(C,0); break;
  case 15: r=0; nz8(0); sf(V,0); sf(C,0); break;
  default: return false; }
  return true; }
static bool cond(int c){ bool n=P&N,z=P&Z,v=P&V,cy=P&C,r=true;
  switch(c>>1){ case 0:r=true;break;case 1:r=!(cy||z);break;case 2:r=!cy;break;case 3:r=!z;break;case 4:r=!v;break;case 5:r=!n;break;case 6:r=n==v;break;case 7:r=!(z||n!=v);break; }
  return r!=(c&1); }
static u8 ccb(){ return P|0xc0; }
static void setcc(u8 v){ P=v|0xc0; }
static void pushall(){ push16(PC); if(cpu==2) push16(Y); push16(X); push(A); push(B); push(ccb()); }
static void cp(u16 a,u16 b){ sub16(a,b); }
static void page1(u8 op);
static void pageY(u8 op){ // 18: index register Y
  py=true; 
  switch(op){
  case 0x08: Y=(Y+1)&0xffff; sf(Z,!Y); L.cyc=4; return; case 0x09: Y=(Y-1)&0xffff; sf(Z,!Y); L.cyc=4; return;
  case 0x30: Y=(S+1)&0xffff; L.cyc=4; return; case 0x35: S=(Y-1)&0xffff; L.cyc=4; return;
  case 0x38: Y=pop16(); L.cyc=6; return; case 0x3a: Y=(Y+B)&0xffff; L.cyc=4; return; case 0x3c: push16(Y); L.cyc=5; return;
  case 0x8f:{ u32 t=Y; Y=D(); setD(t); L.cyc=4; return; }
  case 0x8c: case 0x9c: case 0xac: case 0xbc:{ int m=(op>>4)&3; cp(Y,op16(m)); L.cyc=m==0?5:m==1?6:7; return; }
  case 0xce: case 0xde: case 0xee: case 0xfe:{ int m=(op>>4)&3; Y=op16(m); nz16(Y); sf(V,0); L.cyc=m==0?4:m==1?5:6; return; }
  case 0xdf: case 0xef: case 0xff:{ int m=(op>>4)&3; wr16(ea(m),Y); nz16(Y); sf(V,0); L.cyc=m==1?5:6; return; }
  case 0x1c: case 0x1d: case 0x1e: case 0x1f: page1(op); L.cyc=8; return; }
  if(op>>4==6||((op>>4==0xa||op>>4==0xe))){ if(op==0xec||op==0xed||op==0xe3||op==0xa3||op>>4==6||(op!=0xac&&op!=0xee&&op!=0xef&&op!=0xec)){ page1(op); if(!L.skip) L.cyc++; return; } }
  L.skip=true; }
static void page1(u8 op){
  int hi=op>>4, lo=op&15;
  if(hi==2){ if(cpu==0&&op==0x21){ L.skip=true; return; } i8 o=f8(); if(cond(lo)) PC=(PC+o)&0xffff; L.cyc=cpu?3:4; return; }
  if(hi>=4&&hi<=7){
    int m=hi==6?IDX:EXT; u8 r;
    if(hi>=6&&lo==14){ PC=ea(m); L.cyc=hi==6?(cpu?3:4):3; return; }
    if(hi<6){ u32 &q=hi==4?A:B; if(!rmw(lo,q,r)){ L.skip=true; return; } q=r; L.cyc=2; return; }
    u16 a=ea(m); if(!rmw(lo,rd(a),r)){ L.skip=true; return; } if(lo!=13) wr(a,r); L.cyc=hi==6?(cpu?6:7):6; return; }
  if(hi>=8){
    int m=hi&3; bool ab=hi>=12; u32 &q=ab?B:A; static const int c8[2][4]={{2,3,5,4},{2,3,4,4}}; int c=c8[cpu>0][m];
    L.cyc=c;
    switch(lo){
    case 0: q=sub8(q,op8(m),0); return; case 1: sub8(q,op8(m),0); return; case 2: q=sub8(q,op8(m),P&C); return;
    case 4: q&=op8(m); logi(q); return; case 5: logi(q&op8(m)); return; case 6: q=op8(m); logi(q); return;
    case 7: if(m==IMM){ L.skip=true; return; } logi(q); wr(ea(m),q); L.cyc=cpu?c:c+1; return;
    case 8: q^=op8(m); logi(q); return; case 9: q=add8(q,op8(m),P&C); return; case 10: q|=op8(m); logi(q); return; case 11: q=add8(q,op8(m),0); return;
    case 3: if(!cpu){ L.skip=true; return; } { u16 v=op16(m); setD(ab?add16(D(),v):sub16(D(),v)); L.cyc=c+2; return; }
    case 12: if(ab){ if(!cpu){ L.skip=true; return; } u16 v=op16(m); setD(v); nz16(v); sf(V,0); L.cyc=c+1; return; }
      { u32 oc=P&C; cp(X,op16(m)); if(!cpu){ P=(P&~C)|oc; m_("CC")&=~(u32)(N|V); L.cyc=c+1; } else L.cyc=c+2; return; }
    case 13: if(ab){ if(!cpu||m==IMM){ L.skip=true; return; } u16 a=ea(m); wr16(a,D()); nz16(D()); sf(V,0); L.cyc=c+1; return; }
      if(m==IMM){ i8 o=f8(); push16(PC); PC=(PC+o)&0xffff; L.cyc=cpu?6:8; return; }
      if(m==DIR&&!cpu){ L.skip=true; return; }
      { u16 a=ea(m); push16(PC); PC=a; static const int jc[2][4]={{0,0,8,9},{0,5,6,6}}; L.cyc=jc[cpu>0][m]; return; }
    case 14:{ u16 v=op16(m); if(ab) X=v; else S=v; nz16(v); sf(V,0); L.cyc=c+1; return; }
    case 15:{ if(m==IMM){ if(op==0x8f&&cpu==2){ u32 t=X; X=D(); setD(t); L.cyc=3; return; } L.skip=true; return; }
      u16 a=ea(m), v=ab?X:S; wr16(a,v); nz16(v); sf(V,0); L.cyc=cpu?c+1:c+2; return; } }
    L.skip=true; return; }
  L.cyc=2;
  switch(op){
  case 0x01: return;
  case 0x02: if(cpu<2) break; { u32 d=D(); sf(V,0); L.cyc=41; if(!X){ X=0xffff; sf(C,1); sf(Z,0); m_("A")=m_("B")=m_("D")=0; return; } sf(C,0); u32 q=d/X,r=d%X; X=q; setD(r); sf(Z,!q); return; }
  case 0x03: if(cpu<2) break; { u32 d=D(); L.cyc=41; sf(V,X<=d); sf(C,!X); if(X<=d){ X=0xffff; sf(Z,0); m_("A")=m_("B")=m_("D")=0; return; } u32 q=(d<<16)/X,r=(d<<16)%X; X=q; setD(r); sf(Z,!q); return; }
  case 0x04: if(!cpu) break; { u32 d=D(); sf(C,d&1); d>>=1; setD(d); nz16(d); sf(V,nc()); L.cyc=3; return; }
  case 0x05: if(!cpu) break; { u32 d=D(); sf(C,d&0x8000); d=(d<<1)&0xffff; setD(d); nz16(d); sf(V,nc()); L.cyc=3; return; }
  case 0x06: setcc(A); return; case 0x07: A=ccb(); return;
  case 0x08: X=(X+1)&0xffff; sf(Z,!X); L.cyc=cpu?3:4; return; case 0x09: X=(X-1)&0xffff; sf(Z,!X); L.cyc=cpu?3:4; return;
  case 0x0a: sf(V,0); return; case 0x0b: sf(V,1); return; case 0x0c: sf(C,0); return; case 0x0d: sf(C,1); return; case 0x0e: sf(I,0); return; case 0x0f: sf(I,1); return;
  case 0x10: A=sub8(A,B,0); return; case 0x11: sub8(A,B,0); return;
  case 0x16: B=A; logi(B); return; case 0x17: A=B; logi(A); return;
  case 0x19:{ u8 cf=0; bool c=P&C,h=P&H; u8 ms=A>>4,ls=A&15; 
    if(ls>9||h) cf|=6; if(c||ms>9||(ms>8&&ls>9)) cf|=0x60; unsigned r=A+cf; A=r&0xff; nz8(A); sf(C,c||r>255); m_("CC")&=~(u32)V; return; }
  case 0x1b: A=add8(A,B,0); return;
  case 0x12: case 0x13: case 0x14: case 0x15: case 0x1c: case 0x1d: case 0x1e: case 0x1f: if(cpu<2) break; {
    int m=(op&8)?IDX:DIR; u16 a=ea(m); u8 v=rd(a), k=f8(); L.cyc=(op&8)?7:6;
    if(!(op&2)){ u8 r=(op&1)?v&~k:v|k; wr(a,r); logi(r); return; }
    i8 o=f8(); if((op&1)?!(v&k):!(~v&k)) PC=(PC+o)&0xffff; return; }
  case 0x30: X=(S+1)&0xffff; L.cyc=cpu?3:4; return; case 0x31: S=(S+1)&0xffff; L.cyc=cpu?3:4; return;
  case 0x32: A=pop(); L.cyc=4; return; case 0x33: B=pop(); L.cyc=4; return;
  case 0x34: S=(S-1)&0xffff; L.cyc=cpu?3:4; return; case 0x35: S=(X-1)&0xffff; L.cyc=cpu?3:4; return;
  case 0x36: push(A); L.cyc=cpu?3:4; return; case 0x37: push(B); L.cyc=cpu?3:4; return;
  case 0x38: if(!cpu) break; X=pop16(); L.cyc=5; return;
  case 0x39: PC=pop16(); L.cyc=5; return;
  case 0x3a: if(!cpu) break; X=(X+B)&0xffff; L.cyc=3; return;
  case 0x3b: setcc(pop()); B=pop(); A=pop(); X=pop16(); if(cpu==2) Y=pop16(); PC=pop16(); L.cyc=cpu==2?12:10; return;
  case 0x3c: if(!cpu) break; push16(X); L.cyc=4; return;
  case 0x3d: if(!cpu) break; { u32 d=A*B; setD(d); sf(C,d&0x80); L.cyc=10; return; }
  case 0x3e: pushall(); L.cyc=cpu==2?14:9; return;
  case 0x3f: pushall(); sf(I,1); PC=rd16(0xfffa); L.cyc=cpu==2?14:12; return; }
  L.skip=true; }
static void step(){
  io=py=false; u8 op=f8();
  if(cpu==2&&(op==0x18||op==0x1a||op==0xcd)){ u8 o2=f8(); L.opname=vfmt("%02x%02x",op,o2);
    if(op==0x18) pageY(o2);
    else if(op==0x1a) switch(o2){
      case 0x83: case 0x93: case 0xa3: case 0xb3:{ int m=(o2>>4)&3; cp(D(),op16(m)); L.cyc=m==0?5:m==1?6:7; break; }
      case 0xac: cp(Y,op16(IDX)); L.cyc=7; break;
      case 0xee: Y=op16(IDX); nz16(Y); sf(V,0); L.cyc=6; break;
      case 0xef: wr16(ea(IDX),Y); nz16(Y); sf(V,0); L.cyc=6; break;
      default: L.skip=true; }
    else { py=true; switch(o2){
      case 0xa3: cp(D(),op16(IDX)); L.cyc=7; break;
      case 0xac: cp(X,op16(IDX)); L.cyc=7; break;
      case 0xee: X=op16(IDX); nz16(X); sf(V,0); L.cyc=6; break;
      case 0xef: wr16(ea(IDX),X); nz16(X); sf(V,0); L.cyc=6; break;
      default: L.skip=true; } } }
  else page1(op);
  if(io) L.skip=true; }
int vh_main(){
  std::string id=U->id_string(); cpu=id=="M6800"?0:id=="M6801"?1:2; dev=true; L.nm=cpu==0?"6800":cpu==1?"6801":"HC11";
  L.reg("A",&A,0xff); L.reg("B",&B,0xff); L.reg("X",&X,0xffff,"IX"); if(cpu==2) L.reg("Y",&Y,0xffff,"IY"); L.reg("SP",&S,0xffff); L.reg("CC",&P,0x3f); L.flagreg=cpu==2?5:4; L.pc=&PC;
  static u32 dd; if(cpu){ L.reg("D",&dd,0xffff); }
  L.M.attach(U->rom,0x10000); Rng q(vh_seed+5); L.M.randomize(q,0,0x8000); L.M.randomize(q,0x8040,0x10000);
  static int op=q.below(1024);
  L.randst=[](){ A=g.b();B=g.b();X=(u16)g.next();Y=(u16)g.next();S=(u16)g.next();P=0xc0|(g.next()&0x3f); 
    if(g.chance(10)) X=g.chance(50)?g.below(3):0xffffu-g.below(2); if(g.chance(10)) S=g.chance(50)?g.below(3):0xffffu-g.below(2);
    if(g.chance(5)) A=g.chance(50)?0:0x80; if(g.chance(5)) B=g.chance(50)?0:0xff; dd=D();
    do PC=g.chance(5)?0xfffc+g.below(4):(u16)g.next(); while(dev&&PC>0x7ff8&&PC<0x8040); };
  L.putcode=[](u32 pc){ op=(op+1)&1023; u32 p=pc; if(dev&&pc>0x7ff8&&pc<0x8040) return; 
    if(cpu==2&&op>=256&&op<768){ static const u8 o1a[]={0x83,0x93,0xa3,0xb3,0xac,0xee,0xef}, ocd[]={0xa3,0xac,0xee,0xef};
      if(op<512){ L.M.poke(p++,0x18); L.M.poke(p++,op); }
      else if(op<640){ L.M.poke(p++,0x1a); L.M.poke(p++,o1a[op%7]); } else { L.M.poke(p++,0xcd); L.M.poke(p++,ocd[op&3]); } }
    else L.M.poke(p++,op&255);
    for(int i=0;i<3;i++){ u8 b=g.b(); if(g.chance(8)) b=g.chance(50)?0:0xff; u32 a=(p+i)&0xffff; if(dev&&a>=0x8000&&a<0x8040) return; L.M.poke(a,b); } };
  L.code=[](){ return vfmt("%02x %02x %02x %02x %02x",L.M.r(PC),L.M.r(PC+1),L.M.r(PC+2),L.M.r(PC+3),L.M.r(PC+4)); };
  L.opkey=[]()->u64{ u8 o=L.M.r(PC); return cpu==2&&(o==0x18||o==0x1a||o==0xcd)?o<<8|L.M.r(PC+1):o; };
  L.step=[](){ step(); dd=D(); }; 
  L.fixup=[](){ ((cl_m6800*)U)->wai=false; };   // a real WAI would go on waiting
  L.run(); return 0; }
