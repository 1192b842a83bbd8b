// Lockstep reference model: STM8. Written from the STM8 CPU programming manual (PM0044).
#include "lock.h"
#include "stm8cl.h"
static Lock L; static Rng &g= L.g;
static u32 A,X,Y,S,P,PC;
enum { C=1,Z=2,N=4,I0=8,H=16,I1=32,V=128 };
static u8 rd(u32 a){ if(!(a<0x1800||(a>=0x8000&&a<0x28000))){ L.skip=true; return 0; } return L.M.r(a); }
static void wr(u32 a,u8 v){ if(a>=0x1800){ L.skip=true; return; } L.M.w(a,v); }
static u8 f8(){ u8 v=rd(PC); PC++; return v; }
static u16 f16(){ u8 h=f8(); return h<<8|f8(); }
static u32 f24(){ u32 h=f8(); return h<<16|f16(); }
static u16 rd16(u32 a){ u8 h=rd(a); return h<<8|rd(a+1); }
static u32 rd24(u32 a){ u32 h=rd(a); return h<<16|rd16(a+1); }
static void wr16(u32 a,u16 v){ wr(a,v>>8); wr(a+1,v); }
static void sf(u32 m,bool v){ P=v?P|m:P&~m; }
static void nz(u8 v){ sf(N,v&0x80); sf(Z,!v); }
static void nzw(u16 v){ sf(N,v&0x8000); sf(Z,!v); }
static void lim(){ if(S<=((cl_stm8*)U)->sp_limit||S>0x17ff) L.skip=true; }
static void push(u8 v){ wr(S,v); S--; lim(); }
static u8 pop(){ S++; lim(); return rd(S); }
static void push16(u16 v){ push(v); push(v>>8); }
static u16 pop16(){ u8 h=pop(); return h<<8|pop(); }
static u8 add(u8 a,u8 b,int c){ unsigned r=a+b+c; u8 q=r; nz(q); sf(C,r>255); sf(V,~(a^b)&(a^q)&0x80); sf(H,(a&15)+(b&15)+c>15); return q; }
static u8 sub(u8 a,u8 b,int c){ int r=a-b-c; u8 q=r; nz(q); sf(C,r<0); sf(V,(a^b)&(a^q)&0x80); return q; }
static u16 addw(u16 a,u16 b){ unsigned r=a+b; u16 q=r; nzw(q); sf(C,r>0xffff); sf(V,~(a^b)&(a^q)&0x8000); sf(H,(a&255)+(b&255)>255); return q; }
static u16 subw(u16 a,u16 b,bool h){ u16 q=a-b; nzw(q); sf(C,a<b); sf(V,(a^b)&(a^q)&0x8000); if(h) sf(H,(a&255)<(b&255)); return q; }
// effective address of the B..F columns and of 1x; false: not a documented combination
static bool ea(int pre,int hi,u32 &a){
  switch(hi){
  case 1: if(pre) return false; a=S+f8(); return true;
  case 0xb: if(pre) return false; a=f8(); return true;
  case 0xc: if(pre==0){ a=f16(); return true; } if(pre==0x92){ a=rd16(f8()); return true; } if(pre==0x72){ a=rd16(f16()); return true; } return false;
  case 0xd: if(pre==0){ a=f16(); a+=X; return true; } if(pre==0x90){ a=f16(); a+=Y; return true; } if(pre==0x92){ a=rd16(f8()); a+=X; return true; }
    if(pre==0x72){ a=rd16(f16()); a+=X; return true; } if(pre==0x91){ a=rd16(f8()); a+=Y; return true; } return false;
  case 0xe: if(pre==0){ a=f8(); a+=X; return true; } if(pre==0x90){ a=f8(); a+=Y; return true; } return false;
  case 0xf: if(pre==0){ a=X; return true; } if(pre==0x90){ a=Y; return true; } return false; }
  return false; }
static bool rmwea(int pre,int hi,u32 &a){
  switch(hi){
  case 0: if(pre) return false; a=S+f8(); return true;
  case 3: if(pre==0){ a=f8(); return true; } if(pre==0x92){ a=rd16(f8()); return true; } if(pre==0x72){ a=rd16(f16()); return true; } return false;
  case 4: if(pre==0x72){ a=f16(); a+=X; return true; } if(pre==0x90){ a=f16(); a+=Y; return true; } return false;
  case 5: if(pre==0x72){ a=f16(); return true; } return false;
  case 6: if(pre==0){ a=f8(); a+=X; return true; } if(pre==0x90){ a=f8(); a+=Y; return true; } if(pre==0x92){ a=rd16(f8()); a+=X; return true; }
    if(pre==0x72){ a=rd16(f16()); a+=X; return true; } if(pre==0x91){ a=rd16(f8()); a+=Y; return true; } return false;
  case 7: if(pre==0){ a=X; return true; } if(pre==0x90){ a=Y; return true; } return false; }
  return false; }
// read-modify-write operation on w bits
static u32 rmw(int op,u32 v,int w){
  u32 m=w==8?0xff:0xffff, top=w==8?0x80:0x8000, r=v; bool c=P&C;
  switch(op){
  case 0: r=(0-v)&m; sf(C,r); sf(V,r==top); break;
  case 3: r=~v&m; sf(C,1); break;
  case 4: r=v>>1; sf(C,v&1); break;
  case 6: r=v>>1|(c?top:0); sf(C,v&1); break;
  case 7: r=v>>1|(v&top); sf(C,v&1); break;
  case 8: r=(v<<1)&m; sf(C,v&top); break;
  case 9: r=((v<<1)|c)&m; sf(C,v&top); break;
  case 10: r=(v-1)&m; sf(V,v==top); break;
  case 12: r=(v+1)&m; sf(V,r==top); break;
  case 13: break;
  case 14: r=w==8?(v>>4|v<<4)&m:(v>>8|v<<8)&m; break;
  case 15: r=0; break;
  default: L.skip=true; }
  sf(N,r&top); sf(Z,!r); return r; }
static bool cond(int n){ bool c=P&C,z=P&Z,nn=P&N,v=P&V,r; switch(n>>1){ case 0: r=true; break; case 1: r=!c&&!z; break; case 2: r=!c; break; case 3: r=!z; break; case 4: r=!v; break; case 5: r=!nn; break; case 6: r=!z&&nn==v; break; default: r=nn==v; } return r!=(n&1); }
static u32 &mk(const char *n){ for(auto &r:L.regs) if(!strcmp(r.name,n)) return r.mask; abort(); }
static void far(u32 a){ if(a>=0x28000) L.skip=true; PC=a; }
static u32 pc0; static void near_(u32 a){ if((PC^pc0)&~0xffffu) L.skip=true; if(a>0xffff) L.skip=true; PC=(PC&~0xffffu)|(a&0xffff); }
static void interrupt(u32 at,int i){ push16(PC); push(PC>>16); push16(Y); push16(X); push(A); push(P); sf(I1,i&2); sf(I0,i&1); PC=at; }
#define BAD do{ L.skip=true; return; }while(0)
static void step(){
  u8 op=f8(); int pre=0; if(op==0x72||op==0x90||op==0x91||op==0x92){ pre=op; op=f8(); }
  int hi=op>>4,lo=op&15; u32 a; u32 &IX=pre==0x90?Y:X;
  if(pre==0x72){
    if(hi==0){ a=f16(); u8 v=rd(a); i8 o=f8(); bool b=(v>>(lo>>1))&1; sf(C,b); if(b==!(lo&1)) PC+=o; return; }
    if(hi==1){ a=f16(); u8 v=rd(a); wr(a,lo&1?v&~(1<<(lo>>1)):v|1<<(lo>>1)); return; }
    switch(op){ case 0xbb: X=addw(X,rd16(f16())); return; case 0xfb: X=addw(X,rd16(S+f8())); return; case 0xa9: Y=addw(Y,f16()); return; case 0xb9: Y=addw(Y,rd16(f16())); return; case 0xf9: Y=addw(Y,rd16(S+f8())); return;
      case 0xb0: X=subw(X,rd16(f16()),true); return; case 0xf0: X=subw(X,rd16(S+f8()),true); return; case 0xa2: Y=subw(Y,f16(),true); return; case 0xb2: Y=subw(Y,rd16(f16()),true); return; case 0xf2: Y=subw(Y,rd16(S+f8()),true); return; } }
  if(pre==0x90&&hi==1){ a=f16(); u8 v=rd(a), b=1<<(lo>>1); wr(a,lo&1?(P&C?v|b:v&~b):v^b); return; }
  if(hi==2){ if(pre==0){ i8 o=f8(); if(cond(lo)) PC+=o; return; }
    if(pre==0x90){ i8 o; bool t; switch(lo){ case 8: t=!(P&H); break; case 9: t=P&H; break; case 0xc: t=!((P&I0)&&(P&I1)); break; case 0xd: t=(P&I0)&&(P&I1); break; default: BAD; } o=f8(); if(t) PC+=o; return; } BAD; }
  if(hi==8){
    bool xy=op==0x85||op==0x89; if(pre&&!(pre==0x90&&xy)&&!(pre==0x92&&op==0x8d)) BAD;
    switch(op){
    case 0x80: P=pop(); A=pop(); X=pop16(); Y=pop16(); a=pop(); a=a<<16|pop16(); far(a); return;
    case 0x81: near_(pop16()); return;
    case 0x82: far(f24()); return;
    case 0x83: interrupt(0x8004,3); return;
    case 0x84: A=pop(); return; case 0x85: IX=pop16(); return; case 0x86: P=pop(); return;
    case 0x87: a=pop(); a=a<<16|pop16(); far(a); return;
    case 0x88: push(A); return; case 0x89: push16(IX); return; case 0x8a: push(P); return;
    case 0x8c: P^=C; return;
    case 0x8d: if(pre) a=rd24(f16()); else a=f24(); push16(PC); push(PC>>16); far(a); return;
    } BAD; }
  if(hi==9){
    if(pre&&pre!=0x90) BAD;
    switch(op){ case 0x93: if(pre) Y=X; else X=Y; return; case 0x94: S=IX; lim(); return; case 0x95: IX=(IX&0xff)|A<<8; return; case 0x96: IX=S; return; case 0x97: IX=(IX&0xff00)|A; return;
      case 0x9e: A=IX>>8; return; case 0x9f: A=IX&0xff; return; }
    if(pre) BAD;
    switch(op){ case 0x98: P&=~(u32)C; return; case 0x99: P|=C; return; case 0x9a: sf(I1,1); sf(I0,0); return; case 0x9b: P|=I0|I1; return; case 0x9c: P&=~(u32)V; return; case 0x9d: return; } BAD; }
  switch(op){                                   // irregular places of the regular columns
  case 0x01: case 0x02: if(pre&&pre!=0x90) BAD; if(op==1){ u32 t=IX; IX=IX>>8|A<<8; A=t&0xff; } else { u32 t=IX; IX=(IX<<8|A)&0xffff; A=t>>8; } nzw(IX); return;
  case 0x42: if(pre&&pre!=0x90) BAD; IX=(IX&0xff)*A; sf(H,0); sf(C,0); return;
  case 0x62: if(pre&&pre!=0x90) BAD; sf(V,0); sf(H,0); sf(N,0); if(!A){ sf(C,1); mk("A")=0; mk(pre?"Y":"X")=0; mk("CC")&=~(u32)Z; } else { u32 q=IX/A,r=IX%A; IX=q; A=r; sf(Z,!q); sf(C,0); } return; }
  if(pre==0) switch(op){
  case 0x31:{ a=f16(); u8 t=rd(a); wr(a,A); A=t; return; }
  case 0x41:{ u8 t=X; X=(X&0xff00)|A; A=t; return; } case 0x51: std::swap(X,Y); return; case 0x61:{ u8 t=Y; Y=(Y&0xff00)|A; A=t; return; }
  case 0x32:{ a=f16(); u8 v=pop(); wr(a,v); return; }
  case 0x52: S=(S-f8())&0xffff; lim(); return; case 0x5b: S=(S+f8())&0xffff; lim(); return;
  case 0x65: sf(V,0); sf(H,0); sf(N,0); if(!Y){ sf(C,1); mk("X")=mk("Y")=0; mk("CC")&=~(u32)Z; } else { u32 q=X/Y,r=X%Y; X=q; Y=r; sf(Z,!q); sf(C,0); } return;
  case 0x35:{ u8 v=f8(); wr(f16(),v); return; } case 0x45:{ u8 s=f8(); u8 v=rd(s); wr(f8(),v); return; } case 0x55:{ u16 s=f16(); u8 v=rd(s); wr(f16(),v); return; }
  case 0x3b: push(rd(f16())); return; case 0x4b: push(f8()); return;
  case 0x6b: a=S+f8(); wr(a,A); nz(A); return; case 0x7b: A=rd(S+f8()); nz(A); return;
  case 0x1c: X=addw(X,f16()); return; case 0x1d: X=subw(X,f16(),true); return;
  case 0x16: Y=rd16(S+f8()); nzw(Y); return; case 0x17: a=S+f8(); wr16(a,Y); nzw(Y); return; case 0x1e: X=rd16(S+f8()); nzw(X); return; case 0x1f: a=S+f8(); wr16(a,X); nzw(X); return;
  case 0x13: X=subw(X,rd16(S+f8()),false),0; return; }
  if(lo==1||lo==2||lo==5||lo==11){ if(hi<0xa&&hi!=1) BAD; }
  if(hi==0||(hi>=3&&hi<=7)){
    if(hi==4&&pre==0){ A=rmw(lo,A,8); return; }
    if(hi==5&&(pre==0||pre==0x90)){ IX=rmw(lo,IX,16); return; }
    if(!rmwea(pre,hi,a)) BAD; u8 v=lo==15?0:rd(a); u8 r=rmw(lo,v,8); if(lo!=13) wr(a,r); return; }
  if(hi==0xa&&(lo==3||lo==14)){ if(pre&&pre!=0x90) BAD; u16 v=f16(); if(lo==3) subw(IX,v,false); else { IX=v; nzw(v); } return; }
  if(op==0xad&&!pre){ i8 o=f8(); push16(PC); PC+=o; return; }
  if(op==0xac){ if(pre==0) a=f24(); else if(pre==0x92) a=rd24(f16()); else BAD; far(a); return; }
  if(op==0xbc||op==0xbd){ if(pre==0) a=f24(); else if(pre==0x92) a=rd24(f16()); else BAD; if(op==0xbc) A=rd(a); else wr(a,A); nz(A); return; }
  if(op==0xa7||op==0xaf){ if(pre==0||pre==0x90) a=f24()+IX; else if(pre==0x92) a=rd24(f16())+X; else if(pre==0x91) a=rd24(f16())+Y; else BAD; if(a>0xffffff) BAD; if(op==0xaf) A=rd(a); else wr(a,A); nz(A); return; }
  if(lo==3&&hi>=0xb){                            // CPW: the indexed forms compare the other index register
    bool y; if(hi<=0xc){ y=pre==0x90||pre==0x91; if(hi==0xb){ if(pre&&pre!=0x90) BAD; a=f8(); } else { if(pre==0||pre==0x90) a=f16(); else if(pre==0x92||pre==0x91) a=rd16(f8()); else a=rd16(f16()); } }
    else { if(!ea(pre,hi,a)) BAD; y=pre!=0x90&&pre!=0x91; }
    subw(y?Y:X,rd16(a),false); return; }
  if((lo==14||lo==15)&&hi>=0xb){                 // LDW
    bool y; if(hi<=0xc){ y=pre==0x90||pre==0x91; if(hi==0xb){ if(pre&&pre!=0x90) BAD; a=f8(); } else { if(pre==0||pre==0x90) a=f16(); else if(pre==0x92||pre==0x91) a=rd16(f8()); else a=rd16(f16()); } if(lo==15){ u16 v=y?Y:X; wr16(a,v); nzw(v); return; } }
    else { if(!ea(pre,hi,a)) BAD; y=pre==0x90||pre==0x91; if(lo==15){ u16 v=y?X:Y; wr16(a,v); nzw(v); return; } }
    u16 v=rd16(a); (y?Y:X)=v; nzw(v); return; }
  if(lo==12&&hi>=0xc){ if(!ea(pre,hi,a)) BAD; near_(a); return; }
  if(lo==13&&hi>=0xc){ if(!ea(pre,hi,a)) BAD; push16(PC); near_(a); return; }
  if(lo==7&&hi>=0xb){ if(!ea(pre,hi,a)) BAD; wr(a,A); nz(A); return; }
  if(lo==3||lo==7||lo==12||lo==13||lo==14||lo==15) BAD;
  if(lo==6&&hi==1) BAD;
  u8 v; if(hi==0xa){ if(pre) BAD; v=f8(); } else { if(!ea(pre,hi,a)) BAD; v=rd(a); }
  switch(lo){ case 0: A=sub(A,v,0); return; case 1: sub(A,v,0); return; case 2: A=sub(A,v,P&C); return; case 4: A&=v; nz(A); return; case 5: nz(A&v); return; case 6: A=v; nz(A); return; case 8: A^=v; nz(A); return;
    case 9: A=add(A,v,P&C); return; case 10: A|=v; nz(A); return; case 11: A=add(A,v,0); return; }
  BAD; }
static void stepc(){ pc0=PC; u8 op=L.M.r(PC); bool cpsp=op==0x13; u32 x=X; step(); if(cpsp) X=x; if(PC<0x8000||PC>0x27ff0) { if(PC>=0x1700) L.skip=true; } }
int vh_main(){
  L.nm="STM8"; U->do_inst(); U->rom->set_cell_flag(0x8000,0x27fff,false,CELL_READ_ONLY);   // the monitor places code in flash
  L.reg("A",&A,0xff); L.reg("X",&X,0xffff); L.reg("Y",&Y,0xffff); L.reg("SP",&S,0xffff); L.reg("CC",&P,0xbf); L.flagreg=4; L.pc=&PC;
  L.M.attach(U->rom,0x28000); Rng q(vh_seed+5); L.M.randomize(q,0,0x1800); L.M.randomize(q,0x8000,0x28000);
  static int op=q.below(1280);
  L.randst=[](){ A=g.b(); X=(u16)g.next(); Y=(u16)g.next(); if(g.chance(70)) X=g.below(0x1700); if(g.chance(70)) Y=g.below(0x1700); S=0x17ff-g.below(0x300); if(g.chance(5)) S=0x17ff-g.below(4); P=g.next()&0xbf;
    if(g.chance(4)) X=g.chance(50)?0:0x8000-g.below(2); if(g.chance(4)) Y=g.chance(50)?0:0xffff; if(g.chance(5)) A=g.chance(50)?0:0x80; if(g.chance(3)) A=0x7f;
    PC=g.chance(15)?0x100+g.below(0x1000):g.chance(5)?0x10000-g.below(6):0x8000+g.below(0x1fff0); };
  L.putcode=[](u32 pc){ op=(op+1)%1280; if(op>=1024&&op<1280&&0) return; static const u8 pf[]={0,0x72,0x90,0x91,0x92}; u8 o=op&255; int pr=pf[op>>8]; if(!pr&&(o==0x72||(o>=0x90&&o<0x93))) o=0x13;
    u32 p=pc; if(pr) L.M.poke(p++,pr); L.M.poke(p++,o);
    for(int i=0;i<4;i++){ u8 b=g.b(); if(g.chance(8)) b=g.chance(50)?0:0xff; L.M.poke(p+i,b); }
    // direct addresses and pointers mostly into RAM
    int hi=o>>4; bool ext=o==0x82||o==0x8d||o==0xac||o==0xbc||o==0xbd||o==0xa7||o==0xaf;
    if(ext&&!pr) { L.M.poke(p,g.below(3)); if(L.M.r(p)==0) L.M.poke(p+1,g.chance(60)?g.below(0x17):0x80|g.b()); }
    else if(g.chance(75)){ if(hi>=0xa&&!(o==0xae||o==0xa3)) L.M.poke(p,g.chance(80)?g.below(0x17):0x80|g.b()); else if((hi==1||hi==0)&&pr) L.M.poke(p,g.below(0x17)); else if(hi==4||hi==5||hi==3) L.M.poke(p,g.below(0x17)); else if(o==0x55) L.M.poke(p+2,g.below(0x17)); }
    if(o==0x35&&g.chance(80)) L.M.poke(p+1,g.below(0x17));
    if(pr==0x92||pr==0x91||(pr==0x72&&(hi==3||hi>=0xc||hi==6))){ u32 q=ext||pr==0x72?L.M.r(p)<<8|L.M.r(p+1):L.M.r(p);
      if(q<0x1800-3||q>=0x8000){ if(ext){ L.M.poke(q,g.below(3)); L.M.poke(q+1,L.M.r(q)?g.b():g.chance(60)?g.below(0x17):0x80|g.b()); } else L.M.poke(q,g.chance(70)?g.below(0x16):g.b()); } }
    if((o==0x80||o==0x87)&&!pr&&S<0x17f0){ u32 s=S+(o==0x80?7:1); L.M.poke(s,g.below(3)); if(!L.M.r(s)) L.M.poke(s+1,0x80|g.b()); } };
  L.code=[](){ return vfmt("%02x %02x %02x %02x %02x",L.M.r(PC),L.M.r(PC+1),L.M.r(PC+2),L.M.r(PC+3),L.M.r(PC+4)); };
  L.opkey=[]()->u64{ u8 o=L.M.r(PC); return o==0x72||(o>=0x90&&o<0x93)?o<<8|L.M.r(PC+1):o; };
  L.step=stepc;
  L.run(); return 0; }
