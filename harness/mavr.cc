// Lockstep reference model: AVR (device with 16 bit program counter). Written from the AVR instruction set manual.
#include "lock.h"
static Lock L; static Rng &g= L.g; static Shadow RM;
static u32 PC;
enum { C=1,Z=2,N=4,V=8,S=16,H=32,T=64,I=128 }; enum { SPL=0x5d,SPH=0x5e,SREG=0x5f };
static u8 r(u32 a){ return RM.r(a); } static void w(u32 a,u8 v){ RM.w(a&0xffff,v); }
static u16 rw(u32 a){ return r(a)|r(a+1)<<8; } static void ww(u32 a,u16 v){ w(a,v); w(a+1,v>>8); }
static u8 P(){ return r(SREG); } static void sf(u32 m,bool v){ w(SREG,v?P()|m:P()&~m); }
static void nzs(u8 v,bool o){ sf(V,o); sf(N,v&0x80); sf(Z,!v); sf(S,!(v&0x80)!=!o); }
static u16 SP(){ return rw(SPL); } static void setSP(u16 v){ ww(SPL,v); }
static void push(u8 v){ u16 s=SP(); w(s,v); if(s>=SPL&&s<=SREG) L.skip=true; setSP(s-1); }
static u8 pop(){ u16 s=SP()+1; setSP(s); if(s>=SPL&&s<=SREG) L.skip=true; return r(s); }
static void pushpc(){ push(PC>>8); push(PC); }         // byte order in memory is this simulator's, the manual does not define it
static u16 poppc(){ u8 l=pop(); return l|pop()<<8; }
static u16 f(){ u16 v=L.M.r(PC); PC=(PC+1)&0xffff; return v; }
static u8 add(u8 a,u8 b,int c){ unsigned x=a+b+c; u8 q=x; sf(H,(a&15)+(b&15)+c>15); sf(C,x>255); nzs(q,~(a^b)&(a^q)&0x80); return q; }
static u8 sub(u8 a,u8 b,int c,bool keepz){ int x=a-b-c; u8 q=x; bool z=P()&Z; sf(H,(int)(a&15)-(b&15)-c<0); sf(C,x<0); nzs(q,(a^b)&(a^q)&0x80); if(keepz) sf(Z,!q&&z); return q; }
static bool two(u16 c){ return (c&0xfe0c)==0x940c||(c&0xfe0f)==0x9000||(c&0xfe0f)==0x9200; }
static bool known(u16 c);
static void skip(){ u16 n=L.M.r(PC); if(!known(n)) { L.skip=true; return; } PC=(PC+(two(n)?2:1))&0xffff; }
// documented instructions of the classic core this simulator models
static bool known(u16 c){
  if(c==0) return true; int h=c>>12;
  switch(h){ case 0: return c>=0x400; case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 0xc: case 0xd: case 0xe: case 8: case 0xa: case 0xb: return true;
  case 0xf: return (c&0xf800)!=0xf800||!(c&8);
  case 9: if((c&0xff0f)==0x9409||(c&0xff0f)==0x9509) return c==0x9409||c==0x9509;
    if((c&0xfc00)==0x9000){ int l=c&15; if(c&0x200) return l==0||l==1||l==2||l==9||l==10||l==12||l==13||l==14||l==15; return l==0||l==1||l==2||l==9||l==10||l==12||l==13||l==14||l==15; }
    if((c&0xfe00)==0x9400){ int l=c&15; if(l==8){ return (c&0xff00)==0x9400||c==0x9508||c==0x9518||c==0x9588||c==0x95a8||c==0x95c8; } return l==0||l==1||l==2||l==3||l==5||l==6||l==7||l==10||l>=12; }
    return true; }
  return false; }
#define BAD do{ L.skip=true; return; }while(0)
static void step(){
  u16 c=f(); if(!known(c)) BAD; int d=(c>>4)&31, rr=(c&15)|((c>>5)&16), D=16+((c>>4)&15); u8 K=(c&15)|((c>>4)&0xf0); bool cy=P()&C;
  auto ldst=[&](u32 a){ if(c&0x200) w(a,r(d)); else w(d,r(a)); };
  switch(c>>12){
  case 0: if(c==0) return;
    if((c>>8)==1){ ww((c>>3)&30,rw((c<<1)&30)); return; }
    if((c>>8)==2||(c>>8)==3){ int a,b; bool fm=false; int A_,B_;
      if((c>>8)==2){ A_=D; B_=16+(c&15); a=(i8)r(A_); b=(i8)r(B_); }
      else { A_=16+((c>>4)&7); B_=16+(c&7); switch(c&0x88){ case 0: a=(i8)r(A_); b=r(B_); break; case 8: a=r(A_); b=r(B_); fm=true; break; case 0x80: a=(i8)r(A_); b=(i8)r(B_); fm=true; break; default: a=(i8)r(A_); b=r(B_); fm=true; } }
      u16 p=a*b; sf(C,p&0x8000); if(fm) p<<=1; sf(Z,!p); ww(0,p); return; }
    switch((c>>10)&3){ case 1: sub(r(d),r(rr),cy,true); return; case 2:{ u8 q=sub(r(d),r(rr),cy,true); w(d,q); return; } case 3:{ u8 q=add(r(d),r(rr),0); w(d,q); return; } } BAD;
  case 1: switch((c>>10)&3){ case 0: if(r(d)==r(rr)) skip(); return; case 1: sub(r(d),r(rr),0,false); return; case 2:{ u8 q=sub(r(d),r(rr),0,false); w(d,q); return; } case 3:{ u8 q=add(r(d),r(rr),cy); w(d,q); return; } } return;
  case 2:{ u8 q; switch((c>>10)&3){ case 0: q=r(d)&r(rr); break; case 1: q=r(d)^r(rr); break; case 2: q=r(d)|r(rr); break; default: w(d,r(rr)); return; } nzs(q,false); w(d,q); return; }
  case 3: sub(r(D),K,0,false); return;
  case 4:{ u8 q=sub(r(D),K,cy,true); w(D,q); return; } case 5:{ u8 q=sub(r(D),K,0,false); w(D,q); return; }
  case 6:{ u8 q=r(D)|K; nzs(q,false); w(D,q); return; } case 7:{ u8 q=r(D)&K; nzs(q,false); w(D,q); return; }
  case 8: case 0xa:{ int q=(c&7)|((c>>7)&0x18)|((c>>8)&0x20); u32 a=rw(c&8?28:30)+q; if(a>0xffff) BAD; ldst(a); return; }
  case 0xb:{ u32 a=0x20+((c&15)|((c>>5)&0x30)); if(c&0x800) w(a,r(d)); else w(d,r(a)); return; }
  case 0xc: case 0xd:{ int k=c&0xfff; if(k&0x800) k-=0x1000; if(c&0x1000) pushpc(); PC=(PC+k)&0xffff; return; }
  case 0xe: w(D,K); return;
  case 0xf:{ int b=c&7; if(!(c&0x800)){ int k=(c>>3)&127; if(k&64) k-=128; if(((P()>>b)&1)==!(c&0x400)) PC=(PC+k)&0xffff; return; }
    switch((c>>9)&3){ case 0: w(d,P()&T?r(d)|1<<b:r(d)&~(1<<b)); return; case 1: sf(T,(r(d)>>b)&1); return; case 2: if(!((r(d)>>b)&1)) skip(); return; default: if((r(d)>>b)&1) skip(); } return; }
  case 9: break; }
  if((c&0xfc00)==0x9000){ int l=c&15, p=l>=12?26:l>=8?28:30; bool same=(d&~1)==p;
    switch(l){ case 0:{ u16 a=f(); ldst(a); return; }
    case 1: case 9: case 13:{ if(same) BAD; u16 a=rw(p); if(a>=26&&a<32) BAD; ldst(a); ww(p,a+1); return; }
    case 2: case 10: case 14:{ if(same) BAD; u16 a=rw(p)-1; if(a>=26&&a<32) BAD; ww(p,a); ldst(a); return; }
    case 12: ldst(rw(26)); return;
    case 4: case 5:{ if(l==5&&same) BAD; u16 z=rw(30); w(d,L.M.r(z>>1)>>(z&1?8:0)); if(l==5) ww(30,z+1); return; }
    case 15: if(c&0x200) push(r(d)); else { u8 v=pop(); w(d,v); } return; } BAD; }
  if((c&0xfe00)==0x9400){ u8 v=r(d),q; switch(c&15){
    case 0: q=~v; nzs(q,false); sf(C,1); w(d,q); return; case 1: q=0-v; sf(H,(q|v)&8); sf(C,q); nzs(q,q==0x80); w(d,q); return; case 2: w(d,v>>4|v<<4); return;
    case 3: q=v+1; nzs(q,q==0x80); w(d,q); return; case 10: q=v-1; nzs(q,q==0x7f); w(d,q); return;
    case 5: case 6: case 7: q=v>>1|((c&15)==5?v&0x80:(c&15)==7&&cy?0x80:0); sf(C,v&1); nzs(q,!(q&0x80)!=!(v&1)); w(d,q); return;
    case 8: if((c&0xff00)==0x9400){ sf(1<<((c>>4)&7),!(c&0x80)); return; }
      switch(c){ case 0x9508: PC=poppc(); return; case 0x9518: PC=poppc(); sf(I,1); return; case 0x95c8:{ u16 z=rw(30); w(0,L.M.r(z>>1)>>(z&1?8:0)); return; } case 0x95a8: return; } BAD;
    case 9: if(c==0x9509) pushpc(); PC=rw(30); return;
    case 12: case 13: case 14: case 15:{ if(c&0x1f1) BAD; u16 k=f(); if(c&2) pushpc(); PC=k; return; } } BAD; }
  switch((c>>8)&15){
    case 6: case 7:{ int p=24+((c>>3)&6); u16 v=rw(p),k=(c&15)|((c>>2)&0x30),q=c&0x100?v-k:v+k; bool o; if(c&0x100){ o=v&~q&0x8000; sf(C,q&~v&0x8000); } else { o=~v&q&0x8000; sf(C,~q&v&0x8000); } nzs(q>>8,o); sf(Z,!q); ww(p,q); return; }
    case 8: case 10:{ u32 a=0x20+((c>>3)&31); u8 m=1<<(c&7); w(a,c&0x200?r(a)|m:r(a)&~m); return; }
    case 9: if(!((r(0x20+((c>>3)&31))>>(c&7))&1)) skip(); return; case 11: if((r(0x20+((c>>3)&31))>>(c&7))&1) skip(); return;
    case 12: case 13: case 14: case 15:{ u16 p=r(d)*r(rr); sf(C,p&0x8000); sf(Z,!p); ww(0,p); return; } }
  BAD; }
int vh_main(){
  L.nm="AVR"; L.pc=&PC; vh_cmd("memory create chip xram_chip 0x10000 8"); vh_cmd("memory create addressdecoder iram 0x80 0xffff xram_chip 0x80");
  L.M.attach(U->rom,0x10000,0xffff); RM.attach(vh_as("iram"),0x10000); Rng q(vh_seed+5);
  for(u32 a=0;a<0x10000;a++){ L.M.poke(a,q.next()&0xffff); RM.poke(a,q.b()); }
  if(RM.real(0xf123)!=RM.r(0xf123)) vh_fail("AVR:setup:ram","data memory could not be extended");
  static u32 op=0;
  L.randst=[](){ for(int a=0;a<32;a++) RM.poke(a,g.chance(10)?(g.chance(50)?0:0x80):g.b()); RM.poke(SREG,g.b()); RM.poke(SPL,g.b()); RM.poke(SPH,g.b()); if(g.chance(4)){ RM.poke(SPL,0xff-g.below(2)); RM.poke(SPH,0xff); }
    if(g.chance(6)) RM.poke(27,0),RM.poke(29,0); if(g.chance(3)){ RM.poke(30,g.chance(50)?0:0xff); RM.poke(31,RM.r(30)); }
    PC=g.chance(5)?(u16)(0xfffd+g.below(5)):(u16)g.next(); };
  L.putcode=[](u32 pc){ op++; u16 c= g.chance(50)?(u16)(op*40503u):0x9000|(g.next()&0xfff); if(g.chance(4)) c=(u16)(0x9400|(g.below(16)<<4)|8); if(g.chance(5)){ static const u16 z[]={0x9508,0x9518,0x95c8,0x9409,0x9509,0x940c,0x940e,0x95a8}; c=z[g.below(8)]; }
    if(g.chance(10)) c=g.below(0x400); if((c&0xfe0c)==0x940c&&g.chance(90)) c&=~0x1f1;
    L.M.poke(pc,c); u16 n=g.next(); if(g.chance(30)){ static const u16 z[]={0x940c,0x940e,0x9000,0x9200,0x9010,0x93f0,0,0x9403}; n=z[g.below(8)]; } L.M.poke((pc+1)&0xffff,n); };
  L.code=[](){ std::string s=vfmt("%04x %04x %04x S=%02x SP=%04x",L.M.r(PC),L.M.r(PC+1),L.M.r(PC+2),P(),SP()); for(int i=0;i<32;i++) s+=vfmt(" %02x",r(i)); return s; };
  L.opkey=[]()->u64{ u16 c=L.M.r(PC); int h=c>>12; return (h==9?((c&0xfe00)==0x9400&&(c&15)==8?c:(c&0xfc00)==0x9000||(c&0xfe00)==0x9400?c&0xfe0f:c&0xff00):h==0?c&0xff00:h<3?c&0xfc00:h==0xf?c&0xfe00:h==8||h==10?c&0xd208:c&0xf800)|(u64)(P())<<16; };
  L.step=[](){ u64 k=L.opkey(); L.opname=vfmt("%x",(int)(k&0xffff)); RM.clear(); step(); if(L.skip){ for(u32 a:RM.touched) RM.m[a]=RM.real(a); } };
  L.extra=[](std::string &w_,std::string &d){ std::string e; static int n=0; bool bad=!RM.cmp_touched(e); if(!bad&&++n%2048==0) bad=!RM.cmp_all(e); if(bad){ if(w_.size()) w_+="+"; w_+="ram"; d+=e; for(u32 a:RM.touched) RM.cells[a]->set(RM.m[a]); } return !bad; };
  L.run(); return 0; }
