// Lockstep reference model: MOS 6502, 65C02, 65C02S (Rockwell/WDC bit instructions).
// Written from the MCS6500 family programming manual and the W65C02S data sheet.
#include "lock.h"
static Lock L; static Rng &g= L.g;
static u32 A,X,Y,S,P,PC; static bool cmos, rock;
enum { C=1,Z=2,I=4,D=8,B=16,V=64,N=128 };
static u8 rd(u32 a){ return L.M.r(a&0xffff); }
static void wr(u32 a,u8 v){ L.M.w(a&0xffff,v); }
static u8 f8(){ u8 v=rd(PC); PC=(PC+1)&0xffff; return v; }
static u16 f16(){ u8 l=f8(); return l|f8()<<8; }
static void sf(u32 m,bool v){ P=v?P|m:P&~m; }
static void nz(u8 v){ sf(N,v&0x80); sf(Z,!v); }
static void push(u8 v){ wr(0x100|S,v); S=(S-1)&0xff; }
static u8 pop(){ S=(S+1)&0xff; return rd(0x100|S); }
static bool pg;
static u16 zp16(u8 a){ return rd(a)|rd((u8)(a+1))<<8; }
// addressing modes
enum { IMP,IMM,ZP,ZPX,ZPY,AB,ABX,ABY,INDX,INDY,ZPI };
static u16 ea(int m){ u16 b,a; pg=false;
  switch(m){ case IMM:{ u16 a=PC; f8(); return a;} case ZP: return f8(); case ZPX: return (u8)(f8()+X); case ZPY: return (u8)(f8()+Y);
  case AB: return f16(); case ABX: b=f16(); a=b+X; pg=(a^b)&0xff00; return a; case ABY: b=f16(); a=b+Y; pg=(a^b)&0xff00; return a;
  case INDX: return zp16(f8()+X); case INDY: b=zp16(f8()); a=b+Y; pg=(a^b)&0xff00; return a; case ZPI: return zp16(f8()); }
  return 0; }
static int rdcyc(int m){ switch(m){case IMM:return 2;case ZP:return 3;case ZPX:case ZPY:return 4;case AB:return 4;case ABX:case ABY:return 4+pg;case INDX:return 6;case INDY:return 5+pg;case ZPI:return 5;} return 0; }
static int wrcyc(int m){ switch(m){case ZP:return 3;case ZPX:case ZPY:return 4;case AB:return 4;case ABX:case ABY:return 5;case INDX:return 6;case INDY:return 6;case ZPI:return 5;} return 0; }
static int mwcyc(int m){ switch(m){case ZP:return 5;case ZPX:return 6;case AB:return 6;case ABX:return 7;} return 2; }
static bool bcd(u8 v){ return (v&15)<10&&(v>>4)<10; }
static u32 &pmask(){ return L.regs[4].mask; }
static void adc(u8 b){ int c=P&C; 
  if(P&D){ if(!bcd(b)||!bcd(A)){ L.skip=true; return; } int r=(A>>4)*10+(A&15)+(b>>4)*10+(b&15)+c; sf(C,r>99); r%=100; A=(r/10)<<4|(r%10); if(cmos){ nz(A); pmask()&=~V; L.cyc=0; } else pmask()&=~(u32)(N|V|Z); return; }
  unsigned r=A+b+c; sf(V,(~(A^b)&(A^r))&0x80); sf(C,r>255); A=r&0xff; nz(A); }
static void sbc(u8 b){ int c=P&C;
  if(P&D){ if(!bcd(b)||!bcd(A)){ L.skip=true; return; } int r=(int)((A>>4)*10+(A&15))-(int)((b>>4)*10+(b&15))-(1-c); sf(C,r>=0); r=(r+100)%100; A=(r/10)<<4|(r%10); if(cmos){ nz(A); pmask()&=~V; } else pmask()&=~(u32)(N|V|Z); return; }
  unsigned r=A+(b^0xff)+c; sf(V,((A^b)&(A^r))&0x80); sf(C,r>255); A=r&0xff; nz(A); }
static void cmp(u8 a,u8 b){ nz(a-b); sf(C,a>=b); }
static u8 rmw(int op,u8 v){ u8 r; bool c=P&C;
  switch(op){case 0:sf(C,v&0x80);r=v<<1;break;case 1:sf(C,v&0x80);r=v<<1|c;break;case 2:sf(C,v&1);r=v>>1;break;case 3:sf(C,v&1);r=v>>1|c<<7;break;case 6:r=v-1;break;default:r=v+1;break;}
  nz(r); return r; }
static void br(bool t){ i8 o=f8(); L.cyc=2; if(t){ u16 d=PC+o; L.cyc=3+(((d^PC)&0xff00)?1:0); PC=d; } }
static void alu(int op,int m){ // aaa of column 1
  u16 a=ea(m);
  if(op==4){ wr(a,A); L.cyc=wrcyc(m); return; }
  u8 v=rd(a); L.cyc=rdcyc(m);
  switch(op){case 0:A|=v;nz(A);break;case 1:A&=v;nz(A);break;case 2:A^=v;nz(A);break;case 3:adc(v);break;case 5:A=v;nz(A);break;case 6:cmp(A,v);break;case 7:sbc(v);break;} }
static void step(){
  u8 op=f8(); L.cyc=2; int aaa=op>>5,bbb=(op>>2)&7,cc=op&3;
  static const int m1[8]={INDX,ZP,IMM,AB,INDY,ZPX,ABY,ABX};
  if(cc==1){ if(op==0x89){ if(!cmos){L.skip=true;return;} u8 v=f8(); sf(Z,!(A&v)); return; } alu(aaa,m1[bbb]); return; }
  if(cc==3){ // Rockwell bit instructions and one byte NOPs of the CMOS part
    if(!cmos){L.skip=true;return;} L.cyc=0;
    if(rock&&bbb==1||rock&&bbb==5){ u8 a=f8(); int bit=(op>>4)&7; u8 v=rd(a); wr(a,(op&0x80)?v|1<<bit:v&~(1<<bit)); return; }
    if(rock&&(bbb==3||bbb==7)){ u8 v=rd(f8()); i8 o=f8(); int bit=(op>>4)&7; bool t=((v>>bit)&1)==(op>>7); if(t) PC=(PC+o)&0xffff; return; }
    if(rock&&(op==0xcb||op==0xdb)){ L.skip=true; return; }
    return; }
  if(cc==2){
    if(cmos&&bbb==4){ L.cyc=0; alu(aaa,ZPI); return; }
    if(op==0xa2){ X=f8(); nz(X); return; }
    if(bbb==0||(bbb==4&&!cmos)){ if(!cmos){L.skip=true;return;} f8(); return; }
    if(bbb==2){ switch(op){case 0x8a:A=X;nz(A);return;case 0xaa:X=A;nz(X);return;case 0xca:X=(X-1)&0xff;nz(X);return;case 0xea:return;} A=rmw(aaa,A); return; }
    if(bbb==6){ switch(op){ case 0x9a:S=X;return;case 0xba:X=S;nz(X);return; }
      if(!cmos){L.skip=true;return;} L.cyc=0;
      switch(op){case 0x1a:A=(A+1)&0xff;nz(A);return;case 0x3a:A=(A-1)&0xff;nz(A);return;case 0x5a:push(Y);return;case 0x7a:Y=pop();nz(Y);return;case 0xda:push(X);return;case 0xfa:X=pop();nz(X);return;} L.skip=true; return; }
    int m=bbb==1?ZP:bbb==3?AB:bbb==5?((aaa==4||aaa==5)?ZPY:ZPX):((aaa==5)?ABY:ABX);
    if(aaa==4){ if(bbb==7){ if(!cmos){L.skip=true;return;} wr(ea(ABX),0); L.cyc=0; return; } u16 a=ea(m); wr(a,X); L.cyc=wrcyc(m); return; }
    if(aaa==5){ X=rd(ea(m)); nz(X); L.cyc=rdcyc(m); return; }
    u16 a=ea(m); u8 v=rd(a); wr(a,rmw(aaa,v)); L.cyc=mwcyc(m); return; }
  // column 0
  if(bbb==4){ static const int fl[4]={N,V,C,Z}; bool f=P&fl[op>>6]; br(f==((op>>5)&1)); return; }
  if(bbb==2||bbb==6) switch(op){
    case 0x08: push(P|0x30); L.cyc=3; return; case 0x28: P=(P&0x30)|(pop()&~0x30); L.cyc=4; return;
    case 0x48: push(A); L.cyc=3; return; case 0x68: A=pop(); nz(A); L.cyc=4; return;
    case 0x88: Y=(Y-1)&0xff;nz(Y);return; case 0xa8: Y=A;nz(Y);return; case 0xc8: Y=(Y+1)&0xff;nz(Y);return; case 0xe8: X=(X+1)&0xff;nz(X);return;
    case 0x18: sf(C,0);return; case 0x38: sf(C,1);return; case 0x58: sf(I,0);return; case 0x78: sf(I,1);return;
    case 0x98: A=Y;nz(A);return; case 0xb8: sf(V,0);return; case 0xd8: sf(D,0);return; case 0xf8: sf(D,1);return; }
  switch(op){
  case 0x00:{ u16 r=PC+1; push(r>>8); push(r); push(P|0x30); P|=I; if(cmos) P&=~D; PC=rd(0xfffe)|rd(0xffff)<<8; L.cyc=7; return; }
  case 0x20:{ u16 a=f16(); u16 r=PC-1; push(r>>8); push(r); PC=a; L.cyc=6; return; }
  case 0x40:{ P=(P&0x30)|(pop()&~0x30); u8 l=pop(); PC=l|pop()<<8; L.cyc=6; return; }
  case 0x60:{ u8 l=pop(); PC=((l|pop()<<8)+1)&0xffff; L.cyc=6; return; }
  case 0x24: case 0x2c:{ int m=op==0x24?ZP:AB; u8 v=rd(ea(m)); sf(N,v&0x80); sf(V,v&0x40); sf(Z,!(A&v)); L.cyc=rdcyc(m); return; }
  case 0x4c: PC=f16(); L.cyc=3; return;
  case 0x6c:{ u16 a=f16(); if((a&0xff)==0xff&&!cmos){ L.skip=true; return; } PC=rd(a)|rd(a+1)<<8; L.cyc=cmos?0:5; return; }
  case 0x84: case 0x8c: case 0x94:{ int m=op==0x84?ZP:op==0x8c?AB:ZPX; wr(ea(m),Y); L.cyc=wrcyc(m); return; }
  case 0xa0: case 0xa4: case 0xac: case 0xb4: case 0xbc:{ int m=bbb==0?IMM:bbb==1?ZP:bbb==3?AB:bbb==5?ZPX:ABX; Y=rd(ea(m)); nz(Y); L.cyc=rdcyc(m); return; }
  case 0xc0: case 0xc4: case 0xcc: case 0xe0: case 0xe4: case 0xec:{ int m=bbb==0?IMM:bbb==1?ZP:AB; cmp(op<0xe0?Y:X,rd(ea(m))); L.cyc=rdcyc(m); return; }
  }
  if(!cmos){L.skip=true;return;} L.cyc=0;
  switch(op){
  case 0x80: br(true); L.cyc=0; return;
  case 0x04: case 0x0c: case 0x14: case 0x1c:{ u16 a=ea(bbb==1||bbb==5?ZP:AB); u8 v=rd(a); sf(Z,!(v&A)); wr(a,op<0x10?v|A:v&~A); return; }
  case 0x34: case 0x3c:{ u8 v=rd(ea(op==0x34?ZPX:ABX)); sf(N,v&0x80); sf(V,v&0x40); sf(Z,!(A&v)); return; }
  case 0x64: wr(ea(ZP),0); return; case 0x74: wr(ea(ZPX),0); return; case 0x9c: wr(ea(AB),0); return;
  case 0x7c:{ u16 a=f16()+X; PC=rd(a)|rd(a+1)<<8; return; }
  case 0x44: case 0x54: case 0xd4: case 0xf4: f8(); return;
  case 0x5c: case 0xdc: case 0xfc: f16(); return; }
  L.skip=true;
}
int vh_main(){
  std::string id=U->id_string(); cmos=id.find("65C02")!=std::string::npos; rock=id=="MOS65C02S"; L.nm=rock?"65C02S":cmos?"65C02":"6502";
  L.reg("A",&A,0xff); L.reg("X",&X,0xff); L.reg("Y",&Y,0xff); L.reg("SP",&S,0xff); L.reg("P",&P,0xcf); L.flagreg=4; L.pc=&PC;
  L.M.attach(U->rom,0x10000); Rng q(vh_seed+5); L.M.randomize(q,0,0x10000);
  static int op=q.below(256);
  L.randst=[](){ A=g.b();X=g.b();Y=g.b();S=g.b();P=(g.next()&0xcf)|0x20; if(g.chance(60))P&=~D; PC=g.chance(5)?0xfffc+g.below(4):(u16)g.next();
    if((P&D)&&g.chance(80)) A=g.below(10)<<4|g.below(10); };
  L.putcode=[](u32 pc){ op=(op+1)&255; L.M.poke(pc,op); u8 b=g.b(); if((P&D)&&g.chance(60)) b=g.below(10)<<4|g.below(10); L.M.poke(pc+1,b); L.M.poke(pc+2,g.b()); };
  L.code=[](){ return vfmt("%02x %02x %02x",rd(PC),rd(PC+1),rd(PC+2)); };
  L.opkey=[]()->u64{ return rd(PC); };
  L.step=step; L.run(); return 0; }
