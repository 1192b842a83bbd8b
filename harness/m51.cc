// Lockstep reference model: MCS-51 (written from the MCS-51 programmer's guide).
#include "vh.h"
#include "errorcl.h"
static Shadow IR, XR, CO;            // iram, xram, code
static Shadow SF;                    // sfr, only the plain ones are used
static u16 pc; static int cyc; static bool skipcmp;
enum { ACC=0xe0,B=0xf0,PSW=0xd0,SP=0x81,DPL=0x82,DPH=0x83,P2=0xa0 };
enum { CY=0x80, AC=0x40, OV=4 };
static const u8 okdir[]= {ACC,B,PSW,SP,DPL,DPH,ACC,B,PSW,0x8a,0x8b,0x8c,0x8d,0x80,0x90,0xa0,0xb0};
static bool legal(u8 a){ if(a<0x80) return true; for(u8 x:okdir) if(x==a) return true; return false; }
static u8 sf(u8 a){ if(a==PSW){ u8 p=__builtin_popcount(SF.m[ACC])&1; return (SF.m[PSW]&0xfe)|p; } return SF.m[a]; }
static void ssf(u8 a,u8 v){ SF.w(a,v); }
static u8 A(){ return SF.m[ACC]; } static void sA(u8 v){ ssf(ACC,v); }
static bool C(){ return SF.m[PSW]&CY; }
static void fl(u8 m,bool v){ u8 p=SF.m[PSW]; ssf(PSW,v?(p|m):(p&~m)); }
static u8 f8(){ return CO.r(pc++); }
static u8 rd(u8 a){ return a<0x80?IR.r(a):sf(a); }
static void wr(u8 a,u8 v){ if(a<0x80) IR.w(a,v); else ssf(a,v); }
static u8 ra(int n){ return (SF.m[PSW]&0x18)|n; }
static u16 dptr(){ return SF.m[DPH]<<8|SF.m[DPL]; }
static bool bitr(u8 b){ return b<0x80?(IR.r(0x20+b/8)>>(b&7))&1:(sf(b&0xf8)>>(b&7))&1; }
static void bitw(u8 b,bool v){ u8 a=b<0x80?0x20+b/8:(b&0xf8); u8 o=rd(a); u8 m=1<<(b&7); wr(a,v?(o|m):(o&~m)); }
static void push(u8 v){ ssf(SP,SF.m[SP]+1); IR.w(SF.m[SP],v); }
static u8 pop(){ u8 v=IR.r(SF.m[SP]); ssf(SP,SF.m[SP]-1); return v; }
static void add(u8 d,int c){ u8 a=A(); int r=a+d+c; fl(CY,r>255); fl(AC,(a&15)+(d&15)+c>15); int s=(i8)a+(i8)d+c; fl(OV,s<-128||s>127); sA(r); }
static void subb(u8 d){ u8 a=A(); int c=C(); int r=(int)a-d-c; fl(CY,r<0); fl(AC,(int)(a&15)-(d&15)-c<0); int s=(i8)a-(i8)d-c; fl(OV,s<-128||s>127); sA(r); }
static u8 src(int lo){ // operand of xxx A,<src> for low nibble 4..f
  switch(lo){ case 4: return f8(); case 5: return rd(f8()); case 6: case 7: return IR.r(IR.r(ra(lo&1))); default: return IR.r(ra(lo&7)); } }
static void rel(bool t,u8 d){ if(t) pc+= (i8)d; }
static void step(){
  cyc=1; skipcmp=false; u8 op=f8(); int lo=op&15, hi=op>>4;
  if((op&0x1f)==0x01){ u8 l=f8(); pc=(pc&0xf800)|(op&0xe0)<<3|l; cyc=2; return; }
  if((op&0x1f)==0x11){ u8 l=f8(); push(pc); push(pc>>8); pc=(pc&0xf800)|(op&0xe0)<<3|l; cyc=2; return; }
  if(lo>=4) switch(hi){
  case 0: case 1: { int d=hi?-1:1; if(lo==4) sA(A()+d); else if(lo==5){u8 a=f8(); wr(a,rd(a)+d);} else if(lo<8){u8 a=IR.r(ra(lo&1)); IR.w(a,IR.r(a)+d);} else IR.w(ra(lo&7),IR.r(ra(lo&7))+d); return; }
  case 2: add(src(lo),0); return;
  case 3: add(src(lo),C()); return;
  case 4: sA(A()|src(lo)); return;
  case 5: sA(A()&src(lo)); return;
  case 6: sA(A()^src(lo)); return;
  case 7: if(lo==4) sA(f8()); else if(lo==5){u8 a=f8(); wr(a,f8()); cyc=2;} else if(lo<8){u8 a=IR.r(ra(lo&1)); IR.w(a,f8());} else {u8 a=ra(lo&7); IR.w(a,f8());} return;
  case 8: if(lo==4){ u8 b=SF.m[B],a=A(); cyc=4; fl(CY,0); fl(OV,b==0); if(b){ sA(a/b); ssf(B,a%b);} else skipcmp=true; return; }
    cyc=2; if(lo==5){ u8 s=f8(); u8 d=f8(); wr(d,rd(s)); } else { u8 d=f8(); wr(d,lo<8?IR.r(IR.r(ra(lo&1))):IR.r(ra(lo&7))); } return;
  case 9: subb(src(lo)); return;
  case 10: if(lo==4){ unsigned r=A()*SF.m[B]; sA(r); ssf(B,r>>8); fl(CY,0); fl(OV,r>255); cyc=4; return; }
    if(lo==5) return; cyc=2; { u8 s=f8(); u8 v=rd(s); if(lo<8) IR.w(IR.r(ra(lo&1)),v); else IR.w(ra(lo&7),v); } return;
  case 11: { cyc=2; u8 x,y; if(lo==4){x=A();y=f8();} else if(lo==5){x=A();y=rd(f8());} else if(lo<8){x=IR.r(IR.r(ra(lo&1)));y=f8();} else {x=IR.r(ra(lo&7));y=f8();}
    u8 d=f8(); fl(CY,x<y); rel(x!=y,d); return; }
  case 12: if(lo==4){ sA(A()<<4|A()>>4); return; } { u8 a=A(); if(lo==5){u8 d=f8(); u8 v=rd(d); wr(d,a); sA(v);} else { u8 d=lo<8?IR.r(ra(lo&1)):ra(lo&7); u8 v=IR.r(d); IR.w(d,a); sA(v);} } return;
  case 13: if(lo==4){ unsigned a=A(); bool c=C(); if((a&15)>9||(SF.m[PSW]&AC)){ a+=6; if(a>255) c=true; a&=255; } if((a>>4)>9||c){ a+=0x60; if(a>255) c=true; } sA(a); fl(CY,c); return; }
    if(lo==5){ u8 a=f8(); u8 d=f8(); u8 v=rd(a)-1; wr(a,v); rel(v,d); cyc=2; return; }
    if(lo<8){ u8 d=IR.r(ra(lo&1)); u8 v=IR.r(d),a=A(); IR.w(d,(v&0xf0)|(a&15)); sA((a&0xf0)|(v&15)); return; }
    { u8 a=ra(lo&7); u8 d=f8(); u8 v=IR.r(a)-1; IR.w(a,v); rel(v,d); cyc=2; return; }
  case 14: if(lo==4) sA(0); else sA(src(lo)); return;
  case 15: if(lo==4) sA(~A()); else if(lo==5) wr(f8(),A()); else if(lo<8) IR.w(IR.r(ra(lo&1)),A()); else IR.w(ra(lo&7),A()); return;
  }
  u8 a=A();
  switch(op){
  case 0x00: return;
  case 0x02: { u8 h=f8(),l=f8(); pc=h<<8|l; cyc=2; return; }
  case 0x12: { u8 h=f8(),l=f8(); push(pc); push(pc>>8); pc=h<<8|l; cyc=2; return; }
  case 0x22: case 0x32: { u8 h=pop(),l=pop(); pc=h<<8|l; cyc=2; return; }
  case 0x03: sA(a>>1|a<<7); return;
  case 0x13: { bool c=a&1; sA(a>>1|(C()?0x80:0)); fl(CY,c); return; }
  case 0x23: sA(a<<1|a>>7); return;
  case 0x33: { bool c=a&0x80; sA(a<<1|(C()?1:0)); fl(CY,c); return; }
  case 0x10: { u8 b=f8(),d=f8(); cyc=2; if(bitr(b)){ bitw(b,0); rel(true,d);} return; }
  case 0x20: case 0x30: { u8 b=f8(),d=f8(); cyc=2; rel(bitr(b)==(op==0x20),d); return; }
  case 0x40: case 0x50: { u8 d=f8(); cyc=2; rel(C()==(op==0x40),d); return; }
  case 0x60: case 0x70: { u8 d=f8(); cyc=2; rel((a==0)==(op==0x60),d); return; }
  case 0x80: { u8 d=f8(); cyc=2; rel(true,d); return; }
  case 0x42: { u8 d=f8(); wr(d,rd(d)|a); return; }
  case 0x43: { u8 d=f8(),i=f8(); wr(d,rd(d)|i); cyc=2; return; }
  case 0x52: { u8 d=f8(); wr(d,rd(d)&a); return; }
  case 0x53: { u8 d=f8(),i=f8(); wr(d,rd(d)&i); cyc=2; return; }
  case 0x62: { u8 d=f8(); wr(d,rd(d)^a); return; }
  case 0x63: { u8 d=f8(),i=f8(); wr(d,rd(d)^i); cyc=2; return; }
  case 0x72: { bool b=bitr(f8()); fl(CY,C()||b); cyc=2; return; }
  case 0x82: { bool b=bitr(f8()); fl(CY,C()&&b); cyc=2; return; }
  case 0xa0: { bool b=bitr(f8()); fl(CY,C()||!b); cyc=2; return; }
  case 0xb0: { bool b=bitr(f8()); fl(CY,C()&&!b); cyc=2; return; }
  case 0x73: pc=dptr()+a; cyc=2; return;
  case 0x83: sA(CO.r((u16)(pc+a))); cyc=2; return;
  case 0x93: sA(CO.r((u16)(dptr()+a))); cyc=2; return;
  case 0x90: { u8 h=f8(),l=f8(); ssf(DPH,h); ssf(DPL,l); cyc=2; return; }
  case 0x92: { u8 b=f8(); bitw(b,C()); cyc=2; return; }
  case 0xa2: { bool b=bitr(f8()); fl(CY,b); return; }
  case 0xa3: { u16 d=dptr()+1; ssf(DPH,d>>8); ssf(DPL,d); cyc=2; return; }
  case 0xb2: { u8 b=f8(); bitw(b,!bitr(b)); return; }
  case 0xb3: fl(CY,!C()); return;
  case 0xc0: { u8 d=f8(); ssf(SP,SF.m[SP]+1); IR.w(SF.m[SP],rd(d)); cyc=2; return; }
  case 0xd0: { u8 d=f8(); u8 v=pop(); wr(d,v); cyc=2; return; }
  case 0xc2: bitw(f8(),0); return;
  case 0xc3: fl(CY,0); return;
  case 0xd2: bitw(f8(),1); return;
  case 0xd3: fl(CY,1); return;
  case 0xe0: sA(XR.r(dptr())); cyc=2; return;
  case 0xe2: case 0xe3: sA(XR.r(SF.m[P2]<<8|IR.r(ra(op&1)))); cyc=2; return;
  case 0xf0: XR.w(dptr(),a); cyc=2; return;
  case 0xf2: case 0xf3: XR.w(SF.m[P2]<<8|IR.r(ra(op&1)),a); cyc=2; return;
  }
}
static void putsfr(){ for(u8 x:okdir) SF.cells[x]->write(SF.m[x]); U->PC=pc; }
static std::string str(){ return vfmt("A=%02x B=%02x PSW=%02x SP=%02x DPTR=%04x PC=%04x",A(),SF.m[B],sf(PSW),SF.m[SP],dptr(),pc); }
int vh_main(){
  Rng g(vh_seed); bool c52= strcmp(U->id_string(),"51")!=0;
  IR.attach(vh_as("iram"),0x100); XR.attach(vh_as("xram"),0x10000); CO.attach(vh_as("rom"),0x10000); SF.attach(vh_as("sfr"),0x100);
  IR.randomize(g,0,0x100); XR.randomize(g,0,0x10000); CO.randomize(g,0,0x10000); (void)c52;
  long total=0; int op=g.below(256);
  while(total<vh_cases){
    for(u8 x:okdir) SF.m[x]=g.b();
    pc=g.chance(6)?0xfff8+g.below(8):g.next(); putsfr();
    if(g.chance(20)) for(int i=0;i<32;i++) IR.poke(i,g.b());
    int len=g.chance(70)?1:2+g.below(40);
    for(int k=0;k<len;k++){
      // next instruction: all opcodes in turn, direct addresses steered to plain registers
      op=(op+1)&255; if(op==0xa5) op=0xa6;
      auto dir=[&]{ return g.chance(45)?okdir[g.below(sizeof okdir)]:(u8)g.below(0x80); };
      auto bit=[&]{ return g.chance(45)?(u8)((g.chance(80)?okdir[g.below(3)]:okdir[13+g.below(4)])|g.below(8)):(u8)g.below(0x80); };
      u8 b1=g.b(),b2=g.b(); int lo=op&15,hi=op>>4;
      if(lo==5&&op!=0x85) b1=dir(); if(op==0x85){b1=dir();b2=dir();}
      if((hi==8||hi==10)&&lo>=6) b1=dir();
      if(op==0x42||op==0x43||op==0x52||op==0x53||op==0x62||op==0x63||op==0xc0||op==0xd0) b1=dir();
      if(op==0x10||op==0x20||op==0x30||op==0x72||op==0x82||op==0x92||op==0xa0||op==0xa2||op==0xb0||op==0xb2||op==0xc2||op==0xd2) b1=bit();
      if((op==0xd0||op==0xc0)&&b1==SP) b1=B; if(op==0xd5&&b1==PSW) b1=B; // undocumented orders
      CO.poke(pc,op); CO.poke((u16)(pc+1),b1); CO.poke((u16)(pc+2),b2);
      std::string pre=str(); u8 f0=sf(PSW);
      vh_case("51:op=%02x %02x %02x %s",op,b1,b2,pre.c_str());
      IR.clear();XR.clear();CO.clear();SF.clear();
      step();
      int t0=U->ticks->get_ticks(); U->do_inst(); long tk=U->ticks->get_ticks()-t0;
      std::string d,what; bool bad=false;
      auto ck=[&](const char*n,u32 r,u32 w){ if(r!=w){ bad=true; if(what.size())what+="+"; what+=n; d+=vfmt(" %s=%x want %x",n,r,w);} };
      if(!skipcmp){ ck("A",SF.real(ACC),A()); ck("B",SF.real(B),SF.m[B]); }
      else { SF.m[ACC]=SF.real(ACC); SF.m[B]=SF.real(B); }
      ck("PSW",SF.real(PSW),sf(PSW));
      ck("SP",SF.real(SP),SF.m[SP]); ck("DPTR",SF.real(DPH)<<8|SF.real(DPL),dptr()); ck("PC",U->PC,pc);
      for(int i=9;i<(int)sizeof okdir;i++) ck("SFR",SF.real(okdir[i]),SF.m[okdir[i]]);
      ck("ticks",tk,cyc*12);
      std::string md; if(!IR.cmp_touched(md)||!XR.cmp_touched(md)){ bad=true; what+="+mem"; d+=md; for(u32 a:IR.touched) IR.cells[a]->set(IR.m[a]); for(u32 a:XR.touched) XR.cells[a]->set(XR.m[a]); }
      if(bad){ vh_fail(vfmt("51:op=%02x:%s",op,what.c_str()),pre+vfmt(" code=%02x %02x %02x ->",op,b1,b2)+d); putsfr(); }
      if(total<4) vh_sample(pre+vfmt(" code %02x %02x %02x -> ",op,b1,b2)+str());
      vh_distinct("op/flags",(u64)op<<16|f0<<8|sf(PSW)); total++;
      if((total&63)==0){ std::string e; if(!IR.cmp_all(e)) vh_fail("51:stray-iram-write","internal RAM not written by the instruction stream changed:"+e); }
      if((total&1023)==0){ U->errors->free_all(); while(U->stack_ops->count) delete U->stack_ops->pop(); }
      U->state=stGO;
    }
    if(total%700<len){ std::string e; if(!XR.cmp_all(e)||!CO.cmp_all(e)) vh_fail("51:stray-write","memory not written by the instruction stream changed:"+e); vh_stat("fullmem",1); }
  }
  vh_stat("cases",total); return 0;
}
