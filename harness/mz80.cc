// Lockstep reference model: Zilog Z80 (written from the Z80 CPU user manual), documented instructions.
#include "vh.h"
#include <array>
#include "errorcl.h"
static Shadow M, IN, OUT;
enum { C=1,N=2,P=4,H=0x10,Z=0x40,S=0x80, ALLF=0xd7 };
struct St { u8 a,f,i; u16 r[3], ix,iy,sp,pc, aaf,ab,ad,ah; bool iff; } s;  // r: BC DE HL
static cl_memory_cell *cA,*cF,*cI,*cR[3],*cIX,*cIY,*cSP,*cAA,*cAB,*cAD,*cAH;
static int T; static u8 fm; static bool cmpA;
static bool par(u8 v){ return !(__builtin_popcount(v)&1); }
static u8 rd(u16 a){ return M.r(a); } static void wr(u16 a,u8 v){ M.w(a,v); }
static u16 rd16(u16 a){ return rd(a)|rd(a+1)<<8; } static void wr16(u16 a,u16 v){ wr(a,v); wr(a+1,v>>8); }
static u8 f8(){ return rd(s.pc++); } static u16 f16(){ u16 v=rd16(s.pc); s.pc+=2; return v; }
static void push(u16 v){ wr(--s.sp,v>>8); wr(--s.sp,v); } static u16 pop(){ u16 v=rd16(s.sp); s.sp+=2; return v; }
static u8 gr(int k){ if(k==6) return rd(s.r[2]); if(k==7) return s.a; return (k&1)?s.r[k/2]:s.r[k/2]>>8; }
static void sr(int k,u8 v){ if(k==6) wr(s.r[2],v); else if(k==7) s.a=v; else if(k&1) s.r[k/2]=(s.r[k/2]&0xff00)|v; else s.r[k/2]=(s.r[k/2]&0xff)|v<<8; }
static void setf(u8 m,bool v){ s.f=v?s.f|m:s.f&~m; }
static void sz(u8 r){ setf(S,r&0x80); setf(Z,!r); }
static void szp(u8 r){ sz(r); setf(P,par(r)); }
static void alu(int op,u8 b){
  u8 a=s.a; int c=(s.f&C)?1:0; unsigned r;
  switch(op){
  case 0: case 1: if(!op)c=0; r=a+b+c; setf(C,r>255); setf(H,(a&15)+(b&15)+c>15); setf(P,(~(a^b)&(a^r))&0x80); setf(N,0); s.a=r; sz(r); break;
  case 2: case 3: case 7: if(op!=3)c=0; r=a-b-c; setf(C,(int)a-b-c<0); setf(H,(int)(a&15)-(b&15)-c<0); setf(P,((a^b)&(a^r))&0x80); setf(N,1); sz(r); if(op!=7) s.a=r; break;
  case 4: s.a&=b; szp(s.a); setf(H,1); setf(N|C,0); break;
  case 5: s.a^=b; szp(s.a); setf(H|N|C,0); break;
  case 6: s.a|=b; szp(s.a); setf(H|N|C,0); break;
  }
}
static u8 incdec(u8 v,bool dec){ u8 r=dec?v-1:v+1; setf(H,dec?(v&15)==0:(v&15)==15); setf(P,dec?v==0x80:v==0x7f); setf(N,dec); sz(r); return r; }
static u16 add16(u16 a,u16 b){ unsigned r=a+b; setf(C,r>0xffff); setf(H,(a&0xfff)+(b&0xfff)>0xfff); setf(N,0); return r; }
static bool cc(int c){ bool v; switch(c>>1){case 0:v=s.f&Z;break;case 1:v=s.f&C;break;case 2:v=s.f&P;break;default:v=s.f&S;} return (c&1)?v:!v; }
static u8 rot(int k,u8 v){ u8 r=0; bool c=false; bool ci=s.f&C; switch(k){
  case 0: c=v>>7; r=v<<1|c; break; case 1: c=v&1; r=v>>1|c<<7; break; case 2: c=v>>7; r=v<<1|ci; break; case 3: c=v&1; r=v>>1|ci<<7; break;
  case 4: c=v>>7; r=v<<1; break; case 5: c=v&1; r=v>>1|(v&0x80); break; case 7: c=v&1; r=v>>1; break; }
  szp(r); setf(H|N,0); setf(C,c); return r; }
static u16 &rp(int p){ return p==3?s.sp:s.r[p]; }
static void cb(){ u8 op=f8(); int x=op>>6,y=(op>>3)&7,z=op&7; T=z==6?15:8; u8 v=gr(z);
  if(x==0) sr(z,rot(y,v)); else if(x==1){ setf(Z,!(v>>y&1)); setf(H,1); setf(N,0); fm&=~(S|P); T=z==6?12:8; } else if(x==2) sr(z,v&~(1<<y)); else sr(z,v|1<<y); }
static void xy(u16 &ix){ u8 op=f8(); T=0;
  auto ea=[&]{ return (u16)(ix+(i8)f8()); };
  if(op==0xcb){ u16 a=ea(); u8 o=f8(); int x=o>>6,y=(o>>3)&7; u8 v=rd(a); T=23; if(x==0) wr(a,rot(y,v)); else if(x==1){ setf(Z,!(v>>y&1)); setf(H,1); setf(N,0); fm&=~(S|P); T=20; } else if(x==2) wr(a,v&~(1<<y)); else wr(a,v|1<<y); return; }
  int z=op&7,y=(op>>3)&7;
  if(op>=0x40&&op<0x80){ u16 a=ea(); T=19; if(z==6) sr(y,rd(a)); else wr(a,gr(z)); return; }
  if(op>=0x80&&op<0xc0){ alu(y,rd(ea())); T=19; return; }
  switch(op){
  case 0x09: ix=add16(ix,s.r[0]); T=15; return; case 0x19: ix=add16(ix,s.r[1]); T=15; return;
  case 0x29: ix=add16(ix,ix); T=15; return; case 0x39: ix=add16(ix,s.sp); T=15; return;
  case 0x21: ix=f16(); T=14; return; case 0x22: wr16(f16(),ix); T=20; return; case 0x2a: ix=rd16(f16()); T=20; return;
  case 0x23: ix++; T=10; return; case 0x2b: ix--; T=10; return;
  case 0x34: case 0x35: { u16 a=ea(); wr(a,incdec(rd(a),op&1)); T=23; return; }
  case 0x36: { u16 a=ea(); wr(a,f8()); T=19; return; }
  case 0xe1: ix=pop(); T=14; return; case 0xe5: push(ix); T=15; return;
  case 0xe3: { u16 v=rd16(s.sp); wr16(s.sp,ix); ix=v; T=23; return; }
  case 0xe9: s.pc=ix; T=8; return; case 0xf9: s.sp=ix; T=10; return; }
}
static void ed(u16 ipc){ u8 op=f8(); int y=(op>>3)&7,z=op&7; T=0;
  if(op<0x80) switch(z){
  case 0: { u8 v=IN.r(s.r[0]&0xff); sr(y,v); szp(v); setf(H|N,0); T=12; return; }
  case 1: OUT.w(s.r[0]&0xff,gr(y)); T=12; return;
  case 2: { u16 h=s.r[2],b=rp(y>>1); int c=s.f&C; unsigned r; T=15; if(y&1){ r=h+b+c; setf(C,r>0xffff); setf(H,(h&0xfff)+(b&0xfff)+c>0xfff); setf(P,(~(h^b)&(h^r))&0x8000); setf(N,0); }
     else { r=h-b-c; setf(C,(int)h-b-c<0); setf(H,(int)(h&0xfff)-(b&0xfff)-c<0); setf(P,((h^b)&(h^r))&0x8000); setf(N,1); } s.r[2]=r; setf(S,r&0x8000); setf(Z,!(r&0xffff)); return; }
  case 3: { u16 a=f16(); T=20; if(y&1) rp(y>>1)=rd16(a); else wr16(a,rp(y>>1)); return; }
  case 4: { u8 a=s.a; s.a=0; alu(2,a); T=8; return; }
  case 5: s.pc=pop(); T=14; return;
  case 6: T=8; return;
  case 7: switch(y){ case 0: s.i=s.a; T=9; return; case 1: T=9; return; case 2: s.a=s.i; sz(s.a); setf(H|N,0); setf(P,s.iff); T=9; return; case 3: cmpA=false; fm&=~(S|Z); setf(H|N,0); setf(P,s.iff); T=9; return;
     case 4: { u8 v=rd(s.r[2]); wr(s.r[2],v>>4|s.a<<4); s.a=(s.a&0xf0)|(v&15); szp(s.a); setf(H|N,0); T=18; return; }
     case 5: { u8 v=rd(s.r[2]); wr(s.r[2],v<<4|(s.a&15)); s.a=(s.a&0xf0)|v>>4; szp(s.a); setf(H|N,0); T=18; return; } } return;
  }
  int d=(op&8)?-1:1; bool rep=op&0x10, again=false; u16 hl=s.r[2];
  switch(z){
  case 0: wr(s.r[1],rd(hl)); s.r[2]+=d; s.r[1]+=d; s.r[0]--; setf(H|N,0); setf(P,s.r[0]); again=s.r[0]; break;
  case 1: { u8 v=rd(hl); u8 r=s.a-v; sz(r); setf(H,(s.a&15)<(v&15)); setf(N,1); s.r[2]+=d; s.r[0]--; setf(P,s.r[0]); again=s.r[0]&&r; break; }
  case 2: { wr(hl,IN.r(s.r[0]&0xff)); s.r[2]+=d; s.r[0]-=0x100; setf(Z,!(s.r[0]>>8)); fm=Z|C; again=s.r[0]>>8; break; }
  case 3: { s.r[0]-=0x100; OUT.w(s.r[0]&0xff,rd(hl)); s.r[2]+=d; setf(Z,!(s.r[0]>>8)); fm=Z|C; again=s.r[0]>>8; break; }
  }
  T=16; if(rep&&again){ s.pc=ipc; T=21; }
}
static void step(){
  u16 ipc=s.pc; T=0; fm=ALLF; cmpA=true;
  u8 op=f8(); int x=op>>6,y=(op>>3)&7,z=op&7,p=y>>1,q=y&1;
  if(x==1){ sr(y,gr(z)); T=(y==6||z==6)?7:4; return; }
  if(x==2){ alu(y,gr(z)); T=z==6?7:4; return; }
  if(x==0) switch(z){
  case 0: switch(y){ case 0: T=4; return; case 1: { u16 t=s.aaf; s.aaf=s.a<<8|s.f; s.a=t>>8; s.f=t; T=4; return; }
    case 2: { u8 d=f8(); s.r[0]-=0x100; bool t=s.r[0]>>8; if(t) s.pc+=(i8)d; T=t?13:8; return; }
    case 3: { u8 d=f8(); s.pc+=(i8)d; T=12; return; }
    default: { u8 d=f8(); bool t=cc(y-4); if(t) s.pc+=(i8)d; T=t?12:7; return; } }
  case 1: if(!q){ rp(p)=f16(); T=10; } else { s.r[2]=add16(s.r[2],rp(p)); T=11; } return;
  case 2: switch(y){ case 0: wr(s.r[0],s.a); T=7; return; case 1: s.a=rd(s.r[0]); T=7; return; case 2: wr(s.r[1],s.a); T=7; return; case 3: s.a=rd(s.r[1]); T=7; return;
    case 4: wr16(f16(),s.r[2]); T=16; return; case 5: s.r[2]=rd16(f16()); T=16; return; case 6: wr(f16(),s.a); T=13; return; case 7: s.a=rd(f16()); T=13; return; } return;
  case 3: if(q) rp(p)--; else rp(p)++; T=6; return;
  case 4: case 5: sr(y,incdec(gr(y),z==5)); T=y==6?11:4; return;
  case 6: { u8 v=f8(); sr(y,v); T=y==6?10:7; return; }
  case 7: T=4; switch(y){
    case 0: { bool c=s.a>>7; s.a=s.a<<1|c; setf(C,c); setf(H|N,0); return; } case 1: { bool c=s.a&1; s.a=s.a>>1|c<<7; setf(C,c); setf(H|N,0); return; }
    case 2: { bool c=s.a>>7; s.a=s.a<<1|(s.f&C); setf(C,c); setf(H|N,0); return; } case 3: { bool c=s.a&1; s.a=s.a>>1|(s.f&C)<<7; setf(C,c); setf(H|N,0); return; }
    case 4: { u8 a=s.a,corr=0; bool c=s.f&C; if((a&15)>9||(s.f&H)) corr=6; if(a>0x99||c){ corr|=0x60; c=true; }
       if(s.f&N){ setf(H,(s.f&H)&&(a&15)<6); s.a=a-corr; } else { setf(H,(a&15)>9); s.a=a+corr; } szp(s.a); setf(C,c); return; }
    case 5: s.a=~s.a; setf(H|N,1); return; case 6: setf(C,1); setf(H|N,0); return; case 7: { bool c=s.f&C; setf(H,c); setf(C,!c); setf(N,0); return; } } return;
  }
  switch(z){
  case 0: { bool t=cc(y); if(t) s.pc=pop(); T=t?11:5; return; }
  case 1: if(!q){ u16 v=pop(); T=10; if(p==3){ s.a=v>>8; s.f=v; } else s.r[p]=v; return; }
    switch(p){ case 0: s.pc=pop(); T=10; return; case 1: std::swap(s.r[0],s.ab); std::swap(s.r[1],s.ad); std::swap(s.r[2],s.ah); T=4; return; case 2: s.pc=s.r[2]; T=4; return; case 3: s.sp=s.r[2]; T=6; return; } return;
  case 2: { u16 a=f16(); if(cc(y)) s.pc=a; T=10; return; }
  case 3: switch(y){ case 0: s.pc=f16(); T=10; return; case 1: cb(); return; case 2: OUT.w(f8(),s.a); T=11; return; case 3: s.a=IN.r(f8()); T=11; return;
    case 4: { u16 v=rd16(s.sp); wr16(s.sp,s.r[2]); s.r[2]=v; T=19; return; } case 5: std::swap(s.r[1],s.r[2]); T=4; return; case 6: s.iff=false; T=4; return; case 7: s.iff=true; T=4; return; } return;
  case 4: { u16 a=f16(); bool t=cc(y); if(t){ push(s.pc); s.pc=a; } T=t?17:10; return; }
  case 5: if(!q){ push(p==3?s.a<<8|s.f:s.r[p]); T=11; return; } switch(p){ case 0: { u16 a=f16(); push(s.pc); s.pc=a; T=17; return; } case 1: xy(s.ix); return; case 2: ed(ipc); return; case 3: xy(s.iy); return; } return;
  case 6: alu(y,f8()); T=7; return;
  case 7: push(s.pc); s.pc=y*8; T=11; return;
  }
}
static void put(){ cA->set(s.a);cF->set(s.f);cI->set(s.i);for(int i=0;i<3;i++)cR[i]->set(s.r[i]);cIX->set(s.ix);cIY->set(s.iy);cSP->set(s.sp);cAA->set(s.aaf);cAB->set(s.ab);cAD->set(s.ad);cAH->set(s.ah);U->PC=s.pc; }
static St get(){ St r=s; r.a=cA->get();r.f=cF->get();r.i=cI->get();for(int i=0;i<3;i++)r.r[i]=cR[i]->get();r.ix=cIX->get();r.iy=cIY->get();r.sp=cSP->get();r.aaf=cAA->get();r.ab=cAB->get();r.ad=cAD->get();r.ah=cAH->get();r.pc=U->PC; return r; }
static std::string str(const St&t){ return vfmt("A=%02x F=%02x BC=%04x DE=%04x HL=%04x IX=%04x IY=%04x SP=%04x PC=%04x I=%02x iff=%d",t.a,t.f,t.r[0],t.r[1],t.r[2],t.ix,t.iy,t.sp,t.pc,t.i,t.iff); }
// documented opcodes: 0 main,1 cb,2 ed,3 dd,4 fd,5 ddcb,6 fdcb
static std::vector<std::array<u8,5>> L;
static void mk(){
  for(int o=0;o<256;o++){ if(o!=0x76&&o!=0xcb&&o!=0xdd&&o!=0xed&&o!=0xfd) L.push_back({0,(u8)o});
    if((o&0xf8)!=0x30) L.push_back({1,(u8)o});
    bool e=false; if(o>=0x40&&o<0x80){ int z=o&7; e= z<=3 || o==0x44||o==0x45||o==0x4d||o==0x46||o==0x56||o==0x5e||o==0x47||o==0x57||o==0x5f||o==0x67||o==0x6f; if(o==0x70||o==0x71||o==0x63||o==0x6b) e=false; }
    if((o&0xe4)==0xa0) e=true; if(e) L.push_back({2,(u8)o});
    bool d=false; switch(o){ case 9:case 0x19:case 0x29:case 0x39:case 0x21:case 0x22:case 0x2a:case 0x23:case 0x2b:case 0x34:case 0x35:case 0x36:case 0xe1:case 0xe3:case 0xe5:case 0xe9:case 0xf9: d=true; }
    if((o>=0x40&&o<0xc0&&(o&7)==6&&o!=0x76)||(o>=0x70&&o<0x78&&o!=0x76)) d=true; if(d){ L.push_back({3,(u8)o}); L.push_back({4,(u8)o}); }
    if((o&7)==6&&o!=0x36){ L.push_back({5,(u8)o}); L.push_back({6,(u8)o}); } } }
int vh_main(){
  cA=vh_var("A");cF=vh_var("F");cI=vh_var("I");cR[0]=vh_var("BC");cR[1]=vh_var("DE");cR[2]=vh_var("HL");cIX=vh_var("IX");cIY=vh_var("IY");cSP=vh_var("SP");
  cAA=vh_var("ALT_AF");cAB=vh_var("ALT_BC");cAD=vh_var("ALT_DE");cAH=vh_var("ALT_HL");
  Rng g(vh_seed); mk(); bool noT=vh_mode=="notick"; bool io=!vh_envl("VH_NOIO",0);
  M.attach(U->rom,0x10000); M.randomize(g,0,0x10000); IN.attach(vh_as("inputs"),0x100); IN.randomize(g,0,0x100); OUT.attach(vh_as("outputs"),0x100); (void)io;
  long total=0; u32 li=g.below(L.size()); s.iff=false; U->reset(); while(U->stack_ops->count) delete U->stack_ops->pop();
  while(total<vh_cases){
    s.a=g.b();s.f=g.next();s.i=g.b();for(int i=0;i<3;i++)s.r[i]=g.w();s.ix=g.w();s.iy=g.w();s.sp=g.w();s.aaf=g.w();s.ab=g.w();s.ad=g.w();s.ah=g.w(); s.pc=g.chance(5)?0xfffa+g.below(6):g.next(); put();
    if(g.chance(10)) IN.poke(g.below(256),g.b());
    int len=g.chance(70)?1:2+g.below(40);
    for(int k=0;k<len;k++){
      li=(li+1)%L.size(); auto e=L[li]; u8 c[4]={e[1],g.b(),g.b(),g.b()};
      switch(e[0]){ case 1: c[0]=0xcb;c[1]=e[1];break; case 2: c[0]=0xed;c[1]=e[1];break; case 3: c[0]=0xdd;c[1]=e[1];break; case 4: c[0]=0xfd;c[1]=e[1];break; case 5: c[0]=0xdd;c[1]=0xcb;c[3]=e[1];break; case 6: c[0]=0xfd;c[1]=0xcb;c[3]=e[1];break; }
      for(int i=0;i<4;i++) M.poke((u16)(s.pc+i),c[i]);
      if(g.chance(15)) for(u16 a:{s.r[2],(u16)(s.r[2]+1),s.sp,(u16)(s.ix+(i8)c[2])}) { u16 d=a-s.pc; if(d>3) M.poke(a,g.b()); }
      if(e[0]==2&&(e[1]&0xe7)==0xa1&&g.chance(30)){ u16 d=s.r[2]-s.pc; if(d>3) M.poke(s.r[2],s.a); }
      if(e[0]==2&&e[1]>=0xa0&&g.chance(25)){ s.r[0]=(s.r[0]&((e[1]&2)?0xff:0))|(1+g.below(2))*((e[1]&2)?0x100:1); put(); }
      u32 opk=e[0]<<8|e[1]; St pre=s; vh_case("z80:op=%d/%02x %s",e[0],e[1],str(pre).c_str());
      M.clear(); OUT.clear(); step();
      bool selfmod=false; for(u32 ta: M.touched) if(((ta-pre.pc)&0xffff)<4) selfmod=true; int t0=U->ticks->get_ticks(); U->do_inst(); int tk=U->ticks->get_ticks()-t0; St r=get();
      std::string d,what; bool bad=false;
      auto ck=[&](const char*n,u32 a,u32 b){ if(a!=b){ bad=true; if(what.size())what+="+"; what+=n; d+=vfmt(" %s=%x want %x",n,a,b);} };
      if(cmpA) ck("A",r.a,s.a); ck("F",r.f&fm,s.f&fm); ck("BC",r.r[0],s.r[0]);ck("DE",r.r[1],s.r[1]);ck("HL",r.r[2],s.r[2]);ck("IX",r.ix,s.ix);ck("IY",r.iy,s.iy);ck("SP",r.sp,s.sp);ck("PC",r.pc,s.pc);ck("I",r.i,s.i);
      ck("AF'",r.aaf&0xffd7,s.aaf&0xffd7);ck("BC'",r.ab,s.ab);ck("DE'",r.ad,s.ad);ck("HL'",r.ah,s.ah); if(T&&!noT&&!selfmod) ck("ticks",tk,T);
      std::string md; if(!M.cmp_touched(md)||!OUT.cmp_touched(md)){ bad=true; what+=what.size()?"+mem":"mem"; d+=md; for(u32 a:M.touched) M.cells[a]->set(M.m[a]); for(u32 a:OUT.touched) OUT.cells[a]->set(OUT.m[a]); }
      if(bad){ vh_fail(vfmt("z80:op=%d/%02x:%s",e[0],e[1],what.c_str()),str(pre)+vfmt(" code=%02x %02x %02x %02x ->",c[0],c[1],c[2],c[3])+d); s.f=(s.f&fm)|(r.f&~fm); put(); }
      else { s.f=r.f; s.a=r.a; s.aaf=r.aaf; }
      if(total<4) vh_sample(str(pre)+vfmt(" code %02x %02x %02x %02x -> ",c[0],c[1],c[2],c[3])+str(r));
      vh_distinct("op/flags",(u64)opk<<16|pre.f<<8|r.f); total++;
      if((total&1023)==0){ U->errors->free_all(); while(U->stack_ops->count) delete U->stack_ops->pop(); }
      U->state=stGO;
    }
    if(total%700<len){ std::string e; if(!M.cmp_all(e)||!OUT.cmp_all(e)) vh_fail("z80:stray-write","memory not written by the instruction stream changed:"+e); vh_stat("fullmem",1); }
  }
  vh_stat("cases",total); return 0;
}
