// Multiplication/division unit monitor (80C517 and XC88x): one evaluation is one operation, started by
// MOV instructions of a running program, results and status against arithmetic.
#include "vh.h"
static Rng g(1); static cl_address_space *sfr,*rom,*iram; static u16 pc;
static void mov(u8 a,u8 v){ if(g.chance(10)){ rom->get_cell(pc)->set(0); U->PC=pc; U->do_inst(); pc=U->PC; }
  u8 c[3]={0x75,a,v}; int k=g.below(3); if(k==1){ sfr->get_cell(0xe0)->set(v); c[0]=0xf5; } else if(k==2){ iram->get_cell(0x40)->set(v); c[0]=0x85; c[1]=0x40; c[2]=a; }
  for(int i=0;i<3;i++) rom->get_cell((pc+i)&0xffff)->set(c[i]); U->PC=pc; U->do_inst(); pc=U->PC; U->errors->free_all(); }
static u8 rd(u8 a){ rom->get_cell(pc)->set(0xe5); rom->get_cell((pc+1)&0xffff)->set(a); U->PC=pc; U->do_inst(); pc=U->PC; U->errors->free_all(); return sfr->get_cell(0xe0)->get(); }
static u32 val(){ u32 v=g.next()<<16^g.next(); switch(g.below(6)){ case 0: return v>>g.below(32); case 1: return (u32)g.w()<<16|g.w(); case 2: return 1u<<g.below(32); case 3: return g.w(); } return v; }
int vh_main(){
  g=Rng(vh_seed); sfr=vh_as("sfr"); rom=U->rom; iram=vh_as("iram"); bool x=vh_mode=="xc"; long n=0; const u8 base=x?0xb2:0xe9; u8 prev=0;
  while(n<vh_cases){ pc=g.next(); int op=g.below(x?9:4); u32 d=val(); u16 r=g.chance(5)?0:g.chance(60)?g.w():1u<<g.below(16); u8 st=1+g.below(31); bool left=g.chance(50); u8 md[6]={(u8)d,(u8)(d>>8),(u8)(d>>16),(u8)(d>>24),(u8)r,(u8)(r>>8)};
    // names: 0 32/16, 1 16/16, 2 16*16, 3 norm, 4 shift, 5 s32/16 6 s16/16 7 s16*16 8 ashift
    static const char*nm[]={"div32","div16","mul","norm","shift","sdiv32","sdiv16","smul","ashift"}; if(!x&&op==3&&g.chance(50)) op=4; const u8 dir=left?0x20:0;
    std::string in=vfmt("%s MD=%08x,%04x steps %d%s",nm[op],d,r,st,left?" left":""); vh_case("%s",in.c_str());
    if(!x) switch(op){
      case 0: for(int i=0;i<6;i++) mov(base+i,md[i]); break;
      case 1: mov(base,md[0]); mov(base+1,md[1]); mov(base+4,md[4]); mov(base+5,md[5]); break;
      case 2: mov(base,md[0]); mov(base+4,md[4]); mov(base+1,md[1]); mov(base+5,md[5]); break;
      default: for(int i=0;i<4;i++) mov(base+i,md[i]); mov(0xef,op==3?0:st|dir); }
    else { if(op==4||op==8) md[4]=st|dir; bool rev=g.chance(30); for(int i=0;i<6;i++){ int k=rev?5-i:i; mov(base+k,md[k]); } static const u8 code[]={2,1,0,8,3,6,5,4,7}; mov(0xb1,0x10|code[op]); for(int i=0;i<20+(int)g.below(30);i++){ rom->get_cell(pc)->set(0); U->PC=pc; U->do_inst(); pc=U->PC; } }
    u8 o[6]; for(int i=0;i<6;i++) o[i]=rd(base+i); u8 con=x?rd(0xb0):sfr->get_cell(0xef)->get();
    u32 q=o[0]|o[1]<<8|o[2]<<16|(u32)o[3]<<24; u16 rem=o[4]|o[5]<<8; u16 q16=q, a16=d; n++; std::string w; int ov=-1; // ov: expected overflow, -1 not judged
    switch(op){
      case 0: if(r){ if(q!=d/r) w="quotient"; else if(rem!=d%r) w="remainder"; ov=0; } else ov=1; break;
      case 1: if(r){ if(q16!=a16/r) w="quotient"; else if(rem!=a16%r) w="remainder"; ov=0; } else ov=1; break;
      case 2: if(q!=(u32)a16*r) w="product"; ov=(u32)a16*r>0xffff; break;
      case 3: { u32 e=d; int k=0; while(e&&!(e&0x80000000)){ e<<=1; k++; } if(q!=e) w="value"; else if(!(d&0x80000000)&&((x?o[4]:con)&31)!=k) w="count"; if(d&0x80000000) ov=1; } break;
      case 4: if(q!=(left?d<<st:d>>st)) w="value"; break;
      case 8: if(q!=(left?d<<st:(u32)((i32)d>>st))) w="value"; break;
      case 5: if(r){ i64 a=(i32)d,b=(i16)r; if(q!=(u32)(a/b)) w="quotient"; else if(rem!=(u16)(a%b)) w="remainder"; } break;
      case 6: if(r){ int a=(i16)a16,b=(i16)r; if(q16!=(u16)(a/b)) w="quotient"; else if(rem!=(u16)(a%b)) w="remainder"; } break;
      case 7: if(q!=(u32)((i32)(i16)a16*(i16)r)) w="product"; break; }
    if(w.empty()&&!x&&ov>=0&&((con>>6)&1)!=ov) w="overflow";
    if(w.empty()&&x&&(con&4)) w="busy";
    vh_distinct("operation/magnitude",op|(u64)(d?__builtin_clz(d):32)<<4|(u64)(r?__builtin_clz(r):32)<<10|(u64)(op==4||op==8?st|dir:0)<<20); vh_stat(nm[op],1); if(n<6) vh_sample(in+vfmt(" -> %08x,%04x status %02x",q,rem,con));
    if(w.size()) vh_fail(vfmt("%s:%s:%s",x?"XC88X":"517",nm[op],w.c_str()),in+vfmt(" -> %08x,%04x status %02x",q,rem,con)); }
  vh_stat("cases",n); return 0; }
