// MCS-51 timer and interrupt monitor: timers 0, 1, 2, external interrupts, priorities and idle mode of
// the 8052, next to a model written from the Intel hardware description. One evaluation is one
// instruction (or one idle cycle); everything timers and interrupts may change is compared after it.
#include "vh.h"
static Rng g(1);
enum { P1=0x90,P3=0xb0,TCON=0x88,TMOD=0x89,TL0=0x8a,TL1=0x8b,TH0=0x8c,TH1=0x8d,SCON=0x98,IE=0xa8,IP=0xb8,T2CON=0xc8,RC2L=0xca,RC2H=0xcb,TL2=0xcc,TH2=0xcd,PCON=0x87,T2MOD=0xc9,SP=0x81 };
static u8 S[256]; static u8 pin1, pin3; static u16 pc; static bool idle, hold; static std::vector<int> lev; // lev: priorities in service
static int ed[3], edx; static bool dcen; static std::string ctx; static int why; // edges seen and not yet counted
static cl_memory_cell *cp1,*cp3; static cl_address_space *sfr,*iram,*rom; static bool hasmod;
static u8 IR[256];
static void port(u8 o1,u8 o3){
  u8 n1=S[P1]&pin1,n3=S[P3]&pin3; if((o3&0x10)&&!(n3&0x10)) ed[0]++; if((o3&0x20)&&!(n3&0x20)) ed[1]++; if((o1&1)&&!(n1&1)) ed[2]++; if((o1&2)&&!(n1&2)) edx++;
  if((S[TCON]&1)&&(o3&4)&&!(n3&4)) S[TCON]|=2; if((S[TCON]&4)&&(o3&8)&&!(n3&8)) S[TCON]|=8; }
static void wr(u8 a,u8 v){
  u8 o1=S[P1]&pin1,o3=S[P3]&pin3; if(a==T2CON){ u8 x=S[a]^v; if(x&0x35) ed[2]=edx=0; } if(a==TMOD||a==TCON) ed[0]=ed[1]=0;
  if(a==T2MOD&&((S[a]^v)&1)) ed[2]=edx=0;
  S[a]=v; if(a==P1||a==P3) port(o1,o3); if(a==IE||a==IP) hold=true; }
static bool run(int t){ u8 m=S[TMOD]>>(4*t); if(!(S[TCON]&(0x10<<(2*t)))) return false; if((m&8)&&!(S[P3]&pin3&(4<<t))) return false; return true; }
static void tf(int t){ S[TCON]|=0x20<<(2*t); why|=1<<t; }
static void t01(int t){ // one machine cycle
  u8 m=S[TMOD]>>(4*t); int mode=m&3, n=1; bool r=run(t); int e=ed[t]; ed[t]=0;
  if(t==0&&mode==3&&(S[TCON]&0x40)){ if(!++S[TH0]) S[TCON]|=0x80; }
  if(!r||(t==1&&mode==3)) return; if(m&4) n=e;
  while(n--) switch(mode){
    case 0: S[TL0+t]++; if(!(S[TL0+t]&31)){ S[TL0+t]=0; if(!++S[TH0+t]) tf(t); } break;
    case 1: if(!++S[TL0+t]&&!++S[TH0+t]) tf(t); break;
    case 2: if(!++S[TL0+t]){ S[TL0+t]=S[TH0+t]; tf(t); } break;
    default: if(!++S[TL0+t]) tf(t); } }
static void t2(){ u8 c=S[T2CON]; int e=ed[2], x=edx; ed[2]=edx=0; bool baud=c&0x30, cap=(c&1)&&!baud; int n=c&2?e:baud?6:1;
  bool down=!baud&&!cap&&(S[T2MOD]&1);
  if((c&8)&&x&&!down){ S[T2CON]|=0x40; if(!baud){ if(cap) S[RC2H]=S[TH2],S[RC2L]=S[TL2]; else S[TH2]=S[RC2H],S[TL2]=S[RC2L]; } }
  if(!(c&4)) return;
  while(n--){ u16 v=S[TH2]<<8|S[TL2], rc=S[RC2H]<<8|S[RC2L]; bool o=false;
    if(down&&!(S[P1]&pin1&2)){ if(v<=rc){ v=0xffff; o=true; } else v--; if(o){ S[T2CON]|=0x80; S[T2CON]^=0x40; why|=32; } }
    else { o=!++v; if(o&&!cap) v=rc; if(o&&!baud){ S[T2CON]|=0x80; why|=4; if(down) S[T2CON]^=0x40; } }
    S[TH2]=v>>8; S[TL2]=v; } }
static void cyc(int n){ while(n--){ for(int k=0;k<2;k++) if(!(S[TCON]&(1<<(2*k)))){ if(S[P3]&pin3&(4<<k)) S[TCON]&=~(2<<(2*k)); else S[TCON]|=2<<(2*k); } t01(0); t01(1); t2(); } }
static int cycles;
static void irq(){
  if(hold||!(S[IE]&0x80)) return; static const struct{ u8 m,reg,flag,vec; bool clr; } q[]={{1,TCON,2,3,true},{2,TCON,0x20,0xb,true},{4,TCON,8,0x13,true},{8,TCON,0x80,0x1b,true},{16,SCON,3,0x23,false},{32,T2CON,0xc0,0x2b,false}};
  bool down=!(S[T2CON]&0x31)&&(S[T2MOD]&1); int b=-1,bp=lev.empty()?-1:lev.back();
  for(int i=0;i<6;i++){ u8 f=q[i].flag; if(i==5&&down) f=0x80; if((S[IE]&q[i].m)&&(S[q[i].reg]&f)){ int p=(S[IP]&q[i].m)?1:0; if(p>bp){ b=i; bp=p; } } }
  if(b<0) return; if(q[b].clr) { S[q[b].reg]&=~q[b].flag; if(q[b].reg==TCON) ed[0]=ed[1]=0; } lev.push_back(bp); S[SP]++; IR[S[SP]]=pc; S[SP]++; IR[S[SP]]=pc>>8; pc=q[b].vec; idle=false; S[PCON]&=~1; cyc(2); cycles+=2; why|=8|(lev.size()>1?16:0)|(bp<<8)|b<<9; }
static u8 rnd(u8 a){ switch(a){ case TMOD:{ u8 v=g.next(); if((v&3)==3) v|=0x30; return v; } case T2CON: return g.chance(25)?g.next():(g.next()&0xcf); case TCON: return g.next(); case IE: return g.next()|(g.chance(70)?0x80:0); case TL0: case TL1: case TH0: case TH1: case TL2: case TH2: return g.chance(60)?0xff-g.below(6):g.next();
  case RC2L: return g.chance(60)?0xff-g.below(6):g.next(); case RC2H: return g.chance(70)?0xff:g.next(); case P1: case P3: return g.chance(60)?0xff:g.next(); case T2MOD: return g.chance(60)?0:1; } return g.next(); }
static const u8 regs[]={TMOD,TCON,TL0,TL1,TH0,TH1,IE,IP,T2CON,RC2L,RC2H,TL2,TH2,P1,P3,T2MOD};
static u8 code[3]; static int len;
static bool ram_ok(){ return S[SP]>0x30&&S[SP]<0xc0; }
static void insn(){ // chooses and models one instruction; sets cycles
  u16 at=pc; auto emit=[&](int n,u8 a,u8 b,u8 c){ code[0]=a; code[1]=b; code[2]=c; len=n; pc+=n; };
  auto reg=[&]()->u8{ int n=sizeof regs-(hasmod?0:1); return regs[g.below(n)]; };
  hold=false; int k=g.below(ed[0]||ed[1]||ed[2]||edx?34:100); cycles=1; // an edge together with a write of a control register is not judged
  if(k<20) emit(1,0,0,0);                                       // NOP
  else if(k<28){ emit(2,0x80,0,0); cycles=2; }                 // SJMP next
  else if(k<34){ emit(1,0xa4,0,0); cycles=4; sfr->get_cell(0xe0)->set(0); } // MUL AB
  else if(k<64){ u8 a=reg(),v=rnd(a); emit(3,0x75,a,v); cycles=2; wr(a,v); } // MOV dir,#imm
  else if(k<78){ static const u8 bb[]={TCON,TCON,T2CON,T2CON,IE,IP,P1,P3,SCON}; u8 a=bb[g.below(9)]; int bit=a==SCON?g.below(2):a==P3?2+g.below(4):a==P1?g.below(2):g.below(8); bool s=g.chance(50); if(a==T2CON&&(bit==4||bit==5)) s=g.chance(20); emit(2,s?0xd2:0xc2,a+bit,0); wr(a,s?S[a]|1<<bit:S[a]&~(1<<bit)); }
  else if(k<84){ u8 a=reg(); if(a==P1||a==P3||a==TMOD) a=TCON; u8 v=g.next(); bool o=g.chance(50); emit(3,o?0x43:0x53,a,v); cycles=2; wr(a,o?S[a]|v:S[a]&v); }
  else if(k<88){ static const u8 z[]={TL0,TL1,TL2,TH0,RC2L}; u8 a=z[g.below(5)]; emit(2,0x05,a,0); wr(a,S[a]+1); }
  else if(k<96&&ram_ok()&&(!lev.empty()||g.chance(10))){ emit(1,0x32,0,0); cycles=2; u8 h=IR[S[SP]],l=IR[(u8)(S[SP]-1)]; S[SP]-=2; pc=h<<8|l; if(!lev.empty()) lev.pop_back(); hold=true; }
  else if(k<98){ u8 v=g.chance(12)?1:0; emit(3,0x75,PCON,v); cycles=2; S[PCON]=v; }
  else emit(1,0,0,0);
  for(int i=0;i<len;i++) rom->get_cell((at+i)&0xffff)->set(code[i]); }
static bool cmp(std::string &w,std::string &d){
  auto c=[&](const char *n,u32 a,u32 b){ if(a!=b){ if(w.size()) w+="+"; w+=n; d+=vfmt(" %s=%x want %x",n,a,b); } };
  static const struct{ const char*n; u8 a; } q[]={{"TCON",TCON},{"TMOD",TMOD},{"TH0",TH0},{"TH1",TH1},{"TL0",TL0},{"TL1",TL1},{"IE",IE},{"IP",IP},{"T2CON",T2CON},{"TH2",TH2},{"TL2",TL2},{"RCAP2H",RC2H},{"RCAP2L",RC2L},{"SCON",SCON},{"PCON",PCON},{"SP",SP},{"P1",P1},{"P3",P3}};
  for(auto &x:q){ u8 m=0xff; if(x.a==TL0&&!(S[TMOD]&3)) m=31; if(x.a==TL1&&!(S[TMOD]&0x30)) m=31; c(x.n,sfr->get_cell(x.a)->get()&m,S[x.a]&m); }
  c("PC",U->PC,pc); c("idle",U->state==stIDLE,idle); c("service-level",U->it_levels->count-1,lev.size()); if(S[SP]>1) for(int k=0;k<2;k++) c("stack",iram->get_cell((u8)(S[SP]-k))->get(),IR[(u8)(S[SP]-k)]);
  return w.empty(); }
int vh_main(){
  g=Rng(vh_seed); sfr=vh_as("sfr"); iram=vh_as("iram"); rom=U->rom; cp1=vh_var("pins1"); cp3=vh_var("pins3"); hasmod= vh_mode=="t2mod"; long n=0;
  while(n<vh_cases){
    // a fresh situation, written the way a program would
    while(U->it_levels->count>1) delete (it_level*)U->it_levels->pop(); lev.clear(); U->state=stGO; idle=false;
    cp1->write(0xff); cp3->write(0xff); pin1=pin3=0xff; for(int i=0;i<256;i++){ IR[i]=g.b(); iram->get_cell(i)->set(IR[i]); }
    for(u8 a: regs){ if(a==T2MOD&&!hasmod){ S[a]=0; continue; } u8 v=(a==P1||a==P3)?0xff:rnd(a); S[a]=v; sfr->get_cell(a)->write(v); } S[SCON]=g.next()&3; sfr->get_cell(SCON)->write(S[SCON]); S[PCON]=0; sfr->get_cell(PCON)->write(0); S[SP]=0x40; sfr->get_cell(SP)->write(0x40);
    // flags set by the level inputs during the setup are defined by a final write
    sfr->get_cell(TCON)->write(S[TCON]); sfr->get_cell(T2CON)->write(S[T2CON]); if(hasmod) sfr->get_cell(T2MOD)->write(S[T2MOD]); ed[0]=ed[1]=ed[2]=edx=0; pc=g.next(); U->PC=pc;
    int len_=30+g.below(170);
    for(int k=0;k<len_;k++){
      std::string pre=vfmt("TCON=%02x TMOD=%02x T0=%02x%02x T1=%02x%02x T2CON=%02x T2=%02x%02x RCAP2=%02x%02x T2MOD=%02x IE=%02x IP=%02x P1=%02x/%02x P3=%02x/%02x PC=%04x levels=%d idle=%d",S[TCON],S[TMOD],S[TH0],S[TL0],S[TH1],S[TL1],S[T2CON],S[TH2],S[TL2],S[RC2H],S[RC2L],S[T2MOD],S[IE],S[IP],S[P1],pin1,S[P3],pin3,pc,(int)lev.size(),idle);
      if(g.chance(25)){ u8 o1=S[P1]&pin1,o3=S[P3]&pin3; if(g.chance(50)){ pin3=g.chance(60)?pin3^(4<<g.below(4)):g.next(); cp3->write(pin3); } else { pin1=g.chance(60)?pin1^(1<<g.below(2)):g.next(); cp1->write(pin1); } port(o1,o3); pre+=vfmt(" pins %02x,%02x",pin1,pin3); }
      why=0; bool was=idle; double tk=U->ticks->get_ticks();
      if(idle){ hold=false; cycles=1; len=0; } else { insn(); pre+=" code"; for(int i=0;i<len;i++) pre+=vfmt(" %02x",code[i]); }
      int icyc=cycles; vh_case("%s",pre.c_str()); cyc(icyc); irq(); if(!(why&8)&&(S[PCON]&1)) idle=true;
      U->do_inst(); U->errors->free_all(); U->events->disconn_all(); n++;
      std::string w,d; bool ok=cmp(w,d); long dt=U->ticks->get_ticks()-tk; if(dt!=cycles*12){ ok=false; if(w.size()) w+="+"; w+="clocks"; d+=vfmt(" clocks %ld want %d",dt,cycles*12); }
      vh_distinct("mode/flags/event",(u64)why<<32|(u64)(S[TMOD])<<24|(S[T2CON]&0x3f)<<16|S[TCON]); if(why&8){ vh_stat("interrupts-accepted",1); if(why&16) vh_stat("nested",1); } if(why&7) vh_stat("overflows",1); if(was) vh_stat("idle-cycles",1); if(was&&!idle) vh_stat("wake-ups",1);
      if(n<4) vh_sample(pre);
      if(!ok){ const char *o=was?"idle":code[0]==0x75?"mov":code[0]==0x32?"reti":(code[0]&0xef)==0xc2?"bit":"other"; vh_fail(vfmt("C52:%s:%s:%s",w.c_str(),o,why&8?"irq":why?"overflow":"-"),pre+" ->"+d); break; }
      for(int t=0;t<2;t++) S[TL0+t]=sfr->get_cell(TL0+t)->get(); // upper bits of TLx in mode 0 are not defined
      if(S[SP]>0xd0||S[SP]<0x20) break; }
  }
  vh_stat("cases",n); return 0; }
