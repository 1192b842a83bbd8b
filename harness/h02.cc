// MCS-51 serial port monitor: the 8052 UART runs programs that write and read SBUF; a clock-time
// observer judges when TI and RI appear, which bytes reach the output file and which come from the input.
#include "vh.h"
#include <unistd.h>
static Rng g(1);
enum { TCON=0x88,TMOD=0x89,TL1=0x8b,TH1=0x8d,SCON=0x98,SBUF=0x99,T2CON=0xc8,RC2L=0xca,RC2H=0xcb,TL2=0xcc,TH2=0xcd,PCON=0x87 };
static cl_address_space *sfr,*rom; static u16 pc; static long now; // clocks
static void step(int n,const u8*c){ for(int i=0;i<n;i++) rom->get_cell((pc+i)&0xffff)->set(c[i]); double t=U->ticks->get_ticks(); U->PC=pc; U->do_inst(); pc=U->PC; now+=(long)(U->ticks->get_ticks()-t); U->errors->free_all(); }
static void mov(u8 a,u8 v){ u8 c[3]={0x75,a,v}; step(3,c); }
static void idle(){ static const u8 mul[1]={0xa4},nop[1]={0}; static const u8 sj[2]={0x80,0}; if(g.chance(10)) step(1,mul); else if(g.chance(30)) step(2,sj); else step(1,nop); }
struct Rate { double bit, grain; };
static Rate rate(int mode,bool t2,bool smod,u8 th1,u16 rc){ double ov; if(mode==0) return {12,12}; if(mode==2) return {smod?32.0:64.0,12}; if(t2){ ov=(65536-rc)*2.0; return {ov*16,ov}; } ov=(256-th1)*12.0; return {ov*(smod?16:32),ov}; }
static std::string slurp(const char*f){ std::string s; FILE*h=fopen(f,"rb"); if(!h) return s; int c; while((c=fgetc(h))!=EOF) s+=(char)c; fclose(h); return s; }
int vh_main(){
  g=Rng(vh_seed); sfr=vh_as("sfr"); rom=U->rom; long n=0; cl_memory_cell *often=vh_var("uart0_check_often"),*nl=vh_var("uart0_nl"); cl_memory_cell *scon=sfr->get_cell(SCON),*sbuf=sfr->get_cell(SBUF); int file=0; const std::string dr=vfmt("dr%d",getpid());
  vh_cmd("set hardware uart[0] raw 1"); nl->write(0); often->write(1);
  for(int i=0;i<65536;i++) rom->get_cell(i)->set(0);
  while(n<vh_cases){
    // one session: one input file, one output file, several configurations after each other
    file++; std::string in,fi=vfmt("in%d_%d",getpid(),file&1),fo=vfmt("out%d_%d",getpid(),file&1); int total=1+g.below(60); for(int i=0;i<total;i++) in+=(char)(g.chance(30)?g.b():g.next());
    bool withnl=g.chance(25); u32 nlv= withnl?(g.chance(50)?13:g.chance(50)?10:13|10<<8):0; nl->write(nlv); std::string expect; // what the line carries, with the configured new line sequence
    if(withnl){ std::string t; for(char ch:in) if(ch!=10&&ch!=13) t+=ch; in.clear(); for(char ch:t){ in+=ch; if(g.chance(20)) in+=g.chance(50)?'\n':'\r', in+='x'; } for(char ch:in) if(ch==10||ch==13){ for(u32 v=nlv;v;v>>=8) expect+=(char)v; } else expect+=ch; } else expect=in;
    FILE*h=fopen(fi.c_str(),"wb"); fwrite(in.data(),1,in.size(),h); fclose(h); unlink(fo.c_str());
    vh_cmd("set hardware uart[0] out \""+fo+"\""); vh_cmd("set hardware uart[0] in \""+fi+"\"");
    std::string sent, got, hist; int segs=1+g.below(4); bool bad=false; std::string ctx;
    for(int s=0;s<segs&&!bad;s++){
      int mode=g.below(4); bool smod=g.chance(50), rclk=g.chance(30), tclk=g.chance(30); u8 th1=g.chance(80)?0xff-g.below(4):0xf0+g.below(16); u16 rc=0xffff-g.below(g.chance(80)?8:40); bool ren=g.chance(80);
      // a program's way to set it up: stop receiving, configure the timers, then the port
      mov(SCON,mode<<6|0); mov(PCON,smod?0x80:0); mov(TCON,0); mov(TMOD,0x20); mov(TH1,th1); mov(TL1,th1); mov(TCON,0x40);
      bool order=g.chance(50); if(order) mov(SCON,mode<<6); mov(T2CON,0); mov(RC2L,rc); mov(RC2H,rc>>8); mov(TL2,rc); mov(TH2,rc>>8); mov(T2CON,4|(rclk?0x20:0)|(tclk?0x10:0)); 
      if(g.chance(20)) { smod=!smod; mov(PCON,smod?0x80:0); }
      Rate tx=rate(mode,tclk,smod,th1,rc), rx=rate(mode,rclk,smod,th1,rc); int bits=mode==0?8:mode==1?10:11;
      ctx=vfmt("mode %d SMOD=%d RCLK=%d TCLK=%d TH1=%02x RCAP2=%04x",mode,smod,rclk,tclk,th1,rc);
      mov(SCON,mode<<6|(ren?0x10:0)); long en=now; hist+=vfmt(" [%ld m%d ren%d got%d rx%.0f]",now,mode,ren,(int)got.size(),rx.bit); 
      bool sending=false; long t0=0,lastri=-1; u8 b=0; int frames=1+g.below(6); long limit=now+(long)((tx.bit>rx.bit?tx.bit:rx.bit)*14*(frames+2)); const double slack=12*8;
      auto fail=[&](const char*k,const std::string&d){ bad=true; vh_fail(vfmt("C52:m%d:%s:%s",mode,k,mode&1?(k[0]=='t'?(tclk?"t2":"t1"):(rclk?"t2":"t1")):"fixed"),ctx+" "+d); };
      vh_distinct("line-configurations",mode|smod<<2|rclk<<3|tclk<<4|ren<<5|(u64)th1<<8|(u64)rc<<16); vh_case("%s",ctx.c_str()); bool doneri=got.size()>=expect.size();
      while(now<limit&&!bad&&(frames>0||sending||(ren&&!doneri&&g.chance(999)&&now<limit))){
        if(!sending&&frames>0&&g.chance(30)){ b=g.b(); frames--; mov(SBUF,b); sending=true; t0=now; n++; }
        else idle();
        u8 sc=scon->get();
        if(sc&2){ double e=now-t0; if(!sending) { fail("ti-spurious",vfmt("TI without a byte sent")); break; } if(e<(bits-1)*tx.bit-tx.grain-24||e>bits*tx.bit+tx.grain+slack){ fail(e>bits*tx.bit?"tx-late":"tx-early",vfmt("TI %.0f clocks after SBUF was written, %d bits of %.0f clocks",e,bits,tx.bit)); break; } sent+=(char)b; sending=false; vh_stat("bytes-sent",1); step(2,(const u8*)"\xc2\x99"); }
        else if(sending&&now-t0>bits*tx.bit+tx.grain+slack){ fail("tx-never",vfmt("no TI %ld clocks after SBUF was written, %d bits of %.0f clocks",now-t0,bits,tx.bit)); break; }
        sc=scon->get();
        if(sc&1){ if(!ren){ fail("ri-disabled","RI while REN is clear"); break; } if(got.size()>=expect.size()){ fail("ri-spurious","RI after the whole input was received"); break; } long from=lastri<0?en:lastri; double e=now-from; if(e<(bits-1)*rx.bit-rx.grain-24){ fail("rx-early",vfmt("RI %.0f clocks after the previous one, %d bits of %.0f clocks",e,bits,rx.bit)); break; }
          step(2,(const u8*)"\xe5\x99"); u8 a=sfr->get_cell(0xe0)->get(); got+=(char)a; if(a!=(u8)expect[got.size()-1]){ fail("rx-data",vfmt("byte %d received as %02x, input has %02x",(int)got.size()-1,a,(u8)expect[got.size()-1])+hist+vfmt(" nl %x around %02x %02x %02x %02x",nlv,(u8)(got.size()>2?expect[got.size()-3]:0),(u8)(got.size()>1?expect[got.size()-2]:0),(u8)expect[got.size()-1],(u8)(got.size()<expect.size()?expect[got.size()]:0))); break; } lastri=now; n++; vh_stat("bytes-received",1); step(2,(const u8*)"\xc2\x98"); if(got.size()>=expect.size()) doneri=true; }
        else if(ren&&!doneri&&now-(lastri<0?en:lastri)>bits*rx.bit+2*rx.grain+slack+48){ fail("rx-never",vfmt("no RI for %ld clocks, %d bits of %.0f clocks, %d of %d bytes received",now-(lastri<0?en:lastri),bits,rx.bit,(int)got.size(),(int)expect.size())); break; }
      }
      // let a frame in progress finish: the next configuration starts with an idle line
      for(long e=now+(long)(14*tx.bit)+200;sending&&!bad&&now<e;){ idle(); if(scon->get()&2){ sent+=(char)b; sending=false; } if((scon->get()&1)&&got.size()<expect.size()){ step(2,(const u8*)"\xe5\x99"); got+=(char)sfr->get_cell(0xe0)->get(); step(2,(const u8*)"\xc2\x98"); } }
      if(ren&&!bad&&got.size()<expect.size()){ long from=now; while(!(scon->get()&1)&&now-from<14*rx.bit+400) idle(); if(scon->get()&1){ step(2,(const u8*)"\xe5\x99"); got+=(char)sfr->get_cell(0xe0)->get(); if(got!=expect.substr(0,got.size())) fail("rx-data","wrong byte at the end of a segment"); } mov(SCON,mode<<6); for(int k=0;k<3;k++) idle(); // a new character may have started
        if(!bad){ from=now; while(!(scon->get()&1)&&now-from<14*rx.bit+400) idle(); if(scon->get()&1){ step(2,(const u8*)"\xe5\x99"); got+=(char)sfr->get_cell(0xe0)->get(); if(got!=expect.substr(0,got.size())) fail("rx-data","wrong byte after REN was cleared"); } mov(SCON,mode<<6); } }
      if(n<3) vh_sample(ctx);
    }
    vh_cmd("set hardware uart[0] out \"/dev/null\""); 
    std::string o=slurp(fo.c_str()); if(!bad&&o!=sent) vh_fail("C52:output",vfmt("%s: %d bytes were sent, the output file has %d, first difference at %d",ctx.c_str(),(int)sent.size(),(int)o.size(),(int)(std::mismatch(sent.begin(),sent.begin()+std::min(sent.size(),o.size()),o.begin()).first-sent.begin())));
    vh_stat("sessions",1); if(bad){ U->reset(); }
    // drain what is left of the input, so that the next session starts clean
    { FILE*x=fopen(dr.c_str(),"wb"); fputs("xyz",x); fclose(x); } vh_cmd("set hardware uart[0] in \""+dr+"\""); mov(SCON,0x10); for(int k=0;k<120;k++) idle(); mov(SCON,0); // ends a skipped second half of a new line, too
  }
  vh_stat("cases",n); return 0; }
