// Console robustness monitor: batches of well formed, nearly well formed and random command lines are given to the
// interpreter of an instrumented simulator (each batch in a copy of the process), on every processor type.
#include "vh.h"
#include "gen.h"
#include "hwcl.h"
#include "newcmdposixcl.h"
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <errno.h>

// Stand-ins: nothing leaves the working directory of the check.
static long n_exec, n_sock;
extern "C" int execl(const char *, const char *, ...) { n_exec++; errno= EPERM; return -1; }
extern "C" int socket(int, int, int) __THROW { n_sock++; errno= EPERM; return -1; }

// A console of the real class which reads the lines of a file; every line is noted before it is executed.
struct Sh { long n, out, ran; char last[6][640]; }; static Sh *sh;
static std::string vis(const std::string &s);
static void note(const std::string &l) { std::string v= vis(l); strncpy(sh->last[sh->n%6], v.c_str(), 639); sh->n++; vh_case("cmd %s", v.substr(0, 500).c_str()); }
class vh_file_console: public cl_sub_console { public:
  vh_file_console(cl_console_base *p, cl_f *i, cl_f *o): cl_sub_console(p, i, o, application) {}
  virtual int read_line(void) { int r= cl_sub_console::read_line(); if (r > 0) note(lbuf.c_str()?lbuf.c_str():""); return r; } };

static Rng g(1);
struct Leaf { std::string path, usage; };
static std::vector<Leaf> leaf;
static std::vector<std::string> words, hwn, asn, chn, vars, files;

static void walk(cl_cmdset *s, const std::string &pre, int d) {
  for (int i= 0; s && i < s->count && d < 5; i++) {
    cl_cmd *c= (cl_cmd*)s->at(i); if (!c) continue;
    std::string p; bool noparm= false;
    for (int k= 0; k < c->names->count; k++) {
      const char *n= (const char*)c->names->at(k); if (!n) continue;
      if (!strcmp(n, "_no_parameters_")) { noparm= true; continue; }
      if (!d && (!strcmp(n, "quit") || !strcmp(n, "kill") || !strcmp(n, "exit"))) { p= ""; break; }
      p= pre+n; words.push_back(n);
      if (c->get_subcommands()) walk(c->get_subcommands(), p+" ", d+1);
      std::string u= c->usage_help.c_str()?c->usage_help.c_str():"";
      leaf.push_back({p, u});
      for (auto &w: vh_split(u, " |[]\n\t\"<>,.()")) if (w.size() < 20 && w.find('/') == std::string::npos) words.push_back(w);
    }
    if (noparm) leaf.push_back({pre, ""});
  }
}
template<class T> static const T &pk(const std::vector<T> &v) { return v[g.below(v.size())]; }
static std::string rnum(void) {
  static const u32 hot[]= {0,1,2,7,8,0x10,0x20,0x7f,0x80,0xff,0x100,0xfff,0x1000,0x7fff,0xffff,0x10000,0xffffff,0x7fffffff,0x80000000u,0xffffffffu};
  u32 v= g.chance(30)?g.below(0x40):g.chance(50)?hot[g.below(20)]:g.chance(60)?g.below(0x10000):(u32)g.next();
  switch (g.below(8)) { case 0: return vfmt("%d", (int)v); case 1: return vfmt("0%o", v); case 2: return "-"+vfmt("%u", v&0xffff); case 3: return vfmt("%u", v); case 4: { std::string b= "0b"; for (int i= g.below(40); i >= 0; i--) b+= g.chance(50)?'1':'0'; return b; } default: return vfmt("0x%x", v); }
}
static std::string small(void) { return vfmt(g.chance(50)?"%u":"0x%x", g.below(300)); }
static std::string junk(int max) { std::string s; int n= 1+g.below(max); for (int i= 0; i < n; i++) { char c; do c= g.chance(85)?(char)(32+g.below(95)):(char)(1+g.below(255)); while (c == '/' || c == '\n' || c == '\r'); s+= c; } return s; }
static std::string fname(void) { return g.chance(85)?pk(files):vfmt("f%u", g.below(9)); }
static std::string str(void) {
  int k= g.below(14);
  if (k < 5) return "\""+fname()+"\"";
  if (k < 7) return "\""+pk(words)+"\"";
  if (k == 7) return "\"\"";
  if (k == 8) return "\""+junk(20);
  if (k == 9) return "\"\\n\\t\\x4\\0\\\"\\q\\777\\";
  if (k == 10) return "\""+std::string(1+g.below(3000), 'a'+g.below(26))+"\"";
  if (k == 11) return "\"%s%n%x%d%p%s%s\"";
  if (k == 12) return "\""+junk(40)+"\"";
  return "'"+junk(3)+"'";
}
static std::string hname(void) { std::string s= hwn.size()?pk(hwn):std::string("uart[0]"); if (g.chance(12)) { size_t p= s.find('['); s= s.substr(0, p); if (g.chance(70)) s+= "["+rnum()+"]"; } return s; }
static std::string expr(int d);
static std::string lval(void) {
  switch (g.below(6)) { case 0: case 1: return vars.size()?pk(vars):"a"; case 2: return (asn.size()?pk(asn):"rom")+"["+(g.chance(70)?small():rnum())+"]"; case 3: return "["+small()+"]"; case 4: return (asn.size()?pk(asn):"rom")+"["+small()+"]."+rnum(); default: return (vars.size()?pk(vars):"a")+"."+rnum(); }
}
static std::string expr(int d) {
  static const char *bin[]= {"+","-","*","/","%","&","|","^","&&","||","<<",">>","<",">","<=",">=","==","!=","=","+=","-=","*=","/=","%=","&=","|=","^=","<<=",">>=",","};
  static const char *un[]= {"-","~","!","++","--","+","*","&"};
  if (d <= 0 || g.chance(25)) return g.chance(50)?rnum():lval();
  switch (g.below(7)) { case 0: return std::string(un[g.below(8)])+expr(d-1); case 1: return "("+expr(d-1)+")"; case 2: return expr(d-1)+"?"+expr(d-1)+":"+expr(d-1); case 3: return lval()+(g.chance(50)?"++":"--"); default: return expr(d-1)+(g.chance(50)?" ":"")+bin[g.below(30)]+(g.chance(50)?" ":"")+expr(d-1); }
}
static std::string arg(void) {
  int k= g.below(100);
  if (k < 22) return rnum();
  if (k < 32) return small();
  if (k < 42) return asn.size()?pk(asn):"rom";
  if (k < 47) return chn.size()?pk(chn):"rom_chip";
  if (k < 54) return hname();
  if (k < 62) return str();
  if (k < 72) return pk(words);
  if (k < 78) return vars.size()?pk(vars):"x";
  if (k < 80) return lval();
  if (k < 83) return (vars.size()&&g.chance(50)?pk(vars):small())+"."+rnum();
  if (k < 88) { static const char *t[]= {"r","w","f","e","g","x","on","off","true","0","1","t","d","rom","wx","read","write","all","ms","us","clk","sec","ram","in","out","/h","new","add","del","input","output","file","start","stop","pause","starttime","timescale","mod","memory","fin","fout","port","raw","iport","oport","pin","wr"}; return t[g.below(sizeof t/sizeof*t)]; }
  if (k < 90) return expr(2);
  if (k < 92) return vfmt("x%u", g.below(6));
  return junk(8);
}
static bool big(const std::string &s) { return s.find("0x") != std::string::npos || s.size() > 4; }
static std::string mk_line(void) {
  std::string s; int k= g.below(100);
  if (k < 60) {
    const Leaf &l= pk(leaf); s= l.path;
    bool lim= s.find("create") != std::string::npos || s.find("chip") != std::string::npos || s.find("tick") != std::string::npos || s.find("stack") != std::string::npos;
    std::vector<std::string> u; if (g.chance(50)) u= vh_split(l.usage, " ");
    int n= u.size()?(int)u.size()-1:(int)g.below(6);
    if (u.size() && g.chance(20)) n+= g.below(3)-1;
    for (int i= 0; i < n; i++) {
      std::string a, w= i+1 < (int)u.size()?u[i+1]:"";
      if (s.rfind(w, 0) == 0 && w.size()) continue;
      if (w.find("addr") != std::string::npos || w.find("start") != std::string::npos || w.find("stop") != std::string::npos) a= g.chance(80)?rnum():arg();
      else if (w.find("mem") != std::string::npos || w.find("space") != std::string::npos) a= asn.size()&&g.chance(80)?pk(asn):arg();
      else if (w.find("chip") != std::string::npos) a= chn.size()&&g.chance(80)?pk(chn):arg();
      else if (w.find("file") != std::string::npos || w.find('"') != std::string::npos) a= g.chance(80)?"\""+fname()+"\"":arg();
      else if (w.find("name") != std::string::npos || w.find("cat") != std::string::npos) a= g.chance(80)?(g.chance(50)?hname():vfmt("x%u", g.below(6))):arg();
      else a= arg();
      if (lim && big(a)) a= small();
      s+= " "+a;
    }
    if (n == 0 && g.chance(30)) s+= " ";
  } else if (k < 72) { s= "set hardware "+hname(); for (int n= g.below(6); n > 0; n--) s+= " "+arg(); }
  else if (k < 74) { s= "info hardware "+hname(); }
  else if (k < 77) { static const char *t[]= {"step","run","next","step 20","run 0","step 100 us","step 5 vclk","timer run","reset"}; s= t[g.below(9)]; if (g.chance(20)) s+= " "+rnum(); }
  else if (k < 85) s= (g.chance(50)?"expr ":g.chance(50)?"":"expr/"+junk(2)+" ")+expr(3);
  else if (k < 90) s= junk(60);
  else if (k < 93) { s= pk(leaf).path; for (int n= g.below(60); n > 0; n--) s+= " "+arg(); }
  else if (k < 95) { s= pk(words)+" "+arg()+" "+arg(); }
  else if (k < 97) s= std::string(g.below(40), ' ')+pk(leaf).path+" "+std::string(1+g.below(6000), g.chance(50)?'(':'0'+g.below(70));
  else { s= "break "+(g.chance(50)?small():rnum())+" "+arg()+(g.chance(50)?" if \""+expr(2)+"\"":" "+str()); }
  // mutations
  for (int m= g.chance(25)?1+g.below(3):0; m > 0 && s.size(); m--) {
    u32 p= g.below(s.size());
    switch (g.below(6)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, "\"'[]().,;:%#\\@ \t"[g.below(16)]); break; case 2: s.resize(p); break; case 3: s+= s.substr(p, 200); break; case 4: s[p]= 1+g.below(255); break; default: { size_t e= g.below(s.size()); std::swap(s[p], s[e]); } }
  }
  if (g.chance(5)) s+= ";"+pk(leaf).path+" "+arg();
  if (g.chance(2)) s+= " #"+junk(9);
  if (g.chance(3)) s+= g.chance(50)?" >\""+vfmt("o%u", g.below(4))+"\"":" >>\""+vfmt("o%u", g.below(4))+"\"";
  // a tick or timer over millions of clocks is work, not a hang
  if (s.find("tick") != std::string::npos || s.find("tim") != std::string::npos || s.find("clk") != std::string::npos) { int r= 0; for (auto &c: s) { if (isxdigit((u8)c)) { if (++r > 3) c= 'z'; } else r= 0; } }
  // so is building a memory of a billion cells
  if (s.find("mem") != std::string::npos) { int r= 0; for (auto &c: s) { if (isxdigit((u8)c)) { if (++r > 18 || (r > 5 && s.find("0b") == std::string::npos)) c= 'z'; } else r= 0; } }
  std::string o; for (char c: s) if (c && c != '\n' && c != '\r') o+= c;
  // no command of this list may run a directory away; '/' only divides and selects a format
  if (o.find('"') != std::string::npos || o.find("file") != std::string::npos || o.find("exec") != std::string::npos || o.find('>') != std::string::npos || o.find("dl") != std::string::npos || o.find("load") != std::string::npos)
    for (auto &c: o) if (c == '/') c= '_';
  return o;
}
static std::string vis(const std::string &s) { std::string o; for (u8 c: s) if (c >= 32 && c < 127) o+= c; else o+= vfmt("<%02x>", c); return o.size() > 300?o.substr(0, 200)+"..."+o.substr(o.size()-60):o; }
static std::string sig(const std::string &err, const std::string &why) {
  size_t p= err.find("SUMMARY: "); std::string s;
  if (p != std::string::npos) { // SUMMARY: X: kind path/file.cc:12:3 in fn
    auto w= vh_split(err.substr(p, err.find('\n', p)-p), " ");
    if (w.size() > 2) s= w[2]; size_t i= err.find(" in ", p); std::string fn= i == std::string::npos || i > err.find('\n', p)?"":err.substr(i+4, err.find_first_of("(\n", i)-i-4);
    if (fn.empty() || w.size() > 3) { std::string f= w.size() > 3?w[3]:""; size_t b= f.rfind('/'); if (b != std::string::npos) f= f.substr(b+1); s+= "-"+f.substr(0, f.find(':')); }
    // interceptors and allocator: the first frame of the project
    if (err.find("runtime error") != std::string::npos) { size_t q= err.find("runtime error: "); std::string t= err.substr(q+15, 40); t= t.substr(0, t.find('\n')); std::string u; for (char c: t) if (!isdigit((u8)c) && c != '-') u+= c; s+= "-"+u; }
    size_t q= err.find("/src/"); if (q != std::string::npos) { size_t in= err.rfind(" in ", q); if (in != std::string::npos && q-in < 120) fn= err.substr(in+4, err.find_first_of("( \n", in+4)-in-4); }
    s+= "-"+fn;
  } else if ((p= err.find("runtime error: ")) != std::string::npos) { size_t b= err.rfind('/', err.find(':', err.rfind('\n', p)+1)); b= b == std::string::npos?0:b+1; s= "ub-"+err.substr(b, err.find(':', b)-b)+"-"; for (char c: err.substr(p+15, err.find('\n', p)-p-15)) if (isalpha((u8)c) || c == ' ') s+= c; }
  else s= why;
  for (auto &c: s) if (c == ' ' || c == '\t') c= '_';
  return s;
}

int vh_main() {
  g= Rng(vh_seed);
  std::string dir= vfmt("c11-%d", (int)getpid()); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return 1;
  cl_commander_base *cb= application->get_commander();
  walk(cb->cmdset, "", 0);
  for (auto w: {"rom","ram","uart","vcd","timer","simif","_no_parameters_","nas","irq"}) words.push_back(w);
  for (int i= 0; i < U->nuof_hws(); i++) { cl_hw *h= U->get_hw(i); if (h) hwn.push_back(vfmt("%s[%d]", h->id_string, h->id)); }
  for (int i= 0; i < U->address_spaces->count; i++) { cl_address_space *a= (cl_address_space*)U->address_spaces->at(i); asn.push_back(a->get_name()); }
  for (int i= 0; i < U->memchips->count; i++) { cl_memory *a= (cl_memory*)U->memchips->at(i); chn.push_back(a->get_name()); }
  for (int i= 0; i < U->vars->by_name.count; i++) { cl_cvar *v= U->vars->by_name.at(i); vars.push_back((const char*)v->get_name()); }
  auto put= [&](const char *n, const std::string &t) { FILE *f= fopen(n, "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } files.push_back(n); };
  put("a.hex", ":10000000000102030405060708090A0B0C0D0E0F78\n:00000001FF\n"); put("a.s19", "S1137AF00A0A0D0000000000000000000000000061\nS9030000FC\n");
  put("a.cmd", "expr 1+1\ninfo registers\nstep\nbreak 3\n# x\n\n"); put("a.vcd", "$timescale 1 us $end\n$scope module m $end\n$var wire 1 ! a $end\n$upscope $end\n$enddefinitions $end\n#0\n$dumpvars\n0!\n$end\n#10\n1!\n");
  put("b.vcd", "$timescale 7 xx\n$var reg 9999 !! a.b.c[7:0] $end $var wire\n#\n#99999999999999999999\nb1010101010101010101010101010101010101010101010 !\nxx!\n"); put("bin", std::string("\0\1\2\377\376abc\n\r\"", 11)); put("in", "hello world\n\1\2\3 run\n"); put("empty", "");
  long left= vh_cases; int nb= (int)vh_envl("VH_BATCH", 60); long fails= 0, answered= 0, ran= 0;
  sh= (Sh*)mmap(0, sizeof(Sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  const char *one= getenv("C11_LINES");
  while (left > 0 && fails < 60) {
    u64 bs= g.next(); if (getenv("C11_BS")) { bs= strtoull(getenv("C11_BS"), 0, 0); left= 0; } memset(sh, 0, sizeof *sh);
    std::vector<std::string> L; Rng keep= g; g= Rng(bs); fill_world(g, 1); for (int i= 0; i < nb; i++) L.push_back(mk_line()); g= keep;
    if (one) { L= vh_split(one, "@"); left= 0; }
    bool real= (bs>>20)%100 < 30;
    if (one) real= getenv("C11_REAL") != 0;
    std::string out, why, ef= "stderr.txt";
    bool ok= what_if([&]() -> std::string {
      int fd= open(ef.c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644); dup2(fd, 2); close(fd); fd= open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
      struct rlimit rl= {60, RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &rl); rl= {64<<20, 64<<20}; setrlimit(RLIMIT_FSIZE, &rl);
      cl_sim *s= application->get_sim();
      if (real) {
        std::string f= "batch.cmd"; FILE *fo= fopen(f.c_str(), "w"); for (auto &l: L) fprintf(fo, "%s%s", l.c_str(), bs%7==0?"\r\n":bs%7==1?"\r":"\n"); fclose(fo);
        cl_console *par= new cl_console(mk_io("empty", "r"), mk_io("out.txt", "w"), application);
        cl_f *fi= mk_io(f.c_str(), "r"); fi->set_telnet((bs>>8)%5 == 0);
        cl_console_base *c= new vh_file_console(par, fi, mk_io("out.txt", "a"));
        c->set_flag(CONS_INTERACTIVE, bs%3 == 0); c->set_flag(CONS_ECHO, bs%5 == 0);
        cb->add_console(c);
        long idle= 0, go= 0;
        for (long it= 0; it < 4000 && cb->cons->index_of(c, NULL) && idle < 200; it++) {
          if (s->state & SIM_GO) { s->step(); sh->ran++; if (++go > 25) { s->stop(resUSER); go= 0; } if (it%3) continue; }
          cb->check();
          if (cb->input_avail()) { cb->proc_input(); idle= 0; go= 0; } else idle++;
          s->state&= ~SIM_QUIT; if (s->state & (SIM_STARTEMU|SIM_EMU)) s->state= 0;
          U->touch();
        }
        sh->ran+= run_until_stop(25); sh->out++;
      }
      else for (auto &l: L) {
        note(l);
        { struct rusage ru; getrusage(RUSAGE_SELF, &ru); struct rlimit rl= {(rlim_t)(ru.ru_utime.tv_sec+ru.ru_stime.tv_sec+30), RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &rl); } // 30 s of work for a line
        if (one) fprintf(stderr, ">> %s\n", vis(l).c_str());
        std::string o= vh_cmd(l); sh->out+= o.size() > 0; if (one) fprintf(stderr, "%s", o.c_str());
        sh->ran+= run_until_stop(25); vh_out_take();
      }
      // still alive
      s->state&= ~SIM_GO; vh_cmd("set console raw 0"); 
      std::string o= vh_trim(vh_cmd("expr 1+2")); std::string r= o;
      vh_cmd("reset"); vh_cmd("step"); run_until_stop(3); vh_cmd("info registers"); vh_cmd("info hardware"); vh_cmd("info memory");
      return r;
    }, out, why, 240);
    for (long i= 0; i < sh->n && i < (long)L.size(); i++) vh_distinct("cmd", hash_bytes(L[i].data(), L[i].size()));
    left-= sh->n; vh_stat("cases", sh->n); answered+= sh->out; ran+= sh->ran;
    std::string hist; for (long i= std::max(0L, sh->n-6); i < sh->n; i++) hist+= std::string(sh->last[i%6])+" ; ";
    if (one) { FILE *f= fopen(ef.c_str(), "r"); char b[400]; while (f && fgets(b, 400, f)) fprintf(stderr, "%s", b); if (f) fclose(f); fprintf(stderr, "RESULT ok=%d why=%s out=[%s]\n", ok, why.c_str(), out.c_str()); break; }
    if (!ok) {
      std::string err; FILE *f= fopen(ef.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n= fread(b, 1, sizeof b, f)) > 0 && err.size() < 60000) err.append(b, n); fclose(f); }
      if (why == "signal24" || why == "signal9") why= "hang";
      std::string k= sig(err, why), e; size_t p= err.find("ERROR: "); if (p == std::string::npos) p= err.find("runtime error"); if (p != std::string::npos) e= err.substr(p, 900); for (auto &c: e) if (c == '\n') c= '~';
      vh_fail("console:"+k, vfmt("batch %llu, last line ", (unsigned long long)bs)+std::string(sh->n?sh->last[(sh->n-1)%6]:"")+" :: "+e+" :: earlier lines "+hist); fails++;
    }
    else if (out != "3") {
      // the number format of answers may have been redefined, or the console redirected: ask in another way
      vh_stat("unusual-answer", 1);
    }
  }
  vh_stat("answered", answered); vh_stat("instructions", ran);
  return 0;
}
