// Value change dumps: what a recording contains against the history of the watched bits,
// and what a replay does to the bits against the events of the file.
#include "gen.h"
#include <cmath>
#include <unistd.h>
#include <sys/stat.h>
static Rng g(1);
static std::string hist_;
static void note(const std::string &s) { hist_+= s+"; "; if (hist_.size() > 1500) hist_.erase(0, hist_.size()-1200); vh_case("%s", hist_.c_str()); }
static void bad(const std::string &k, const std::string &d) { vh_fail(k, d+" after: "+hist_); }
static std::string cmd(const std::string &c) { note(c); std::string o= vh_cmd(c); vh_stat("commands", 1); return o; }
static double now_(void) { return U->ticks->get_rtime(); }

struct Var { cl_address_space *as; u32 a; int hi, lo; bool whole; cl_memory_cell *c; std::string id; std::string cur; u64 orig;
  int w() const { return hi-lo+1; } u64 mask() const { return (w() >= 32?0xffffffffull:(1ull<<w())-1)<<lo; }
  u64 real() const { return ((u64)c->get() & mask())>>lo; } };
class cl_probe: public cl_hw { // the last device clock
public:
  double last= -1; cl_probe(): cl_hw(U, HW_DUMMY, 99, "probe") {}
  virtual int tick(int) { last= now_(); return 0; }
};
static cl_probe *probe;
static std::vector<cl_address_space*> tas; // spaces made for the monitor, nothing else writes them
static std::vector<std::pair<cl_address_space*, std::pair<u32,u32> > > spaces;

static std::string bin(u64 v, int w) { std::string s; for (int i= w-1; i >= 0; i--) s+= (v>>i)&1?'1':'0'; return s; }
static std::string ext(std::string s, int w) { while ((int)s.size() < w) s= (s[0]=='x'?"x":"0")+s; return s; }

struct Loc { cl_address_space *as; u32 a; int hi, lo; bool whole; std::string text; };
// a way to name a location to the command
static std::string addr_(cl_address_space *as, u32 a) { (void)as; return g.chance(50)?vfmt("%u", a):vfmt("0x%x", a); }
static Loc rand_loc(void) {
  auto &sp= spaces[g.below(spaces.size())]; Loc l; l.as= sp.first; l.a= sp.second.first+g.below(sp.second.second-sp.second.first+1);
  if (g.chance(50)) l.a= sp.second.first+g.below(std::min(8u, sp.second.second-sp.second.first+1));
  int w= l.as->get_cell(l.a)->get_width(); int k= g.below(10);
  l.whole= k < 3; l.hi= w-1; l.lo= 0;
  if (k >= 3 && k < 7) l.hi= l.lo= g.below(w); else if (k >= 7) { l.lo= g.below(w); l.hi= l.lo+g.below(w-l.lo); }
  if (l.hi-l.lo+1 == w) l.whole= true;
  return l;
}
static std::string loc_text(const Loc &l) {
  std::string n= l.as->get_name(), A= addr_(l.as, l.a);
  if (l.whole) return g.chance(50)?n+" "+A:n+"["+A+"]";
  if (l.hi == l.lo) { switch (g.below(3)) { case 0: return n+"["+A+"]."+vfmt("%d", l.lo); case 1: return n+" "+A+" "+vfmt("%d", l.lo); default: return n+"["+A+"] "+vfmt("%d", l.lo); } }
  switch (g.below(2)) { case 0: return n+" "+A+" "+vfmt("%d %d", l.hi, l.lo); default: return n+"["+A+"] "+vfmt("%d %d", l.hi, l.lo); }
}

// ---------- recording
struct Rec {
  std::vector<Var> v; std::string file, H= "vcd[0]"; long off= 0; double scale= 0, start= 0, tlast= -1; bool run= false, paused= false; double pt= -1, pause_at= 0; bool fresh= true; long events= 0;
  std::string part;
  std::string take(void) { std::string s; fflush(0); FILE *f= fopen(file.c_str(), "r"); if (!f) return s; fseek(f, off, SEEK_SET); char b[4096]; size_t n; while ((n= fread(b, 1, sizeof b, f)) > 0) s.append(b, n); off+= s.size(); fclose(f); return s; }
  std::vector<std::string> words(const std::string &s) { std::vector<std::string> r; std::string w; for (char c: s+" ") { if (strchr(" \n\r\t", c)) { if (w.size()) r.push_back(w); w.clear(); } else w+= c; } return r; }
  bool in_comment= false, pending= false; std::string pv; std::string sect;
  // applies a piece of the file; t0..t1 is the simulated time that has passed
  void eat(const std::string &s, double t0, double t1, const char *op) {
    double lo= (t0-start)*scale, hi= (t1-start)*scale;
    for (auto &w: words(s)) {
      if (in_comment) { if (w == "$end") in_comment= false; continue; }
      if (pending) { set(w, pv, op); pending= false; continue; }
      if (w == "$comment") { in_comment= true; continue; }
      if (w[0] == '$') { if (w == "$end") sect= ""; else sect= w; if (w != "$end" && w != "$dumpvars" && w != "$dumpon" && w != "$dumpoff") bad("file:keyword", w); continue; }
      if (w[0] == '#') {
        char *e; double t= strtod(w.c_str()+1, &e); if (*e || !isdigit((u8)w[1])) { bad("file:time-format", w); continue; }
        if (t < tlast) bad(vfmt("file:time-backward:%s", op), vfmt("%s after %.0f", w.c_str(), tlast));
        tlast= t; double tol= 1+1e-9*std::fabs(hi);
        if (t < lo-tol || t > hi+tol) bad(vfmt("file:time:%s", op), vfmt("%s, the change is between %.3f and %.3f (scale %g/s)", w.c_str(), lo, hi, scale));
        vh_stat("timestamps", 1); continue;
      }
      if (w[0] == 'b' || w[0] == 'B') { pending= true; pv= w.substr(1); continue; }
      if (strchr("01xXzZ", w[0]) && w.size() > 1) { set(w.substr(1), w.substr(0, 1), op); continue; }
      bad("file:word", w);
    }
  }
  void set(const std::string &id, const std::string &val, const char *op) {
    events++; vh_stat("changes", 1); for (char c: val) if (!strchr("01xX", c)) bad("file:value", val);
    for (auto &x: v) if (x.id == id) { if (val.empty() || (int)val.size() > x.w()) bad("file:width", vfmt("%s for %d bits", val.c_str(), x.w())); x.cur= ext(val, x.w()); vh_distinct("value", hash_bytes(val.data(), val.size())); return; }
    bad(vfmt("file:unknown-id:%s", op), id);
  }
  void check(const char *op) {
    for (auto &x: v) {
      std::string want= paused?std::string(x.w(), 'x'):bin(x.real(), x.w());
      if (x.cur != want) { bad(vfmt("record:%s:%s", op, paused?"paused":x.hi==x.lo?"bit":x.whole?"cell":"bits"), vfmt("%s[0x%x] %d:%d is %s, the file says %s", x.as->get_name(), x.a, x.hi, x.lo, want.c_str(), x.cur.c_str())); x.cur= want; }
    }
    vh_stat("comparisons", v.size());
  }
  void header(const std::string &s) {
    size_t p= s.find("$enddefinitions"); if (p == std::string::npos) { bad("header:missing", s.substr(0, 300)); return; }
    std::vector<std::string> w= words(s.substr(0, p)); size_t vi= 0; scale= 0; std::set<std::string> ids;
    for (size_t i= 0; i < w.size(); i++) {
      std::vector<std::string> b; std::string k= w[i]; if (k[0] != '$') { bad("header:word", k); return; }
      for (i++; i < w.size() && w[i] != "$end"; i++) b.push_back(w[i]);
      if (k == "$timescale") {
        std::string t; for (auto &x: b) t+= x; int n= 0; double m= 1; if (sscanf(t.c_str(), "%lf%n", &m, &n) < 1) { bad("header:timescale", t); return; }
        std::string u= t.substr(n); double uu= u=="s"?1:u=="ms"?1e3:u=="us"?1e6:u=="ns"?1e9:u=="ps"?1e12:u=="fs"?1e15:0; if (!uu || m < 1) bad("header:timescale", t); scale= uu/(m?m:1);
      } else if (k == "$var") {
        if (b.size() != 4 || vi >= v.size()) { bad("header:var", vfmt("%d of %d", (int)vi, (int)v.size())); return; }
        Var &x= v[vi++]; if (atoi(b[1].c_str()) != x.w()) bad("header:width", b[1]+" for "+vfmt("%d", x.w()));
        if (!ids.insert(b[2]).second || b[2].size() != 1 || b[2][0] < 33 || b[2][0] > 126) bad("header:id", b[2]);
        x.id= b[2]; x.cur= ""; name(x, b[3]);
      }
    }
    if (vi != v.size()) bad("header:vars", vfmt("%d of %d", (int)vi, (int)v.size()));
    if (!scale) { bad("header:timescale", "none"); scale= 1; }
  }
  // the name leads to the recorded bits
  void name(const Var &x, const std::string &n) {
    std::vector<std::string> c; bool bits= false;
    std::string suf= x.hi == x.lo?vfmt(".%d", x.lo):x.whole?"":vfmt("[%d:%d]", x.hi, x.lo);
    for (int i= 0; i < U->vars->by_name.count; i++) { cl_cvar *q= U->vars->by_name.at(i); if (q->get_cell() != x.c) continue;
      bool qw= q->bitnr_low < 0 || (q->bitnr_low == 0 && q->bitnr_high == x.c->get_width()-1);
      if (qw) c.push_back(std::string(q->get_name())+suf); else if (q->bitnr_high == x.hi && q->bitnr_low == x.lo) { c.push_back(q->get_name()); bits= true; } }
    std::string base= std::string(x.as->get_name())+"_"; u32 a= 0; int k= 0;
    if (c.empty()) { if (n.compare(0, base.size(), base) || sscanf(n.c_str()+base.size(), "0x%x%n", &a, &k) < 1 || a != x.a || n.substr(base.size()+k) != suf) bad("header:name", n+" for "+base+vfmt("0x%x", x.a)+suf); }
    else if (std::find(c.begin(), c.end(), n) == c.end()) bad("header:name", n+" wanted "+c[0]);
    (void)bits;
  }
};
static void write_cell(Rec &r) {
  cl_address_space *as; u32 a; 
  if (r.v.size() && g.chance(75)) { Var &x= r.v[g.below(r.v.size())]; as= x.as; a= x.a; } else { as= tas[g.below(tas.size())]; a= g.below(0x40); }
  u32 m= as->width >= 32?0xffffffffu:(1u<<as->width)-1; u32 nv= g.chance(30)?as->get(a)^(1u<<g.below(as->width)):g.chance(15)?as->get(a):(u32)g.next() & m;
  if (g.chance(70)) { note(vfmt("write %s[%x]=%x", as->get_name(), a, nv)); as->write(a, nv); } else cmd(vfmt("expr %s[0x%x]=0x%x", as->get_name(), a, nv));
}
static long serial= 0;
static void record(Rec &r) {
  std::string H= r.H; r.file= vfmt("r%ld.vcd", serial++%8); unlink(r.file.c_str()); r.off= 0; r.tlast= -1; r.in_comment= r.pending= false; r.scale= 0;
  if (r.fresh) { r.fresh= false; }
  for (int n= g.below(r.v.size() > 12?2:8); n > 0; n--) {
    Loc l= rand_loc(); std::string t= loc_text(l); cl_memory_cell *c= l.as->get_cell(l.a);
    bool dup= false; for (auto &x: r.v) if (x.c == c && x.hi == l.hi && x.lo == l.lo) dup= true;
    if (c->get_flag(CELL_NON_DECODED)) continue;
    cmd("set hardware "+H+" add "+t); if (!dup) r.v.push_back({l.as, l.a, l.hi, l.lo, l.whole, c, "", "", 0});
  }
  for (int n= g.below(4); n > 0 && r.v.size() > 1; n--) if (g.chance(50)) {
    size_t i= g.below(r.v.size()); Var x= r.v[i]; Loc l= {x.as, x.a, x.hi, x.lo, x.whole, ""}; cmd("set hardware "+H+(g.chance(50)?" del ":" delete ")+loc_text(l)); r.v.erase(r.v.begin()+i); }
  cmd("set hardware "+H+(g.chance(50)?" output ":" file ")+"\""+r.file+"\"");
  bool user= g.chance(35); double us= 0;
  if (user) { static const char *u[]= {"ns","us","ps","fs","ms"}; static const double m[]= {1e-9,1e-6,1e-12,1e-15,1e-3}; int k= g.below(5); int n= g.chance(60)?1:g.chance(50)?10:100; us= n*m[k]; if (us < 1e-13) us= n= 1, k= 1, us= 1e-6; cmd("set hardware "+H+vfmt(" timescale %d %s", n, u[k])); } else cmd("set hardware "+H+" timescale auto");

  double t0= now_(); cmd("set hardware "+H+" start"); r.start= t0; r.run= true; r.paused= false;
  std::string s= r.take(); r.header(s); if (user && r.scale && std::fabs(us*r.scale-1) > 1e-6) bad("header:timescale-set", vfmt("%g s wanted, the file says %g", us, 1/r.scale));
  if (!user && r.scale && r.scale < U->get_xtal()*0.999 && r.scale < 0.9e15) bad("header:timescale-auto", vfmt("%g for clock %g", r.scale, U->get_xtal()));
  size_t p= s.find("$enddefinitions $end"); if (p != std::string::npos) r.eat(s.substr(p+20), t0, t0, "start"); r.check("start");
  double tl= t0; bool rst= false;
  for (int n= 5+g.below(60); n > 0; n--) {
    double a= now_(); const char *op= "step"; int k= g.below(100); double was= r.start; (void)was;
    if (k < 50) { if (g.chance(15)) rand_pc(g); note("inst"); int c= 1+g.below(3); while (c--) { U->do_inst(); U->errors->free_all(); U->events->disconn_all(); } op= "step"; vh_stat("instructions", 1); }
    else if (k < 78) { write_cell(r); op= "write"; }
    else if (k < 82) { cmd(vfmt("tick %u", g.below(30))); op= "tick"; }
    else if (k < 90 && !r.paused) { cmd("set hardware "+H+" pause"); r.paused= true; r.pause_at= a; op= "pause"; vh_stat("pauses", 1); }
    else if (k < 96 && r.paused) { double t1= now_(), d= t1-r.pause_at; if (r.pt >= 0 && d > r.pt) { r.start+= d-r.pt; } cmd("set hardware "+H+(g.chance(30)?" pause":g.chance(50)?" restart":" start")); r.paused= false; op= "resume"; }
    else if (k < 98 && !r.paused) { int m= g.below(2000); r.pt= m*1e-6; cmd("set hardware "+H+vfmt(" pausetime %d us", m)); op= "cfg"; }
    else if (k == 99) { cmd("info hardware "+H); op= "info"; }
    std::string s= r.take(); double b= tl= now_(); if (b < a) { vh_stat("resets", 1); rst= true; break; } // the program has reset the machine
    r.eat(s, a, b, op); r.check(op);
    vh_distinct("state", hash_bytes(op, strlen(op))^(u64)r.v.size()<<8^(u64)r.paused<<20^(u64)(r.pt >= 0)<<21^(u64)(s.size())<<24);
    vh_stat("cases", 1);
  }
  double pz= 0; if (r.paused && r.pt >= 0 && now_()-r.pause_at > r.pt) pz= 1; if (now_() < tl) pz= 1;
  double t1= now_(); cmd("set hardware "+H+" stop"); if (!pz && !rst && t1 >= tl) r.eat(r.take(), t1, t1, "stop");
  write_cell(r); std::string rest= r.take(); if (rest.size() && !pz && !rst) bad("record:after-stop", rest.substr(0, 100));
  r.run= r.paused= false;
}

// ---------- replay
struct Ev { double t; int var; u64 v; };
static void replay(const std::string &H) {
  std::string f= vfmt("i%ld.vcd", serial++%8), s; 
  static const char *tsu[]= {"1ns","1 us","10us","100 ns","1ps","2us","1 ms"}; static const double tsv[]= {1e-9,1e-6,1e-5,1e-7,1e-12,2e-6,1e-3};
  int k= g.below(7); double ts= tsv[k]; double xt= U->get_xtal_tick();
  if (g.chance(60)) s+= "$date\n\tFri Nov 20 06:55:26 2026\n$end\n"; if (g.chance(50)) s+= "$version\n\tucsim\n$end\n"; s+= std::string("$timescale ")+tsu[k]+" $end\n";
  if (g.chance(70)) s+= "$scope module m $end\n";
  std::vector<Var> v; int nv= 1+g.below(g.chance(30)?40:8); static int vn= 0; int id= 33+(g.chance(40)?g.below(50):0);
  for (int i= 0; i < nv && id < 127; i++) {
    cl_address_space *as= tas[g.below(tas.size())]; u32 a= g.below(0x40); int w= as->width; Var x= {as, a, w-1, 0, true, as->get_cell(a), std::string(1, id++), "", 0}; std::string n; int q= g.below(10);
    if (q < 3) { x.lo= x.hi= g.below(w); x.whole= false; if (g.chance(50)) n= vfmt("%s[0x%x].%d", as->get_name(), a, x.lo); else { n= vfmt("qv%d", vn++); cmd(vfmt("var %s %s[0x%x].%d", n.c_str(), as->get_name(), a, x.lo)); } }
    else if (q < 6) { x.lo= g.below(w); x.hi= x.lo+g.below(w-x.lo); x.whole= false; n= vfmt("qv%d", vn++); cmd(vfmt("var %s %s[0x%x][%d:%d]", n.c_str(), as->get_name(), a, x.hi, x.lo)); }
    else if (q < 8) { n= vfmt("qv%d", vn++); cmd(vfmt("var %s %s[0x%x]", n.c_str(), as->get_name(), a)); }
    else n= vfmt("%s[0x%x]", as->get_name(), a);
    bool over= false; for (auto &y: v) if (y.c == x.c && (y.mask() & x.mask())) over= true; if (over) { id--; continue; }
    s+= vfmt("$var wire %d %s %s $end\n", x.w(), x.id.c_str(), n.c_str()); v.push_back(x);
  }
  s+= "$upscope $end\n$enddefinitions $end\n";
  for (u32 a= 0; a < 0x40; a++) for (auto t: tas) t->set(a, g.next() & ((1ull<<t->width)-1));
  // events, a few clocks from each other
  std::vector<Ev> ev; double t= g.chance(60)?0:(double)g.below(100); int n= 1+g.below(40); double stepn= std::max(1.0, xt/ts);
  for (int i= 0; i < n; i++) {
    s+= vfmt("#%.0f\n", t); if (i == 0 && g.chance(50)) s+= "$dumpvars\n"; 
    for (int m= 1+g.below(3); m > 0; m--) { if (v.empty()) break; int j= g.below(v.size()); u64 val= g.next() & ((1ull<<v[j].w())-1); if (g.chance(20)) val= g.chance(50)?0:(1ull<<v[j].w())-1;
      ev.push_back({t*ts, j, val});
      if (v[j].w() == 1) s+= g.chance(85)?vfmt("%d%s\n", (int)val, v[j].id.c_str()):vfmt("b%d %s\n", (int)val, v[j].id.c_str());
      else { std::string b= bin(val, v[j].w()); while (g.chance(50) && b.size() > 1 && b[0] == '0') b.erase(0, 1); s+= (g.chance(90)?"b":"B")+b+" "+v[j].id+"\n"; } }
    if (i == 0 && s.find("$dumpvars") != std::string::npos) s+= "$end\n";
    if (g.chance(10)) s+= g.chance(50)?"$comment Real b101 1! 0\" #3 $end\n":"$comment Unpaused. Real duration was 0.000120 seconds $end\n";
    t+= std::floor(1+stepn*(g.chance(30)?g.below(3):g.below(60)));
  }
  { FILE *fo= fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), fo); fclose(fo); } note("file "+f+" "+tsu[k]+vfmt(" %d vars %d events", (int)v.size(), (int)ev.size()));
  for (int i= U->vars->by_name.count; i < 0; i++) ;
  double off= 0; bool brk= false;
  auto shift= [&]() { int ns= (int)(xt*1e9*(i64)g.below(200)); if (g.chance(25)) ns= -ns/8; off+= ns*1e-9; cmd("set hardware "+H+vfmt(" starttime %d ns", ns)); vh_stat("shifts", 1); };
  cmd("set hardware "+H+" input \""+f+"\""); if (g.chance(35)) shift(); 
  double base= now_(); std::string o= cmd("set hardware "+H+" start"); if (vh_trim(o).size()) { bad("replay:start", vh_trim(o).substr(0, 300)); cmd("set hardware "+H+" stop"); return; }
  if (g.chance(30)) { brk= true; cmd("set hardware "+H+" break"); }
  probe->last= -1; bool paused= false; double pa= 0; size_t done= 0; double eps= xt*1e-6; double vt= 0; // replay time reached
  std::map<int, std::set<u64> > alt;
  std::vector<u64> want; for (auto &x: v) want.push_back(x.real());
  for (int st= 0; st < 400 && done < ev.size()+1; st++) {
    int q= g.below(100); double a= now_(); const char *op= "step"; bool one= false, stopped= false; std::string out;
    if (q < 80) { one= true; if (g.chance(10)) rand_pc(g); note("i"); U->do_inst(); U->errors->free_all(); U->events->disconn_all(); vh_stat("instructions", 1); }
    else if (q < 84) { cmd(vfmt("tick %u", 1+g.below(30))); op= "tick"; }
    else if (q < 88 && brk && !paused) {
      // run: stops after the instruction within which events were replayed
      rand_pc(g); note("run"); cl_sim *sm= application->get_sim(); vh_cmd("run"); long c= 0; double lim= 1e99; for (size_t i= done; i < ev.size(); i++) lim= std::min(lim, base+off+ev[i].t);
      double last= now_(), prev= last; bool idle= false; while ((sm->state & SIM_GO) && c < 300) { prev= last; u64 i0= U->vc.fetch; sm->step(); last= now_(); c++; if (U->state != stGO || (u64)U->vc.fetch == i0 || last < prev) { idle= true; break; } }
      if (sm->state & SIM_GO) { sm->stop(resUSER); if (last > lim+eps && prev > lim+eps && c > 3 && !idle) bad("replay:break:missed", vfmt("event at %.12g, at %.12g after %ld instructions", lim, last, c)); } else { stopped= true; vh_stat("breaks", 1); }
      out= vh_out_take(); op= "run";
    }
    else if (q < 92 && !paused) { cmd("set hardware "+H+" pause"); paused= true; pa= now_(); op= "pause"; }
    else if (q < 97 && paused) { cmd("set hardware "+H+(g.chance(50)?" start":" restart")); paused= false; base+= now_()-pa; op= "resume"; }
    else if (q < 98 && g.chance(30)) { shift(); op= "shift"; }
    else if (q == 99) { cmd("info hardware "+H); op= "info"; }
    (void)a; (void)one; (void)stopped;
    double b= now_(); if (b < a) { vh_stat("resets", 1); break; } if (probe->last > a) b= probe->last; bool clk= !paused && probe->last > a && (!strcmp(op, "step") || !strcmp(op, "tick") || !strcmp(op, "run")) && b > a; vt= clk?b-base-off:-1e99; // nothing happens before the next clock
    bool amb= false; std::set<int> maybe;
    while (done < ev.size() && ev[done].t < vt-eps) { want[ev[done].var]= ev[done].v; done++; }
    for (size_t i= done; i < ev.size() && ev[i].t <= vt+eps+1e-9*std::fabs(vt); i++) { maybe.insert(ev[i].var); amb= true; }
    for (size_t i= 0; i < v.size(); i++) {
      u64 r= v[i].real(); vh_stat("comparisons", 1); if (r == want[i] || maybe.count(i)) continue;
      bool early= false; for (size_t j= done; j < ev.size(); j++) if (ev[j].var == (int)i) { early= ev[j].v == r; break; }
      bad(vfmt("replay:%s:%s:%s", op, v[i].w() == 1?"bit":"bits", early?"early":paused?"paused":"value"), vfmt("%s[0x%x] %d:%d id %s is %llx, want %llx at %.12g s of the file (event %d of %d)", v[i].as->get_name(), v[i].a, v[i].hi, v[i].lo, v[i].id.c_str(), (unsigned long long)r, (unsigned long long)want[i], b-base-off, (int)done, (int)ev.size()));
      { std::string d; for (size_t j= done > 6?done-6:0; j < ev.size() && j < done+3; j++) d+= vfmt(" [%d]%.9g:%s=%llx", (int)j, ev[j].t, v[ev[j].var].id.c_str(), (unsigned long long)ev[j].v); note("EVENTS"+d+vfmt(" base %.12g off %.12g now %.12g ts %g", base, off, b, ts)); if (getenv("C13_DBG")) { fprintf(stderr, "XX var %d %s\nXX %s\n", (int)i, v[i].id.c_str(), hist_.c_str()); } }
      cmd("set hardware "+H+" stop"); if (brk) cmd("set hardware "+H+" break"); return;
    }
    vh_stat("cases", 1); vh_distinct("state", hash_bytes(op, strlen(op))^(u64)v.size()<<8^(u64)paused<<20^(u64)brk<<21^(u64)k<<22^(u64)done<<26^(u64)amb<<40);
    if (b-base-off > t*ts && !paused && done >= ev.size()) break;
  }
  vh_stat("replayed", done);
  if (brk) cmd("set hardware "+H+" break");
  cmd("set hardware "+H+" stop");
  for (u32 j= 0; j < v.size(); j++) if (v[j].real() != want[j] && !paused && 0) bad("replay:stop", "value");
}

int vh_main(void) {
  g= Rng(vh_seed);
  std::string dir= vfmt("c13-%d", (int)getpid()); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return 1;
  vh_cmd("memory create addressspace tsa 0 0x40 8"); vh_cmd("memory create chip tca 0x40 8"); vh_cmd("memory create addressdecoder tsa 0 0x3f tca 0");
  vh_cmd("memory create addressspace tsb 0 0x40 16"); vh_cmd("memory create chip tcb 0x40 16"); vh_cmd("memory create addressdecoder tsb 0 0x3f tcb 0");
  for (auto n: {"tsa", "tsb"}) { cl_address_space *a= vh_as(n); if (!a) { vh_fail("setup", n); return 0; } tas.push_back(a); spaces.push_back({a, {0, 0x3f}}); }
  // memory the random programs write
  for (auto n: {"ram", "iram", "xram"}) { cl_address_space *a= 0; for (int i= 0; i < U->address_spaces->count; i++) { cl_address_space *q= (cl_address_space*)U->address_spaces->at(i); if (!strcmp(q->get_name(), n)) a= q; } if (a && a->width <= 16 && a->get_size() > 0x200) { u32 m= std::min((u32)a->get_size(), 0x10000u); spaces.push_back({a, {m/2, m/2+0x1f}}); } else if (a && a->width <= 16 && a->get_size() >= 0x80) spaces.push_back({a, {0x30, 0x7f}}); }
  std::string o= cmd("set hardware vcd new 1"); bool two= U->get_hw("vcd", 1, NULL) != 0; if (!two) bad("new", o.substr(0, 200));
  probe= new cl_probe(); probe->init(); U->add_hw(probe);
  std::vector<Rec> R(2); R[0].H= "vcd[0]"; R[1].H= "vcd[1]";
  long left= vh_cases, n0= 0; (void)n0;
  for (long k= 0; k < left; k++) {
    hist_= ""; fill_world(g, g.below(2)); rand_pc(g);
    if (g.chance(50)) {
      std::string out, why; u64 ss= g.next(); (void)ss;
      record(R[g.below(2)]);
    } else { replay("vcd[0]"); R[0].v.clear(); replay("vcd[1]"); R[1].v.clear(); }
    vh_stat("histories", 1);
  }
  if (chdir("..") == 0) { for (int i= 0; i < 8; i++) { unlink(vfmt("%s/r%d.vcd", dir.c_str(), i).c_str()); unlink(vfmt("%s/i%d.vcd", dir.c_str(), i).c_str()); } rmdir(dir.c_str()); }
  return 0;
}
