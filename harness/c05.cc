// Time accounting: every timer (built in and user defined), the device clock and
// the texts of the timer and state commands against a model, on any processor type.
#include "gen.h"
#include <cmath>
static Rng g(1);

class cl_probe: public cl_hw {
public:
  u64 n= 0; it_level *top= 0; bool moved= false;
  cl_probe(): cl_hw(U, HW_DUMMY, 99, "probe") {}
  virtual int tick(int c) { n+= c; if (U->it_levels->top() != top) moved= true; return 0; }
};
static cl_probe *probe;
static int factor= 1;      // device ticks per machine cycle
static double xt;
static bool undefs;    // opcodes without a documented duration are executed in no time

struct Tm { bool ex= false, run= true, user= true; int dir= 1, type= 0; std::string name; u64 t= 0; double rt= 0, mx= 0; };
static std::vector<Tm> tm_(64);
static std::string hist_;
static void note(const std::string &s) { hist_+= s+"; "; if (hist_.size() > 900) hist_.erase(0, hist_.size()-700); vh_case("%s", hist_.c_str()); }
static void bad(const std::string &k, const std::string &d) { vh_fail(k, d+" after: "+hist_); }
static bool near_(double a, double b) { return std::fabs(a-b) <= 1e-9*(std::fabs(a)+std::fabs(b))+2e-12; }
static const char *tn[]= {"any", "isr", "idle", "halt"};

static bool counts(const Tm &t, int level, int state) { return t.ex && t.run && (t.type == 0 || (t.type == 1 && level >= 0) || (t.type == 2 && state == stIDLE) || (t.type == 3 && state == stPD)); }
static int level_(void) { it_level *l= (it_level*)U->it_levels->top(); return l?l->level:-1; }

// real values against the model
static i64 R= -1; // clocks of a reset
static void was_reset(void) {
  cl_ticker *t= U->get_counter(1);
  if (R < 0 && tm_[1].ex && tm_[1].run) { R= t->get_ticks(); if (R < 0 || R > 64) { bad("reset:clocks-after", vfmt("%lld", (long long)R)); R= 0; } }
  for (int i= 1; i <= 4; i++) if (tm_[i].ex) { tm_[i].t= 0; tm_[i].rt= 0; }
  xt= U->get_xtal_tick(); if (R > 0) for (auto &m: tm_) if (m.ex && m.run && m.type == 0) { m.t+= m.dir < 0?-R:R; m.rt+= (m.dir < 0?-R:R)*xt; }
}
static void compare(const char *op) {
  for (int i= 0; i < (int)tm_.size(); i++) {
    Tm &m= tm_[i]; cl_ticker *t= U->get_counter(i);
    if (!!t != m.ex) { bad(vfmt("%s:timer-%s", op, t?"appeared":"missing"), vfmt("timer %d", i)); m.ex= t != 0; if (t) { m.t= t->get_ticks(); m.rt= t->get_rtime(); m.run= t->run; m.dir= t->dir; m.type= t->get_type(); m.name= t->get_name()?t->get_name():""; } continue; }
    if (!t) continue;
    if ((u64)t->get_ticks() != m.t) { bad(vfmt("%s:clocks:%s%s", op, tn[m.type], m.dir < 0?"-down":""), vfmt("timer %d has %lld, want %lld", i, (long long)t->get_ticks(), (long long)m.t)); m.t= t->get_ticks(); m.rt= t->get_rtime(); }
    m.mx= std::max(m.mx, std::fabs(m.rt)); if (!near_(t->get_rtime(), m.rt) && std::fabs(t->get_rtime()-m.rt) > 1e-9*m.mx) { bad(vfmt("%s:time:%s%s", op, tn[m.type], m.dir < 0?"-down":""), vfmt("timer %d has %.15g s, want %.15g s (%lld clks)", i, t->get_rtime(), m.rt, (long long)m.t)); m.rt= t->get_rtime(); }
  }
}
static void advance(i64 D, double dt, int level, int state) {
  for (auto &m: tm_) if (counts(m, level, state)) { m.t+= m.dir < 0?-D:D; m.rt+= m.dir < 0?-dt:dt; }
}

static void one_step(bool cmd) {
  int l0= level_(), s0= U->state; u64 t0= U->ticks->get_ticks(), p0= probe->n, pc= U->PC, i0= U->vc.inst; double r0= U->ticks->get_rtime(); int cpc= U->clock_per_cycle();
  u64 code= U->rom->valid_address(pc)?(u32)U->rom->get(pc):0; int r= 0;
  probe->top= (it_level*)U->it_levels->top(); probe->moved= false; xt= U->get_xtal_tick();
  if (cmd) { go("step", 3); } else { r= U->do_inst(); U->errors->free_all(); U->events->disconn_all(); }
  int l1= level_(), s1= U->state; i64 D; double dt;
  bool mainrun= tm_[1].ex && tm_[1].run;
  bool same= l0 == l1 && s0 == s1 && !probe->moved;
  if (xt != U->get_xtal_tick() || (u64)U->vc.inst < i0 || (s0 == stGO && (u64)U->vc.inst == i0) || (!mainrun && !same)) { xt= U->get_xtal_tick(); for (int i= 0; i < (int)tm_.size(); i++) if (cl_ticker *t= U->get_counter(i)) { tm_[i].t= t->get_ticks(); tm_[i].rt= t->get_rtime(); } return; }
  // clocks taken, as the main timer saw it; if it does not run, by the probe
  if (mainrun) { D= (i64)(U->ticks->get_ticks()-t0); dt= U->ticks->get_rtime()-r0; if (tm_[1].dir < 0) { D= -D; dt= -dt; } }
  else { D= s0 == stPD?cpc:(i64)(probe->n-p0)*cpc/factor; dt= D*xt; }
  if (mainrun) {
    if (D < 0 || (D == 0 && !cmd && r == resGO && !undefs && !(s0 == stGO && U->vc.inst == i0))) bad("step:no-time", vfmt("pc=%llx code=%s took %lld clocks, state %d", (unsigned long long)pc, [&](){ std::string q; for (int j= 0; j < 4; j++) q+= vfmt("%x ", U->rom->valid_address(pc+j)?(u32)U->rom->get(pc+j):0); return q; }().c_str(), (long long)D, s0));
    if (cpc > 1 && D % cpc) bad("step:part-cycle", vfmt("pc=%llx code=%llx took %lld clocks, %d per cycle", (unsigned long long)pc, (unsigned long long)code, (long long)D, cpc));
    if (!near_(dt, D*xt) && std::fabs(dt-D*xt) > 1e-9*std::max(std::fabs(r0), tm_[1].mx)) bad("step:real-time", vfmt("%lld clocks took %.15g s, want %.15g s", (long long)D, dt, D*xt));
    dt= D*xt;
    i64 hw= (i64)(probe->n-p0), want= D/cpc*factor;
    if (same && s0 == stPD) { if (hw) bad("step:devices-in-powerdown", vfmt("%lld device ticks in power down", (long long)hw)); }
    else if (s0 != stPD && s1 != stPD?hw != want:(hw < 0 || hw > want)) bad(vfmt("step:devices:%s", same?s0 == stIDLE?"idle":"go":"change"), vfmt("pc=%llx code=%llx %lld clocks (%d per cycle), but devices got %lld ticks", (unsigned long long)pc, (unsigned long long)code, (long long)D, cpc, (long long)hw));
  }
  for (int i= 0; i < (int)tm_.size(); i++) {
    Tm &m= tm_[i]; cl_ticker *t= U->get_counter(i); if (!m.ex || !t) continue;
    bool a= counts(m, l0, s0), b= counts(m, l1, s1);
    if (a == b && same) { if (a) { m.t+= m.dir < 0?-D:D; m.rt+= m.dir < 0?-dt:dt; } continue; }
    if (a && m.type == 0) { m.t+= m.dir < 0?-D:D; m.rt+= m.dir < 0?-dt:dt; continue; }
    i64 d= (i64)((u64)t->get_ticks()-m.t); if (m.dir < 0) d= -d;
    if (d < 0 || d > D || (!a && !b && d && !(m.type == 1))) bad(vfmt("step:change:%s", tn[m.type]), vfmt("timer %d moved by %lld in %lld clocks, level %d->%d state %d->%d", i, (long long)d, (long long)D, l0, l1, s0, s1));
    m.rt+= (m.dir < 0?-1:1)*d*xt; m.t= t->get_ticks();
  }
  vh_distinct("step", (((((u64)s0*8+s1)*8+(l0+1))*8+(l1+1))<<40)|(code<<8)|(D&0xff));
  compare("step"); vh_stat("steps", 1); if (same && s0 == stGO && l0 >= 0) vh_stat("steps-in-interrupt", 1); if (s0 == stIDLE) vh_stat("steps-idle", 1); if (s0 == stPD) vh_stat("steps-power-down", 1);
  if (l0 != l1) vh_stat("interrupt-level-changes", 1);
  if (r >= resSTOP || (U->state != stGO && U->state != stIDLE && U->state != stPD)) rand_pc(g);
}

static int pick(bool exist) { std::vector<int> v; for (int i= 1; i < 40; i++) if (tm_[i].ex == exist) v.push_back(i); return v.size()?v[g.below(v.size())]:1; }
static std::string ident(int i) { return tm_[i].name.size() && g.chance(50)?(g.chance(50)?"\""+tm_[i].name+"\"":tm_[i].name):vfmt("%d", i); }
static void parse_list(const std::string &o, const char *op, std::set<int> want) {
  for (auto &l: vh_split(o)) {
    int n, p= 0; char nm[64], on[16]; double s; unsigned long c;
    if (sscanf(l.c_str(), "timer #%d(\"%60[^\"]\") %15s %lf sec (%lu clks)%n", &n, nm, on, &s, &c, &p) != 5 || !p) { if (vh_trim(l).size()) bad(std::string(op)+":format", l); continue; }
    if (!want.count(n)) { bad(std::string(op)+":extra", l); continue; }
    want.erase(n); Tm &m= tm_[n]; std::string st= m.run?"ON":"OFF"; const char *ty[]= {"", ",ISR", ",IDLE", ",HALT"}; st+= ty[m.type];
    if (st != on) bad(std::string(op)+":state", l+" want "+st);
    if ((m.name.size()?m.name:"unnamed") != nm) bad(std::string(op)+":name", l);
    if (c != m.t) bad(std::string(op)+":clocks", l+vfmt(" want %llu", (unsigned long long)m.t));
    if (std::fabs(s-m.rt) > 1e-9*std::max(m.mx, std::fabs(m.rt))+2e-12) bad(std::string(op)+":time", l+vfmt(" want %.15g", m.rt));
  }
  if (want.size()) bad(std::string(op)+":not-listed", vfmt("timer %d", *want.begin()));
}
static std::string names_[]= {"alpha", "b2", "loop_time", "zz", "T", "timerX"};

static void timer_cmd(void) {
  int k= g.below(100), i= pick(true); std::string id= ident(i), c, o;
  if (k < 25) { // add
    bool byname= g.chance(50), clash= g.chance(10); int n= pick(false); std::string nm= names_[g.below(6)];
    if (clash) { n= i; nm= tm_[i].name; if (nm.empty()) byname= false; }
    bool ex= byname?false:tm_[n].ex; if (byname) for (auto &m: tm_) if (m.ex && m.name == nm) ex= true;
    Tm m; m.ex= true; c= std::string("timer ")+(g.chance(70)?"add":g.chance(50)?"create":"make")+" "+(byname?"\""+nm+"\"":vfmt("%d", n));
    int form= g.below(6); static const char *w[]= {"", "isr", "idle", "halt"};
    if (form == 1) { m.dir= g.chance(50)?-1:1; c+= vfmt(" %d", m.dir); }
    else if (form >= 2) { m.dir= g.chance(40)?-1:1; m.type= 1+g.below(3); c+= vfmt(" %d \"%s\"", m.dir, w[m.type]); }
    note(c); o= vh_cmd(c);
    if (ex) { if (o.find("already exists") == std::string::npos) bad("add:existing-accepted", c+" -> "+o); }
    else if (byname) { // any free number may be chosen
      m.name= nm; int at= -1; for (int j= 1; j < 64; j++) if (!tm_[j].ex && U->get_counter(j)) { if (at >= 0) bad("add:two", c); at= j; }
      if (at < 0) { bad("add:not-added", c+" -> "+o); return; } tm_[at]= m;
    } else tm_[n]= m;
  } else if (k < 40) { // delete
    c= std::string("timer ")+(g.chance(60)?"delete":"remove")+" "+id; note(c); o= vh_cmd(c);
    if (tm_[i].user) tm_[i]= Tm(); else if (o.find("cannot be deleted") == std::string::npos) bad("delete:built-in", c+" -> "+o);
  } else if (k < 50) { c= std::string("timer ")+(g.chance(50)?"run ":"start ")+id; note(c); vh_cmd(c); tm_[i].run= true; }
  else if (k < 57) { c= "timer stop "+id; note(c); vh_cmd(c); tm_[i].run= false; }
  else if (k < 72) { // set
    int form= g.below(3); long v= g.below(g.chance(50)?1000:100000000);
    static const struct { const char *u; double m; } un[]= {{"s", 1}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}, {"ps", 1e-12}, {"sec", 1}, {"msec", 1e-3}, {"usec", 1e-6}, {"µs", 1e-6}, {"m", 1e-3}, {"u", 1e-6}};
    c= std::string("timer ")+(g.chance(70)?"set":"value")+" "+id; Tm &m= tm_[i]; bool chk= true;
    if (form == 0) { c+= vfmt(" %ld", v); m.t= v; m.rt= v*xt; }
    else { auto &u= un[g.below(11)]; long n= g.below(2000); double t= n*u.m;
      if (form == 1) { if (t/xt > 1.9e9) { n= 1; t= u.m; } c+= vfmt(" %ld \"%s\"", n, u.u); m.rt= t; m.t= (u64)(t/xt); chk= t/xt < 2e9; if (chk) { note(c); vh_cmd(c); cl_ticker *q= U->get_counter(i); if (q && (i64)((u64)q->get_ticks()-m.t) <= 1 && (i64)((u64)q->get_ticks()-m.t) >= -1) m.t= q->get_ticks(); compare("set"); } return; }
      else { c+= vfmt(" %ld %ld \"%s\"", v, n, u.u); m.t= v; m.rt= t; } }
    note(c); std::string oo= vh_cmd(c); if (getenv("DBG") && oo.size()) printf("%s -> %s\n", c.c_str(), oo.c_str());
  } else if (k < 80) { c= "timer get "+id; note(c); parse_list(vh_cmd(c), "get", {i}); }
  else if (k < 83) { c= "timer set "+id; note(c); parse_list(vh_cmd(c), "set-show", {i}); }
  else if (k < 93) { std::set<int> a; for (int j= 0; j < 64; j++) if (tm_[j].ex) a.insert(j); c= g.chance(50)?"timer list":"timer get"; note(c); parse_list(vh_cmd(c), "list", a); }
  else { // what does not exist
    int n= pick(false); static const char *w[]= {"delete", "stop", "run", "set"}; c= std::string("timer ")+w[g.below(4)]+vfmt(" %d", n); if (tm_[n].ex) return; note(c); o= vh_cmd(c);
    if (o.find("does not exist") == std::string::npos) bad("missing-timer", c+" -> "+o); }
  vh_stat("timer-commands", 1);
  compare(vh_split(c, " ")[1].c_str());
}

static void state_cmd(void) {
  std::string o= vh_cmd("state"); double s, p; unsigned long c; size_t a;
  static const char *h[]= {"Total time since last reset= ", "Time in isr = ", "Time in idle= "};
  for (int i= 0; i < 3; i++) {
    Tm &m= tm_[i+1]; if (!m.ex) continue;
    a= o.find(h[i]); if (a == std::string::npos || sscanf(o.c_str()+a+strlen(h[i]), "%lf sec (%lu clks) %lf%%", &s, &c, &p) < 2) { bad("state:format", o); continue; }
    if (c != m.t || std::fabs(s-m.rt) > 1e-9*std::max(m.mx, std::fabs(m.rt))+2e-12) bad("state:value", vfmt("%s%.15f (%lu), want %.15f (%llu)", h[i], s, c, m.rt, (unsigned long long)m.t));
    if (i && tm_[1].t && tm_[1].rt > 1e-12 && tm_[1].rt > 1e-5*tm_[1].mx && m.mx < 1e5*tm_[1].rt && std::fabs(p-100*m.rt/tm_[1].rt) > 0.006+std::fabs(p)*1e-4) bad("state:percent", vfmt("%s%.2f%%, want %.4f", h[i], p, 100*m.rt/tm_[1].rt));
  }
  vh_stat("state-commands", 1);
}

int vh_main(void) {
  g= Rng(vh_seed); std::string ty= vh_env("VH_TYPE", "");
  U->hws->add(probe= new cl_probe()); if (ty.find("DS320") != std::string::npos) factor= 3;
  for (const char *n: {"DS320", "z80-", "m6800-", "m68hc", "m6809", "st7", "pdk"}) if (ty.find(n) != std::string::npos) undefs= true;
  xt= U->get_xtal_tick();
  for (int i= 0; i < 64; i++) if (cl_ticker *t= U->get_counter(i)) { Tm m; m.ex= true; m.user= t->user; m.dir= t->dir; m.type= t->get_type(); m.name= t->get_name()?t->get_name():""; m.run= t->run; m.t= t->get_ticks(); m.rt= t->get_rtime(); tm_[i]= m; }
  for (int i= 0; i < 4; i++) if (tm_[i+1].name != vh_split("time,isr,idle,halt", ",")[i] || tm_[i+1].type != i) bad("built-in", vfmt("timer %d", i+1));
  for (long n= 0; n < vh_cases; n++) {
    if (n % 300 == 0) { fill_world(g, g.below(2)); rand_pc(g); was_reset(); note("new program, reset"); compare("reset"); }
    int k= g.below(100);
    if (k < 50) { int c= 1+g.below(12); note(vfmt("%d steps from %x", c, (u32)U->PC)); for (int i= 0; i < c; i++) one_step(false); }
    else if (k < 54) { note("step command"); one_step(true); }
    else if (k < 78) timer_cmd();
    else if (k < 81) state_cmd();
    else if (k < 86) { static const double xs[]= {11059200, 12000000, 1000000, 32768, 16000000, 3579545, 1}; double x= xs[g.below(7)]; std::string c= vfmt("set option \"xtal\" %.0f", x); note(c); vh_cmd(c); xt= 1/x; if (!near_(U->get_xtal_tick(), xt)) { bad("xtal", c); xt= U->get_xtal_tick(); } compare("xtal"); }
    else if (k < 89) { int c= 1+g.below(30); u64 p0= probe->n; int l= level_(), s= U->state, cpc= U->clock_per_cycle(); note(vfmt("tick %d", c)); vh_cmd(vfmt("tick %d", c)); advance((i64)c*cpc, c*cpc*xt, l, s); compare("tick"); if ((i64)(probe->n-p0) != (i64)c*factor) bad("tick:devices", vfmt("%d cycles, %lld device ticks", c, (long long)(probe->n-p0))); }
    else if (k < 92) { U->state= g.chance(50)?stIDLE:stPD; note(vfmt("state %d", U->state)); }
    else if (k < 95) { U->state= stGO; }
    else if (k < 98) { cl_it_src *is= U->it_sources->count?(cl_it_src*)U->it_sources->at(g.below(U->it_sources->count)):0; if (is && U->it_levels->count < 4) { U->it_levels->push(new it_level(g.below(2), is->addr, U->PC, is)); note("interrupt level"); } }
    else { note("reset"); vh_cmd("reset"); was_reset(); compare("reset"); rand_pc(g); }
  }
  vh_stat("cases", vh_cases);
  return 0;
}
