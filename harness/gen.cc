// Processor independent monitors (see gen.h). VH_MODE selects: step, obs, brk, reset.
#include "gen.h"
static Rng g(1);
static long ncases;

static std::string hexcode(u32 pc, int n= 6) { std::string s; for (int i= 0; i < n; i++) s+= vfmt("%x ", U->rom->valid_address(pc+i)?(u32)U->rom->get(pc+i):0); return s; }

// A few hundred instructions further, so that registers, stacks and peripherals hold varied values.
static void stroll(int n) { for (int i= 0; i < n; i++) { int r= U->do_inst(); U->errors->free_all(); U->events->disconn_all(); if (r >= resSTOP || U->state != stGO) { rand_pc(g); } } }

// does a device serve one of these cells when it is read?
static bool device(cl_address_space *as, u32 a, u32 n) {
  struct X: cl_memory_cell { static bool has(cl_memory_cell *c) { auto o= static_cast<X*>(c)->ops; return o && *o; } };
  if (!strcmp(as->get_name(), "sfr")) return false;
  for (u32 i= a; i <= a+n; i++) { cl_memory_cell *c= as->get_cell(i); if (c && X::has(c)) return true; } return false;
}
static std::string safe_cmd1(void);
static std::string safe_cmd(void) {
  std::string c= safe_cmd1(); auto w= vh_split(c, " "); if (w[0] == "dch") return device(U->rom, strtoul(w[1].c_str(), 0, 0), strtoul(w[2].c_str(), 0, 0)-strtoul(w[1].c_str(), 0, 0))?"info registers":c;
  if (w[0] != "dump") return c;
  if (w.size() < 4) { static int any= -1; if (any < 0) any= device(U->rom, U->rom->get_start_address(), std::min<u32>(U->rom->get_size(), 0x10000)-1); return any?"info registers":c; } // goes on where the last one ended
  size_t k= w[1][0] == '/'?2:1; u32 a= strtoul(w[k+1].c_str(), 0, 0), b= strtoul(w[k+2].c_str(), 0, 0);
  for (int i= 0; i < U->address_spaces->count; i++) { cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); if (w[k] == as->get_name()) return device(as, a, b-a)?"info registers":c; }
  return c;
}
static std::string safe_cmd1(void) {
  static const char *tbl[]= {"info registers", "info memory", "state", "dump rom", "dc", "history list", "history info", "info breakpoints", "var", "info hw",
    "dis", "expr 1+2", "info interrupts", "get option", "show option", "info memory", "memory", "timer list", "timer", "display", "help", "conf", "info stack", "get sfr", "statistic", "history"};
  u32 k= g.below(64); u32 lim= code_limit(), a= U->rom->get_start_address()+g.below(lim);
  if (k < sizeof tbl/sizeof tbl[0]) return tbl[k];
  if (k >= 40) {
    cl_address_space *as= (cl_address_space*)U->address_spaces->at(g.below(U->address_spaces->count)); if (strstr(as->get_name(), "_cfg")) as= U->rom; u32 o= as->get_start_address()+g.below(as->get_size());
    static const char *more[]= {"show registers", "show error", "conf objects", "conf types", "timer get", "history list 5", "info variables", "statistic", "show option", "get option quiet", "help info", "info variables /r"};
    if (k < 46 && U->hws->count) { cl_hw *h= (cl_hw*)U->hws->at(g.below(U->hws->count)); return vfmt("info hardware %s[%d]", h->id_string, h->id); }
    switch (k) {
    case 46: case 47: return vfmt("memory cell %s 0x%x", as->get_name(), o);
    case 48: return vfmt("info memory %s", as->get_name());
    case 49: return vfmt("where rom 0x%x 0x%x", g.below(256), g.below(256));
    case 50: return vfmt("hole rom %u", 20+g.below(200));
    case 51: return vfmt("dch 0x%x 0x%x", a, a+g.below(12));
    case 52: case 53: return vfmt("dump /%c rom 0x%x 0x%x", "hibcaA"[g.below(6)], a, a+g.below(12));
    case 54: return vfmt("expr /%c PC+%u", "xdobu"[g.below(5)], g.below(9));
    case 55: return vfmt("dis 0x%x", a);
    default: return more[g.below(sizeof more/sizeof more[0])];
    }
  }
  if (k < 31) return vfmt("dc 0x%x 0x%x", a, a+g.below(12));
  if (k < 34) return vfmt("dump rom 0x%x 0x%x", a, a+g.below(20));
  if (k < 36) { int i= g.below(U->address_spaces->count); cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); if (strstr(as->get_name(), "_cfg")) as= U->rom; u32 o= as->get_start_address()+g.below(as->get_size()); return vfmt("dump %s 0x%x 0x%x", as->get_name(), o, o+g.below(16)); }
  if (k < 38 && U->vars->by_name.count) { cl_cvar *v= U->vars->by_name.at(g.below(U->vars->by_name.count)); for (int i= 0; i < U->address_spaces->count; i++) { cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); t_addr o; if (strstr(as->get_name(), "_cfg") && as->is_owned(v->get_cell(), &o)) return "info registers"; } return vfmt("expr %s", v->get_name()); }
  if (strstr(U->id_string(), "MISC16") || strstr(U->id_string(), "RISC")) return "info registers"; // memory cells are devices there
  if (device(U->rom, a, 0)) return "info registers";
  return vfmt("expr rom[0x%x]+1", a);
}

// what the peripherals show of themselves (internal latches which are not memory cells)
static std::string hwtext(void) {
  std::string r; for (int i= 0; i < U->hws->count; i++) { cl_hw *h= (cl_hw*)U->hws->at(i); if (!strcmp(h->id_string, "simif")) continue; std::string s= vh_cmd(vfmt("info hardware %s[%d]", h->id_string, h->id)); size_t p= s.find("Configuration memory of"); r+= s.substr(0, p); }
  return r;
}

static void bad(const std::string &key, const std::string &d) { vh_fail(key, d); }

// ---- one step command, many step commands, a limited run and a stopped run agree
// accesses to the registers of peripherals, so that their latches are in other states than after reset
static void touch_devices(void) {
  struct D { cl_address_space *as; u32 a; }; static std::vector<D> dev; static bool done;
  if (!done) {
    done= true; struct X: cl_memory_cell { static bool has(cl_memory_cell *c) { auto o= static_cast<X*>(c)->ops; return o && *o; } };
    for (int i= 0; i < U->address_spaces->count; i++) {
      cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); if (strstr(as->get_name(), "_cfg") || !strncmp(as->get_name(), "regs", 4)) continue;
      u32 s= as->get_start_address(), n= std::min<u32>(as->get_size(), 0x10000); for (u32 a= s; a < s+n; a++) { cl_memory_cell *c= as->get_cell(a); if (c && X::has(c)) dev.push_back({as, a}); }
    }
  }
  if (dev.empty()) return;
  size_t near= g.below(dev.size());
  for (int k= g.below(6); k > 0; k--) { D &d= dev[(near+g.below(12))%dev.size()]; if (g.below(3)) d.as->read(d.a); else d.as->write(d.a, g.next()&0xff); vh_stat("device-accesses", 1); }
}
static std::string hwlines(void) { // as items of a digest
  std::string r; int n= 0; for (auto &l: vh_split(hwtext())) r+= vfmt("hw%d=", n++)+l+"\n"; return r;
}
static void case_step(void) {
  cl_sim *s= application->get_sim();
  int N= g.chance(50)?1+g.below(12):1+g.below(150);
  u32 pc0= U->PC; std::string code= hexcode(pc0);
  vh_case("step pc=%x N=%d", pc0, N);
  std::string r[6], why; u64 rs= g.next();
  auto fin= [&](const std::string &o) { int re= stop_reason(o); if (re == resSTEP || re == resUSER) re= resSTEP; return vfmt("stop-reason=%x\n", re)+ser(digest())+hwlines(); };
  touch_devices();
  const char *nm[]= {"step-N", "N-times-step", "run-stopped", "run-limit", "step-in-two", "step-again"};
  for (int v= 0; v < 6; v++) {
    bool ok= what_if([&]() -> std::string {
      std::string o; Rng q(rs);
      switch (v) {
      case 0: case 5: o= go(vfmt("step %d", N), N+10); break;
      case 1: for (int i= 0; i < N; i++) { o= go("step", 5); if (stop_reason(o) != resSTEP) break; } break;
      case 2: { vh_cmd("run"); for (int i= 0; i < N && (s->state & SIM_GO); i++) s->step(); if (s->state & SIM_GO) s->stop(resUSER); o= vh_out_take(); break; }
      case 3: s->set_limit(N); o= go("run", N+10); break;
      case 4: { int k= q.below(N); if (k) o= go(vfmt("step %d", k), N+10); if (!k || stop_reason(o) == resSTEP) o= go(vfmt("step %d", N-k), N+10); break; }
      }
      return fin(o);
    }, r[v], why);
    if (!ok) { bad(std::string("step:")+nm[v]+":"+why, vfmt("pc=%x N=%d code=%s", pc0, N, code.c_str())); return; }
  }
  for (int v= 1; v < 6; v++) {
    std::string first, d= diffd(r[0], r[v], &first);
    if (!d.empty()) { bad(std::string("step:")+nm[v]+":"+first, vfmt("pc=%x N=%d code=%s: step-N / %s: ", pc0, N, code.c_str(), nm[v])+d); }
  }
  vh_distinct("state", hash_bytes(r[0].data(), r[0].size()));
  vh_stat("instructions", 6*N);
}

// ---- looking at things changes nothing
// cells of configuration spaces only show what the hardware told when they were read last
static std::set<std::string> cfg_vars(void) {
  std::set<std::string> r; for (int i= 0; i < U->vars->by_name.count; i++) { cl_cvar *v= U->vars->by_name.at(i); cl_memory_cell *c= v->get_cell(); if (!c) continue;
    for (int j= 0; j < U->address_spaces->count; j++) { cl_address_space *as= (cl_address_space*)U->address_spaces->at(j); t_addr o; if (strstr(as->get_name(), "_cfg") && as->is_owned(c, &o)) { r.insert(std::string("var:")+v->get_name()); break; } } }
  return r;
}
static void case_obs(void) {
  static std::set<std::string> cfgs= cfg_vars(); touch_devices();
  int N= 1+g.below(14); u32 pc0= U->PC; std::string code= hexcode(pc0); u64 rs= g.next();
  std::string a, b, why;
  vh_case("obs pc=%x", pc0);
  bool ok= what_if([&]() { for (int i= 0; i < N; i++) { if (stop_reason(go("step", 5)) != resSTEP) break; } return ser(digest())+"\x01"+hwtext(); }, a, why);
  if (!ok) { bad("obs:plain:"+why, vfmt("pc=%x code=%s", pc0, code.c_str())); return; }
  ok= what_if([&]() -> std::string {
    g= Rng(rs); std::string cmds;
    for (int i= 0; i < N; i++) {
      for (int k= g.below(4); k > 0; k--) {
        std::string c= safe_cmd(), x= ser(digest()); cmds+= c+"; "; vh_case("obs pc=%x cmd=%s", pc0, c.c_str()); vh_cmd(c); std::string y= ser(digest()), f; std::string d= diffd(x, y, &f, cfgs);
        if (!d.empty()) return "!"+vh_split(c, " ")[0]+":"+f+"|"+c+" changed "+d;
      }
      if (stop_reason(go("step", 5)) != resSTEP) break;
    }
    return ser(digest())+"\x01"+hwtext()+"@@cmds:"+cmds; }, b, why);
  g= Rng(rs+1);
  if (!ok) { bad("obs:observed:"+why, vfmt("pc=%x code=%s last: %s", pc0, code.c_str(), vh_case_now())); return; }
  if (b[0] == '!') { size_t p= b.find('|'); bad("obs:"+b.substr(1, p-1), b.substr(p+1)); return; }
  std::string ha= a.substr(a.find('\x01')+1), hb= b.substr(b.find('\x01')+1); a.resize(a.find('\x01')); b.resize(b.find('\x01')); std::string cmds; { size_t p= hb.find("@@cmds:"); if (p != std::string::npos) { cmds= hb.substr(p+7); hb.resize(p); } }
  if (ha != hb) { size_t i= 0; while (i < ha.size() && i < hb.size() && ha[i] == hb[i]) i++; size_t j= ha.rfind('\n', i); j= j == std::string::npos?0:j+1; bad("obs:later:hardware", vfmt("pc=%x N=%d code=%s not observed: %s observed: %s after %s", pc0, N, code.c_str(), ha.substr(j, 120).c_str(), hb.substr(j, 120).c_str(), cmds.substr(0, 400).c_str())); }
  std::string f, d= diffd(a, b, &f, cfgs); if (!d.empty()) bad("obs:later:"+f, vfmt("pc=%x N=%d code=%s not observed / observed: ", pc0, N, code.c_str())+d);
  vh_distinct("state", hash_bytes(a.data(), a.size())); vh_stat("observed-steps", N);
}

// ---- any bytes as a program: the instrumented simulator must survive, and PC must stay a valid address
static std::vector<cl_cvar*> simple_vars(void);
static void case_exec(void) {
  u32 pc0= U->PC; int N= 100+g.below(300); std::set<u32> pcs;
  vh_case("exec pc=%x code=%s", pc0, hexcode(pc0).c_str());
  for (int i= 0; i < N; i++) {
    u32 pc= U->PC; pcs.insert(pc);
    static std::vector<cl_cvar*> rv= simple_vars();
    if (rv.size() && g.chance(25)) { cl_cvar *v= rv[g.below(rv.size())]; if (strcmp(v->get_name(), "PC")) { int w= v->get_cell()->get_width(); v->set(g.chance(50)?0:g.chance(50)?((u64)1<<w)-1:(u64)1<<(w-1)); } }
    int r= U->do_inst(); U->errors->free_all(); U->events->disconn_all();
    static bool wrap= U->rom->get_size() == 0x10000;
    if (wrap && !U->rom->valid_address(U->PC)) { bad("exec:pc-outside", vfmt("pc=%x code=%s leads to pc=%x", pc, hexcode(pc).c_str(), (u32)U->PC)); rand_pc(g); }
    if (r >= resSTOP || U->state != stGO || g.chance(3)) rand_pc(g);
    if (g.chance(2)) { vh_case("exec pc=%x disass", (u32)U->PC); chars cm; char *s= U->disassc(U->PC, &cm); if (s) free(s); vh_con(); U->print_regs((cl_console_base*)vh_con()); vh_out_take(); vh_case("exec after pc=%x code=%s", (u32)U->PC, hexcode(U->PC).c_str()); }
  }
  for (u32 p: pcs) vh_distinct("code", ((u64)p<<32)|(U->rom->valid_address(p)?(u32)U->rom->get(p):0));
  vh_stat("instructions", N);
}

// ---- breakpoints stop exactly where they should and change nothing else
struct Acc { bool w; int cell; };
struct Step { u32 pc; int state; int reason; std::vector<Acc> acc; std::vector<u32> vals; };
static std::vector<cl_memory_cell*> wcells; static std::vector<std::pair<cl_address_space*,u32>> waddr;
static std::vector<Acc> *acclog;
class log_op: public cl_memory_operator {
  int id;
public:
  log_op(cl_memory_cell *c, int i): cl_memory_operator(c), id(i) {}
  virtual t_mem read(void) { if (acclog) acclog->push_back({false, id}); return cell->get(); }
  virtual bool is_watcher(void) { return true; }
  virtual t_mem write(t_mem v) { if (acclog) acclog->push_back({true, id}); return v; }
};
struct Bp { bool ev, w, temp, alive; u32 addr; int cell, hit, cnt, var; u32 val; bool neg; int nr; bool script; };

static std::vector<cl_cvar*> simple_vars(void) {
  std::vector<cl_cvar*> r;
  for (int i= 0; i < U->vars->by_name.count; i++) { cl_cvar *v= U->vars->by_name.at(i); if (!v->get_cell() || strchr(v->get_name(), '_') || !v->get_cell()->get_data()) continue; bool reg= false; for (const char *n: {"A","B","ACC","X","R0","R1","HL","SP","PC","Y","C","R2","SX","S0"}) if (!strcmp(n, v->get_name())) reg= true; if (reg) r.push_back(v); }
  return r;
}

static void case_brk(void) {
  cl_sim *s= application->get_sim(); int N= 20+g.below(120); u32 pc0= U->PC; std::string code= hexcode(pc0);
  vh_case("brk pc=%x N=%d", pc0, N);
  // cells watched for accesses
  wcells.clear(); waddr.clear(); std::set<cl_memory_cell*> seen;
  auto watch= [&](cl_address_space *as, u32 from, u32 n) { u32 st= as->get_start_address(); for (u32 i= 0; i < n; i++) { u32 o= (from+i)%as->get_size(); cl_memory_cell *c= as->get_cell(st+o); if (seen.insert(c).second) { wcells.push_back(c); waddr.push_back({as, st+o}); } } };
  for (int i= 0; i < U->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); std::string nm= as->get_name(); if (!strcmp(as->get_name(), "variables") || as->get_size() < 16 || nm.find("conf") != std::string::npos || nm.find("simif") != std::string::npos) continue;
    u32 n= as->get_size(); if (nm == "ioi") n= 256; /* addresses above are mapped to other cells when MMIDR changes */ if (n <= 1024) watch(as, 0, n); else { watch(as, 0, 64); watch(as, n-64, 64); watch(as, g.below(n), 128);
      for (int j= 0; j < U->vars->by_name.count; j++) { cl_cvar *v= U->vars->by_name.at(j); if (v->get_cell() && v->get_cell()->get_width() >= 16) watch(as, (u32)v->get_cell()->get()-8+n, 16); }
      watch(as, pc0-4+n, 32); }
    if (wcells.size() > 6000) break;
  }
  std::vector<cl_cvar*> vv= simple_vars(); if (vv.size() > 4) vv.resize(4);
  std::string txt, why;
  bool ok= what_if([&]() -> std::string {
    for (size_t i= 0; i < wcells.size(); i++) wcells[i]->prepend_operator(new log_op(wcells[i], i));
    std::string r; std::vector<Acc> al; vh_cmd("run");
    for (int i= 0; i < N && (s->state & SIM_GO); i++) {
      r+= vfmt("%x %d", (u32)U->PC, U->state); for (auto v: vv) r+= vfmt(" v%x", (u32)v->get_cell()->get());
      al.clear(); acclog= &al; s->step(); acclog= 0; for (auto &a: al) r+= vfmt(" %c%d", a.w?'w':'r', a.cell); r+= "\n"; }
    r+= vfmt("END %d %x\n", (s->state & SIM_GO)?0:stop_reason(vh_out_take()), (u32)U->PC);
    return r; }, txt, why);
  if (!ok) { bad("brk:plain:"+why, vfmt("pc=%x code=%s", pc0, code.c_str())); return; }
  std::vector<Step> tr; int endr= 0; std::map<std::pair<int,int>,int> hits;
  for (auto &l: vh_split(txt)) {
    auto f= vh_split(l, " "); if (f[0] == "END") { endr= atoi(f[1].c_str()); if (endr == resHALT && !tr.empty() && tr.back().pc == strtoul(f[2].c_str(), 0, 16)) { tr.pop_back(); endr= 0; /* perhaps halted without executing anything */ } break; }
    Step st; st.pc= strtoul(f[0].c_str(), 0, 16); st.state= atoi(f[1].c_str()); st.reason= 0;
    for (size_t i= 2; i < f.size(); i++) { if (f[i][0] == 'v') st.vals.push_back(strtoul(f[i].c_str()+1, 0, 16)); else { Acc a{f[i][0] == 'w', atoi(f[i].c_str()+1)}; st.acc.push_back(a); hits[{a.cell, a.w}]++; } }
    tr.push_back(st);
  }
  if (tr.empty()) return;
  // breakpoints
  std::vector<Bp> bps; std::set<u32> used; int nb= 1+g.below(5);
  for (int i= 0; i < nb; i++) {
    Bp b{}; b.alive= true; b.temp= g.chance(35); b.hit= g.chance(60)?1:1+g.below(6); b.var= -1; b.script= false;
    if (!hits.empty() && g.chance(45)) { b.ev= true; auto it= hits.begin(); std::advance(it, g.below(hits.size())); b.cell= it->first.first; b.w= it->first.second; if (g.chance(10)) b.w= !b.w; }
    else { b.addr= tr[g.below(tr.size())].pc; if (g.chance(15)) b.addr= (b.addr+1+g.below(3))%U->rom->get_size(); if (!U->rom->valid_address(b.addr) || !used.insert(b.addr).second) continue;
      if (vv.size() && g.chance(25)) { b.hit= 1; b.var= g.below(vv.size()); b.val= tr[g.below(tr.size())].vals[b.var]; b.neg= g.chance(30); } }
    b.cnt= b.hit; b.script= g.chance(30); bps.push_back(b);
  }
  if (bps.empty()) return;
  // model: where does it stop
  struct Stop { int at; int kind; std::vector<int> who; std::string left; }; std::vector<Stop> exp; std::vector<Bp> m= bps; u64 delseed= g.next(); Rng dr(delseed);
  auto left= [&]() { std::string r; for (size_t i= 0; i < m.size(); i++) if (m[i].alive) r+= vfmt("%d:%d ", (int)i, m[i].cnt); return r; };
  int start= 0; std::vector<int> dels; bool lastev= false; // an error stop of the last instruction may hide its event
  for (int i= 0; i < (int)tr.size(); ) {
    bool stop= false; Stop st; st.at= i; st.kind= 0;
    if (i > start && tr[i].state == stGO) for (size_t k= 0; k < m.size(); k++) { Bp &b= m[k]; if (b.alive && !b.ev && b.addr == tr[i].pc && --b.cnt <= 0) { b.cnt= b.hit; if (b.var < 0 || ((tr[i].vals[b.var] == b.val) != b.neg)) { stop= true; st.kind= resBREAKPOINT; st.who.push_back(k); if (b.temp) b.alive= false; } } }
    if (!stop) {
      for (auto &a: tr[i].acc) for (size_t k= 0; k < m.size(); k++) { Bp &b= m[k]; if (b.alive && b.ev && b.cell == a.cell && b.w == a.w && --b.cnt <= 0) { b.cnt= b.hit; stop= true; st.kind= resEVENTBREAK; st.who.push_back(k); } }
      if (stop) { for (int k: st.who) if (m[k].temp) m[k].alive= false; }
      i++; st.at= i;
    }
    if (stop && endr && st.at == (int)tr.size()) { lastev= true; break; }
    if (stop) { st.left= left(); exp.push_back(st); start= i; int d= -1; if (dr.chance(25)) { d= dr.below(m.size()); m[d].alive= false; } dels.push_back(d); }
  }
  // reference digests at the stops
  std::string ref, got;
  ok= what_if([&]() -> std::string { std::string r; vh_cmd("run"); int at= 0; for (auto &e: exp) { while (at < e.at && (s->state & SIM_GO)) { s->step(); at++; } r+= "@\n"+ser(digest()); } return r; }, ref, why);
  if (!ok) { bad("brk:plain:"+why, ""); return; }
  std::string setup;
  ok= what_if([&]() -> std::string {
    std::string r;
    for (size_t i= 0; i < bps.size(); i++) {
      Bp &b= bps[i]; std::string c= b.temp?"tbreak ":"break ";
      if (b.ev) c+= vfmt("%s %c 0x%x", waddr[b.cell].first->get_name(), b.w?'w':'r', waddr[b.cell].second); else c+= vfmt("0x%x", b.addr);
      if (b.hit != 1 || g.chance(20)) c+= vfmt(" %d", b.hit);
      if (b.var >= 0) c+= vfmt(" if \"%s%s0x%x\"", vv[b.var]->get_name(), b.neg?"!=":"==", b.val);
      vh_cmd(c); b.nr= U->brk_counter; r+= "C "+c+"\n"; if (b.script) vh_cmd(vfmt("commands %d expression %d", b.nr, 770000+(int)i));
      if (g.chance(20)) vh_cmd("info breakpoints");
    }
    int at= 0;
    for (size_t k= 0; k <= exp.size(); k++) {
      int todo= (k < exp.size()?exp[k].at:(int)tr.size())-at;
      long steps; std::string o= go(k && g.chance(30)?"continue":"run", (k < exp.size()?todo+50:todo), &steps); int re= stop_reason(o);
      if (k == exp.size()) { r+= vfmt("LAST %d\n", re); break; }
      r+= vfmt("@%d steps %ld/%d script", re, steps, todo); for (size_t i= 0; i < bps.size(); i++) { std::string n= vfmt("%d", 770000+(int)i); int cnt= 0; for (size_t p= o.find(n); p != std::string::npos; p= o.find(n, p+1)) cnt++; if (cnt) r+= vfmt(" %d*%d", (int)i, cnt); }
      r+= "\n"; r+= "L"; for (size_t i= 0; i < bps.size(); i++) { cl_brk *x= U->brk_by_nr(bps[i].nr); if (x) r+= vfmt("%d:%d ", (int)i, x->cnt); } r+= "\n"+ser(digest());
      if (dels[k] >= 0) { Bp &b= bps[dels[k]]; if (!b.ev && g.chance(50)) vh_cmd(vfmt("clear 0x%x", b.addr)); else vh_cmd(vfmt("delete %d", b.nr)); }
      at= exp[k].at;
    }
    return r; }, got, why);
  if (!ok) { bad("brk:run:"+why, vfmt("pc=%x code=%s", pc0, code.c_str())); return; }
  // compare
  std::string cmds; std::vector<std::string> gs, rs; int last= -1;
  { std::string cur; for (auto &l: vh_split(got)) { if (l[0] == 'C' && l[1] == ' ') cmds+= l.substr(2)+"; "; else if (l.substr(0, 5) == "LAST ") last= atoi(l.c_str()+5); else { if (l[0] == '@') { if (!cur.empty()) gs.push_back(cur); cur= ""; } cur+= l+"\n"; } } if (!cur.empty()) gs.push_back(cur); }
  { std::string cur; for (auto &l: vh_split(ref)) { if (l[0] == '@') { if (!cur.empty()) rs.push_back(cur); cur= ""; } cur+= l+"\n"; } if (!cur.empty()) rs.push_back(cur); }
  std::string ctx= vfmt("pc=%x code=%s N=%d cmds: %s", pc0, code.c_str(), N, cmds.c_str());
  if (getenv("VH_TRACE")) { for (size_t i= 0; i < tr.size(); i++) ctx+= vfmt("%d:%x/%d ", (int)i, tr[i].pc, tr[i].state); for (auto &e: exp) ctx+= vfmt("STOP@%d ", e.at); }
  for (size_t k= 0; k < exp.size(); k++) {
    if (k >= gs.size() || k >= rs.size()) { bad("brk:missing-stop", ctx); return; }
    auto gl= vh_split(gs[k]); int re= atoi(gl[0].c_str()+1); Bp &b0= bps[exp[k].who[0]]; const char *kn= b0.ev?(b0.w?"write":"read"):(b0.var >= 0?"cond":"fetch");
    if (re != exp[k].kind) { bad(vfmt("brk:%s:reason", kn), ctx+vfmt("stop %d at step %d should be %d: %s", (int)k, exp[k].at, exp[k].kind, gl[0].c_str())); return; }
    std::string a= gs[k].substr(gs[k].find('\n')+1), first; a= a.substr(a.find('\n')+1); std::string b= rs[k].substr(rs[k].find('\n')+1);
    std::string d= diffd(b, a, &first); if (!d.empty()) { bad(vfmt("brk:%s:state:%s", kn, first.c_str()), ctx+vfmt("stop %d after %d instructions, unbroken/broken: ", (int)k, exp[k].at)+d); return; }
    if (gl[1] != "L"+exp[k].left) { bad(vfmt("brk:%s:remaining", kn), ctx+vfmt("stop %d: left %s want %s", (int)k, gl[1].c_str(), exp[k].left.c_str())); return; }
    std::map<int,int> want; for (int w: exp[k].who) if (bps[w].script) want[w]++; std::string ws; for (auto &w: want) ws+= vfmt(" %d*%d", w.first, w.second); size_t sp= gl[0].find("script");
    // several accepted accesses of one instruction may run the script several times
    std::map<int,int> got; for (auto &t: vh_split(gl[0].substr(sp+6), " ")) if (!t.empty()) { int i= atoi(t.c_str()); got[i]= atoi(t.c_str()+t.find('*')+1); }
    bool sok= got.size() == want.size(); for (auto &w: want) if (got[w.first] < 1 || got[w.first] > w.second) sok= false;
    if (!sok) { bad(vfmt("brk:%s:script", kn), ctx+"scripts run:"+gl[0].substr(sp+6)+" want:"+ws); return; }
    vh_stat(std::string("stops-")+kn, 1); vh_distinct("stop", (hash_bytes(b.data(), b.size())<<3)|exp[k].kind%8);
  }
  if (!lastev && (last == resBREAKPOINT || last == resEVENTBREAK)) bad("brk:extra-stop", ctx+vfmt(" reason %d", last));
  vh_stat("breakpoints", bps.size());
}

// ---- the disassembler: length, purity, agreement with execution
struct Mn { long n= 0, seq= 0, bad= 0; std::string ex; std::set<u32> codes; }; static std::map<std::string,Mn> mns, mns2; static std::map<u32,std::set<std::string>> pfx;
struct By { long n= 0; std::string ex; }; static std::map<std::string,By> beyond; static std::set<std::string> jumps;
static void case_dis(void) {
  static std::vector<u32> prefix; static long cnt; if (++cnt%4000 == 0) { prefix.clear(); for (auto &x: pfx) if (x.second.size() > 7) prefix.push_back(x.first); }
  u32 st= U->rom->get_start_address(), lim= code_limit(); u32 m= U->rom->width >= 32?0xffffffffu:(1u<<U->rom->width)-1; bool word= U->rom->width > 8;
  u32 pc= st+g.below(lim-16); if (word?0:g.chance(30)) pc&= ~1u; 
  u32 save[16]; for (int i= 0; i < 16; i++) { if (!U->rom->valid_address(pc+i) || U->rom->get_cell(pc+i)->get_flag(CELL_NON_DECODED)) return; u32 v= g.next() & m; if (g.chance(10)) v= g.b() & m; if (i == 0 && !word && prefix.size() && g.chance(50)) v= prefix[g.below(prefix.size())]; U->rom->get_cell(pc+i)->download(v); save[i]= v; }
  for (int i= 0; i < 16; i++) if (U->rom->get(pc+i) != save[i]) return;
  std::string code= hexcode(pc, 8); vh_case("dis pc=%x code=%s", pc, code.c_str());
  static u32 n; std::string d0; bool full= n++%64 == 0; if (full) d0= ser(digest());
  auto text= [&](int *len) { chars cm; char *s= U->disassc(pc, &cm); std::string r= s?s:"<null>"; if (s) free(s); *len= U->inst_length(pc); return r; };
  int l1, l2; std::string a= text(&l1), b= text(&l2);
  U->is_call(pc); U->inst_branch(pc);
  for (int i= 0; i < 16; i++) if (U->rom->get(pc+i) != save[i]) bad("dis:memory", "code="+code);
  if (a != b || l1 != l2) bad("dis:unstable", "code="+code+" "+a+" / "+b);
  if (l1 < 1 || l1 > 8) { bad("dis:length", vfmt("code=%s %s len %d", code.c_str(), a.c_str(), l1)); return; }
  if (a == "<null>" || a.empty()) bad("dis:null", "code="+code);
  for (char c: a) if ((unsigned char)c < 32 && c != '\t' || (unsigned char)c > 126) { bad("dis:chars", "code="+code+" "+a); break; }
  bool unk= a.find('?') != std::string::npos || a.find("--") != std::string::npos || a.find("UNKNOWN") != std::string::npos || a.find("INVALID") != std::string::npos || a.find("unknown") != std::string::npos;
  // bytes behind the instruction do not belong to it
  for (int i= l1; i < 16; i++) U->rom->get_cell(pc+i)->download(g.next() & m);
  int l3; std::string c= text(&l3); if (!unk && (c != a || l3 != l1)) { By &x= beyond[vh_split(a, " \t")[0]]; if (x.n++ == 0) x.ex= (vfmt("code=%s %s (%d) becomes %s (%d)", code.c_str(), a.c_str(), l1, c.c_str(), l3)); }
  for (int i= l1; i < 16; i++) U->rom->get_cell(pc+i)->download(save[i]);
  // listing
  if (g.chance(3)) {
    std::string o= vh_cmd(vfmt("dc 0x%x 0x%x", pc, pc+8)); auto ls= vh_split(o); u32 at= pc; int k= 0;
    for (auto &l: ls) { if (l.find("<nothing>") != std::string::npos || (l.size() > 2 && l.substr(l.size()-2) == ">:")) continue; size_t p= l.find("0x"); if (p == std::string::npos) continue; u32 x= strtoul(l.c_str()+p, 0, 16); if (x != at) { bad("dis:listing", vfmt("code=%s line %d at %x want %x: ", code.c_str(), k, x, at)+o); break; } at+= U->inst_length(at); k++; }
    if (k < 1) bad("dis:listing-lines", "code="+code+" "+o); vh_stat("listings", 1);
  }
  if (full) { std::string d1= ser(digest()), f; std::string d= diffd(d0, d1, &f, {}); if (!d.empty() && f.substr(0, 5) != "chip:") bad("dis:state:"+f, "code="+code+" "+d); }
  // execution consumes as many bytes
  U->set_PC(pc); U->cPC.W(pc); U->state= stGO; u32 x1= 0; int l4= U->inst_length(pc); u32 pn= pc+l4; int nextlen= U->rom->valid_address(pn)?U->inst_length(pn):0;
  int r= U->do_inst(); U->errors->free_all(); U->events->disconn_all(); (void)x1;
  bool ok= r < resSTOP && U->state == stGO; u32 np= U->PC; int dl= (int)(np-pc);
  while (U->it_levels->count > 1) { ok= false; delete (it_level*)U->it_levels->pop(); }
  auto w= vh_split(a, " \t"); std::string key= w.empty()?"":w[0];
  pfx[save[0]].insert(key);
  if (ok && !unk && (dl < 1 || dl > 8)) jumps.insert(key);
  if (ok && !unk) for (int two= 0; two < 2; two++) { if (word && two) break; Mn &x= two?mns2[key+vfmt("/%02x%02x", save[0], save[1])]:mns[key+(word?"":vfmt("/%02x", save[0]))]; x.n++; if (dl >= 1 && dl <= 8) { x.seq++; if (dl != l4 && dl != l4+nextlen) { x.bad++; if (x.ex.empty()) x.ex= vfmt("code=%s '%s' disassembled as %d long, executed as %d", code.c_str(), a.c_str(), l4, dl); } } }
  U->state= stGO;
  for (int i= 0; i < 16; i++) U->rom->get_cell(pc+i)->download(save[i]);
  vh_distinct("text", hash_bytes(a.data(), a.size())); vh_stat("instructions", 1);
}
static void end_dis(void) {
  std::set<std::string> seen;
  for (auto &x: beyond) if (x.second.n >= 3 && !(x.first.substr(0, 3) == "MOV" && std::string(U->id_string()) == "M68HC12")) bad("dis:beyond:"+x.first, vfmt("%ld times: ", x.second.n)+x.second.ex);
  for (auto &x: mns) { if (jumps.count(x.first.substr(0, x.first.find('/')))) continue; if (x.second.bad >= 3 && x.second.bad*20 >= x.second.n && x.second.n >= 12 && x.second.seq == x.second.n) { bad("dis:exec-length:"+x.first, vfmt("%ld of %ld: ", x.second.bad, x.second.n)+x.second.ex); seen.insert(x.first); } if (x.second.seq == x.second.n) vh_stat("sequential-opcodes", 1); }
  for (auto &x: mns2) if (!jumps.count(x.first.substr(0, x.first.find('/'))) && pfx[strtoul(x.first.substr(x.first.rfind('/')+1, 2).c_str(), 0, 16)].size() > 7 && x.second.bad >= 4 && x.second.bad*8 >= x.second.n && x.second.seq == x.second.n && !seen.count(x.first.substr(0, x.first.size()-2))) bad("dis:exec-length:"+x.first, vfmt("%ld of %ld: ", x.second.bad, x.second.n)+x.second.ex);
}

// ---- the same history in another process gives the same states (heap filled differently by the allocator)
static int det_main(void) {
  FILE *f= fopen(vh_env("VH_DET", "/dev/null"), "w"); g= Rng(vh_seed);
  auto put= [&](const char *what, u32 pc, const std::string &code) { fprintf(f, "@ case %ld %s pc=%x code=%s\n%s", ncases, what, pc, code.c_str(), ser(digest()).c_str()); vh_stat("states", 1); };
  put("start", U->PC, "");
  { cl_sim *s= application->get_sim(); vh_cmd("run"); for (int i= 0; i < 20 && (s->state & SIM_GO); i++) s->step(); if (s->state & SIM_GO) s->stop(resUSER); vh_out_take(); }
  put("start-run", U->PC, "");
  while (ncases < vh_cases) {
    if (g.chance(8) || !ncases) fill_world(g, g.below(2));
    rand_pc(g); u32 pc= U->PC; std::string code= hexcode(pc); ncases++; vh_case("det pc=%x code=%s", pc, code.c_str());
    stroll(1+g.below(80)); put("run", pc, code); if (ncases < 3) vh_sample("det pc="+vfmt("%x", pc)+" code="+code);
    while (U->it_levels->count > 1) delete (it_level*)U->it_levels->pop();
  }
  fclose(f); vh_stat("cases", ncases); return 0;
}

int vh_main() {
  if (vh_mode == "det") { application->quiet= true; return det_main(); }
  g= Rng(vh_seed); bool first= true;
  application->quiet= true;
  while (ncases < vh_cases) {
    if (first || g.chance(4)) { fill_world(g, g.below(2)); first= false; vh_stat("worlds", 1); }
    if (vh_mode == "dis") { ncases++; case_dis(); if (g.chance(1)) stroll(20); continue; }
    rand_pc(g); stroll(g.below(60)); U->errors->free_all(); U->events->disconn_all();
    if (U->state != stGO && g.chance(70)) rand_pc(g);
    while (U->it_levels->count > 1) delete (it_level*)U->it_levels->pop();
    if (ncases < 4) vh_sample(vfmt("pc=%x code=%s", (u32)U->PC, hexcode(U->PC).c_str()));
    ncases++;
    if (vh_mode == "obs") case_obs(); else if (vh_mode == "exec") case_exec(); else if (vh_mode == "brk") case_brk(); else case_step();
  }
  if (vh_mode == "dis") end_dis();
  vh_stat("cases", ncases);
  return 0;
}
