// Reset monitor: after a random history, `reset` must lead to the state that reset gives
// in an untouched simulator, and the program that follows must run the same way.
// Registers with a fixed value after reset are listed in conf/reset.txt.
#include "gen.h"
static Rng g(1);
static std::map<std::string,u32> golden;                  // variable -> value after reset, this processor type
static bool learn;

static void image(u64 seed) {                             // program and data, without touching the processor
  Rng r(seed); int style= r.below(2);
  for (int i= 0; i < U->memchips->count; i++) {           // big chips are filled, contents of small ones is levelled later
    cl_memory_chip *c= (cl_memory_chip*)U->memchips->at(i); if (!c || !c->is_chip() || (c->get_size() <= 0x1000 && U->rom->get_size() > 0x1000) || !c->get_slot(0)) continue;
    if (!strcmp(c->get_name(), "sfr_chip") || c->get_size() <= 0x200) continue;
    for (u32 a= 0; a < c->get_size(); a++) c->set(a, (style?r.b():(u32)r.next()));
  }
}
static bool cfg_cell(cl_memory_cell *c) {                 // configuration of simulated devices: not a part of the machine
  for (int k= 0; k < U->address_spaces->count; k++) { cl_address_space *as= (cl_address_space*)U->address_spaces->at(k); t_addr o; std::string nm= as->get_name(); if ((nm.find("_cfg") != std::string::npos || nm.find("conf") != std::string::npos || nm.find("simif") != std::string::npos) && as->is_owned(c, &o)) return true; }
  return false;
}
static bool own_var(cl_cvar *v) { static std::map<cl_cvar*,bool> m; auto i= m.find(v); if (i != m.end()) return i->second; std::string n= v->get_name(); return m[v]= v->get_cell() && n.compare(0, 3, "sim") && n != "PC" && !cfg_cell(v->get_cell()); }
// every variable and every cell of small chips
typedef std::vector<std::pair<std::string,u32>> Snap;
static Snap snap(void) {
  Snap s; s.push_back({"PC", (u32)U->PC}); s.push_back({"cpustate", (u32)U->state}); s.push_back({"clocks", (u32)U->ticks->get_ticks()});
  s.push_back({"insts", (u32)U->vc.inst}); s.push_back({"fetches", (u32)U->vc.fetch}); s.push_back({"reads", (u32)U->vc.rd}); s.push_back({"writes", (u32)U->vc.wr}); s.push_back({"isr-clocks", (u32)U->isr_ticks->get_ticks()}); s.push_back({"idle-clocks", (u32)U->idle_ticks->get_ticks()}); s.push_back({"irqlevels", (u32)U->it_levels->count}); s.push_back({"stackops", (u32)U->stack_ops->count});
  for (int i= 0; i < U->vars->by_name.count; i++) { cl_cvar *v= U->vars->by_name.at(i); if (own_var(v)) s.push_back({std::string("var:")+v->get_name(), (u32)v->get_cell()->get()}); }
  for (int i= 0; i < U->memchips->count; i++) {
    cl_memory_chip *c= (cl_memory_chip*)U->memchips->at(i); if (!c || !c->is_chip() || c->get_size() > 0x1000 || !c->get_slot(0)) continue;
    for (u32 a= 0; a < c->get_size(); a++) s.push_back({vfmt("chip:%s[%x]", c->get_name(), a), (u32)c->d(a)});
  }
  return s;
}
static void level(std::map<std::string,u32> &A) {         // what reset leaves alone gets the values of the untouched run
  for (int i= 0; i < U->memchips->count; i++) {
    cl_memory_chip *c= (cl_memory_chip*)U->memchips->at(i); if (!c || !c->is_chip() || c->get_size() > 0x1000 || !c->get_slot(0)) continue;
    for (u32 a= 0; a < c->get_size(); a++) { auto x= A.find(vfmt("chip:%s[%x]", c->get_name(), a)); if (x != A.end() && (u32)c->d(a) != x->second) c->set(a, x->second); }
  }
  for (int i= 0; i < U->vars->by_name.count; i++) {
    cl_cvar *v= U->vars->by_name.at(i); if (!own_var(v) || golden.count(v->get_name())) continue;
    auto x= A.find(std::string("var:")+v->get_name()); if (x != A.end() && (u32)v->get_cell()->get() != x->second) v->get_cell()->set(x->second);
  }
}
static void quiet(void) { U->errors->free_all(); U->events->disconn_all(); }
static std::string after(const std::vector<u32> &dirt, u64 seed) {
  (void)dirt; std::string o; U->stop_selfjump= false;
  for (int part= 0; part < 4; part++) {
    u64 h= 0; int n= 0;
    for (; n < 60; n++) { int r= U->do_inst(); quiet(); h= h*31+U->PC; if (r >= resSTOP) break; }
    Digest d= digest(); o+= vfmt("#%d path=%llx n=%d\n", part, (unsigned long long)h, n); for (auto &i: d) o+= vfmt("#%d ", part)+i.k+vfmt("=%llx\n", (unsigned long long)i.v);
  }
  (void)seed; return o;
}
static std::string ser2(const Snap &s) { std::string r; for (auto &i: s) r+= vfmt("%s=%x\n", i.first.c_str(), i.second); return r; }
static void history(u64 seed) {
  Rng r(seed); fill_world(r, r.below(2)); int parts= 1+r.below(6);
  for (int p= 0; p < parts; p++) {
    rand_pc(r);
    if (r.chance(60)) for (int i= 0; i < U->vars->by_name.count; i++) if (r.chance(40)) { cl_cvar *v= U->vars->by_name.at(i); if (own_var(v) && golden.count(v->get_name())) { u32 x= r.chance(40)?0xffffffffu:(u32)r.next(); U->PC= U->PC; v->get_cell()->write(x); } }
    int n= 1+r.below(150);
    for (int i= 0; i < n; i++) { int x= U->do_inst(); quiet(); if (x >= resSTOP || (U->state != stGO && r.chance(5))) { if (p == parts-1 && r.chance(40)) return; rand_pc(r); } }
    if (r.chance(30)) for (int i= 0; i < U->hws->count; i++) if (r.chance(30)) { cl_hw *h= (cl_hw*)U->hws->at(i); h->tick(1+r.below(300)); }
  }
}
static void detach(void) {                                // devices whose state reset is not required to define are disconnected
  for (int i= 0; i < U->hws->count; i++) {
    cl_hw *h= (cl_hw*)U->hws->at(i); if (h->category == HW_CPU || h->category == HW_INTERRUPT || h->category == HW_SIMIF) continue;
    h->on= false;
    for (int k= 0; k < U->address_spaces->count; k++) {
      cl_address_space *as= (cl_address_space*)U->address_spaces->at(k); std::string nm= as->get_name(); if (nm.find("_cfg") != std::string::npos || nm == "simif") continue;
      u32 st= as->get_start_address(); for (u32 a= 0; a < as->get_size(); a++) { cl_memory_cell *c= as->get_cell(st+a); c->remove_hw(h); }
    }
  }
}
int vh_main() {
  g= Rng(vh_seed); application->quiet= true; learn= vh_mode == "learn"; U->stop_selfjump= false;
  const char *tname= vh_env("VH_TYPE", ""); FILE *f= fopen(vh_env("VH_RESET", "/dev/null"), "r"); char ln[400];
  if (f) { while (fgets(ln, sizeof ln, f)) { char t[100], v[200]; unsigned x; if (sscanf(ln, "%99s %199s %x", t, v, &x) == 3 && !strcmp(t, tname)) golden[v]= x; } fclose(f); }
  if (vh_envl("VH_RUN", 0) == 2) detach();
  std::map<std::string,std::set<u32>> post, pre;
  long fixed= 0, runs= 0, kept= 0;
  for (long k= 0; k < vh_cases; k++) {
    u64 sh= g.next(), si= g.next(); std::string a, b, why; vh_case("history seed %llx image seed %llx", (unsigned long long)sh, (unsigned long long)si);
    std::map<std::string,u32> A;
    auto parse= [](const std::string &t) { std::map<std::string,u32> m; for (auto &l: vh_split(t)) { size_t e= l.rfind('='); if (e != std::string::npos) m[l.substr(0, e)]= strtoul(l.c_str()+e+1, 0, 16); } return m; };
    auto fin= [&](bool hist) {
      std::string o; if (hist) history(sh);
      image(si); Snap p= snap(); if (learn) o+= ser2(p)+"--\n";
      vh_cmd("reset"); Snap s= snap(); std::string keep;
      o+= ser2(s)+"==\n"; if (hist) o+= ser2(p)+"==\n";
      if (!learn && vh_envl("VH_RUN", 0)) { if (hist) level(A); o+= after({}, si); }
      return o;
    };
    if (!what_if([&] { return fin(false); }, a, why)) { vh_fail("reset:run", "untouched: "+why+" "+vh_case_now()); continue; }
    if (!learn) A= parse(a.substr(0, a.find("==\n")));
    if (!what_if([&] { return fin(true); }, b, why)) { vh_fail("reset:run", "after history: "+why+" "+vh_case_now()); continue; }
    if (learn) {
      size_t c= b.find("--\n"), e= b.find("==\n"); auto p= parse(b.substr(0, c)), q= parse(b.substr(c+3, e-c-3));
      for (auto &x: q) { post[x.first].insert(x.second); pre[x.first].insert(p[x.first]); }
      continue;
    }
    size_t ea= a.find("==\n"), eb= b.find("==\n"), eb2= b.find("==\n", eb+3); auto B= parse(b.substr(0, eb));
    std::string d, key; runs++;
    for (auto &x: B) {
      if (x.first.compare(0, 4, "var:") == 0) { auto i= golden.find(x.first.substr(4)); if (i != golden.end()) { fixed++; if (i->second != x.second) { if (key.empty()) key= "value:"+x.first; d+= vfmt("%s=%x want %x; ", x.first.c_str(), x.second, i->second); } continue; } }
      if (A[x.first] == x.second) continue;
      if (x.first.compare(0, 4, "var:") == 0 || x.first.compare(0, 5, "chip:") == 0) { kept++; continue; } // memory and undefined registers
      if (key.empty()) key= "state:"+x.first; d+= vfmt("%s=%x, %x without history; ", x.first.c_str(), x.second, A[x.first]); if (d.size() > 300) break;
    }
    if (!key.empty()) { size_t br= key.find('['); vh_fail("reset:"+(br == std::string::npos?key:key.substr(0, br)), vh_case_now()+(": "+d)); continue; }
    if (!vh_envl("VH_RUN", 0)) { vh_distinct("state after reset", hash_bytes(b.data(), eb)); continue; }
    std::string first, df= diffd(a.substr(ea+3), b.substr(eb2+3), &first);
    if (!df.empty()) { vh_fail("reset:run:"+first.substr(first.find(' ') == std::string::npos?0:first.find(' ')+1), vh_case_now()+(": "+df)); continue; }
    vh_distinct("run after reset", hash_bytes(b.data()+eb2, b.size()-eb2));
    if (k < 2) vh_sample(vfmt("%s: %zu values equal after reset", vh_case_now(), B.size()));
  }
  if (learn) { for (auto &x: post) if (x.first.compare(0, 4, "var:") == 0 && x.second.size() == 1 && pre[x.first].size() > 5) printf("%s", ""), vh_stat("FIXED "+x.first.substr(4), *x.second.begin()); return 0; }
  vh_stat("runs compared", runs); vh_stat("defined registers compared", fixed); vh_stat("registers left alone by reset", kept); vh_stat("cases", vh_cases);
  return 0;
}
