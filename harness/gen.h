// Common part of the processor independent monitors: random worlds, state
// digests and forked "what if" runs from the same state.
#ifndef GEN_H
#define GEN_H
#include "vh.h"
#include "hwcl.h"
#include "itsrccl.h"
#include "brkcl.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <csetjmp>

struct Item { std::string k; u64 v; };
typedef std::vector<Item> Digest;
extern bool dg_vc, dg_time;

static inline u64 hash_bytes(const void *p, size_t n) {
  const u8 *b= (const u8*)p; u64 h= 0xcbf29ce484222325ull^n; 
  while (n >= 8) { u64 w; memcpy(&w, b, 8); h= (h^w)*0x9E3779B97F4A7C15ull; h^= h>>29; b+= 8; n-= 8; }
  while (n--) { h= (h^*b++)*0x100000001b3ull; }
  return h;
}
// megabyte chips: the first 512k and a part of the rest
static inline u64 hash_big(const u8 *p, size_t n) { u64 h= hash_bytes(p, 512<<10); for (size_t o= 512<<10; o+4096 <= n; o+= 32<<12) h= h*31+hash_bytes(p+o, 4096); return h; }
static inline Digest digest(void) {
  Digest d;
  d.push_back({"PC", (u64)U->PC}); d.push_back({"cpustate", (u64)U->state});
  d.push_back({"clocks", (u64)U->ticks->get_ticks()}); d.push_back({"isr-clocks", (u64)U->isr_ticks->get_ticks()});
  d.push_back({"idle-clocks", (u64)U->idle_ticks->get_ticks()}); d.push_back({"halt-clocks", (u64)U->halt_ticks->get_ticks()});
  d.push_back({"insts", (u64)U->vc.inst}); d.push_back({"fetches", (u64)U->vc.fetch}); d.push_back({"reads", (u64)U->vc.rd}); d.push_back({"writes", (u64)U->vc.wr});
  d.push_back({"irqlevels", (u64)U->it_levels->count});
  for (int i= 0; i < U->memchips->count; i++) {
    cl_memory_chip *c= (cl_memory_chip*)U->memchips->at(i); if (!c || !c->is_chip()) continue;
    size_t n= c->get_size(); size_t bytes= n*(c->width <= 8?1:c->width <= 16?2:4); void *p= c->get_slot(0); if (!p) continue;
    d.push_back({std::string("chip:")+c->get_name(), bytes <= (2u<<20)?hash_bytes(p, bytes):hash_big((const u8*)p, bytes)});
  }
  for (int i= 0; i < U->vars->by_name.count; i++) {
    cl_cvar *v= U->vars->by_name.at(i); cl_memory_cell *c= v->get_cell(); if (!c) continue;
    if (!strcmp(v->get_name(), "sim_reason")) continue;
    d.push_back({std::string("var:")+v->get_name(), (u64)c->get()});
  }
  return d;
}
static inline std::string ser(const Digest &d) { std::string s; for (auto &i: d) s+= i.k+"="+vfmt("%llx", (unsigned long long)i.v)+"\n"; return s; }
// first differing items of two serialized digests; "" if equal
static inline std::string diffd(const std::string &a, const std::string &b, std::string *first= 0, const std::set<std::string> &skip= {}) {
  auto x= vh_split(a), y= vh_split(b); std::string r; int n= 0;
  if (x.size() != y.size()) { if (first) *first= "shape"; return vfmt("%d/%d items", (int)x.size(), (int)y.size()); }
  for (size_t i= 0; i < x.size(); i++) if (x[i] != y[i]) { std::string k= x[i].substr(0, x[i].find('=')); if (skip.count(k)) continue; if (first && first->empty()) *first= k; if (n++ < 6) r+= x[i]+" / "+y[i]+"; "; }
  return r;
}

static char *g_shm; static const size_t SHM= 8<<20;
// Runs f in a forked copy of the whole simulator; its result string comes back.
static inline bool what_if(const std::function<std::string()> &f, std::string &out, std::string &why, int secs= 20) {
  if (!g_shm) g_shm= (char*)mmap(0, SHM, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  *(u32*)g_shm= 0xffffffff; fflush(0);
  pid_t p= fork();
  if (p == 0) { alarm(secs); std::string r= f(); if (r.size() > SHM-8) r.resize(SHM-8); memcpy(g_shm+4, r.data(), r.size()); *(u32*)g_shm= r.size(); _exit(0); }
  int st= 0; if (p < 0 || waitpid(p, &st, 0) < 0) { why= "fork failed"; return false; }
  u32 n= *(u32*)g_shm;
  if (!WIFEXITED(st) || WEXITSTATUS(st) || n == 0xffffffff) { why= WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"hang":vfmt("signal%d", WTERMSIG(st))):vfmt("exit%d", WEXITSTATUS(st)); return false; }
  out.assign(g_shm+4, n); return true;
}

// The main loop's running part, without the console polling.
static inline long run_until_stop(long max) {
  cl_sim *s= application->get_sim(); long n= 0;
  while ((s->state & SIM_GO) && n < max) { s->step(); n++; }
  if (s->state & SIM_GO) s->stop(resUSER);
  return n;
}
std::string vh_out_take(void); // what has been printed on the console since the command
static inline int stop_reason(const std::string &o) { size_t p= o.rfind("Stop at 0x"); if (p == std::string::npos) return -1; p= o.find('(', p); return p == std::string::npos?-1:atoi(o.c_str()+p+1); }
// runs a command that starts execution, and the execution; returns everything printed
static inline std::string go(const std::string &c, long max, long *steps= 0) { vh_cmd(c); long n= run_until_stop(max); if (steps) *steps= n; return vh_out_take(); }

// ---- random worlds
static inline u32 code_limit(void) { u32 s= U->rom->get_size(); return s > 0x10000?0x10000:s; }
static inline void fill_world(Rng &g, int style) {
  U->reset();
  u32 n= code_limit(), m= U->rom->width >= 32?0xffffffffu:(1u<<U->rom->width)-1;
  u32 st= U->rom->get_start_address();
  for (u32 a= 0; a < n; a++) { cl_memory_cell *c= U->rom->get_cell(st+a); if (c->get_flag(CELL_NON_DECODED)) continue; c->download((style == 1?g.b():(u32)g.next()) & m); }
  for (int i= 0; i < U->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)U->address_spaces->at(i); std::string nm= as->get_name();
    if (as == U->rom || (nm != "iram" && nm != "xram" && nm != "ram" && nm != "stack")) continue;
    u32 k= as->get_size(); if (k > 0x10000) k= 0x10000; u32 am= as->width >= 32?0xffffffffu:(1u<<as->width)-1;
    for (u32 a= 0; a < k; a++) { cl_memory_cell *c= as->get_cell(as->get_start_address()+a); if (!c->get_flag(CELL_NON_DECODED)) c->set(g.next() & am); }
  }
}
#if __has_include("pdkcl.h")
#include "pdkcl.h"
static inline void revive(Rng &g) { cl_pdk *p= (cl_pdk*)U; p->mode= pm_run; u32 m= (1u<<p->nuof_fpp)-1; p->rFPPEN= p->set_fppen(g.chance(50) || !m?1:(g.b() & m)|1); }
#else
static inline void revive(Rng &) {}
#endif
static inline void rand_pc(Rng &g) { revive(g); u32 lim= code_limit(); U->set_PC((U->rom->get_start_address()+g.below(lim)) & ~(g.chance(70)?1u:0u)); U->cPC.W(U->PC); U->state= stGO; }
#endif
