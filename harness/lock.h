// Shared driver of the lockstep monitors: the model supplies registers, random
// states, one instruction, and masks; this file runs, compares and reports.
#ifndef LOCK_H
#define LOCK_H
#include "vh.h"
struct LReg { const char *name; cl_memory_cell *c; u32 *m; u32 mask; };   // mask: bits compared after this instruction
struct Lock {
  Shadow M; Rng g; const char *nm; std::vector<LReg> regs; u32 *pc= 0; u32 pcmask= 0xffff; u32 asz= 0x10000;
  long total= 0; int cyc= 0; bool skip= false; std::string opname; // opname: what a failure is filed under
  std::function<void()> randst, step; std::function<void(u32 at)> putcode; std::function<std::string()> code;
  std::function<void()> fixup; // model state the monitor does not compare is taken over from the machine
  std::function<bool(std::string &what, std::string &d)> extra; // other memory spaces, events...
  std::function<u64()> opkey;
  int contpct= 30; bool keep= false;
  Lock(): g(1), nm("") {}
  void reg(const char *n, u32 *m, u32 mask, const char *var= 0) { LReg r; r.name= n; r.c= vh_var(var?var:n); r.m= m; r.mask= mask; regs.push_back(r); }
  void put() { for (auto &r: regs) r.c->set(*r.m); U->PC= *pc; }
  std::string str(const std::vector<u32> &v, u32 p) { std::string s; for (size_t i= 0; i < regs.size(); i++) s+= vfmt("%s=%x ", regs[i].name, v[i]); return s+vfmt("PC=%x", p); }
  std::vector<u32> model() { std::vector<u32> v; for (auto &r: regs) v.push_back(*r.m); return v; }
  std::vector<u32> real() { std::vector<u32> v; for (auto &r: regs) v.push_back(r.c->get()); return v; }
  void run() {
    g= Rng(vh_seed);
    while (total < vh_cases) {
      randst(); put(); int len= g.chance(100-contpct)?1:2+g.below(40);
      for (int k= 0; k < len; k++) {
        if (k == 0 || g.chance(80)) putcode(*pc);
        std::string c= code(); auto pre= model(); u32 prepc= *pc; u64 key= opkey();
        vh_case("%s:op=%llx %s code=%s", nm, (unsigned long long)key, str(pre, prepc).c_str(), c.c_str());
        M.clear(); skip= false; cyc= 0; for (auto &r: regs) r.mask|= 0x80000000u; std::vector<u32> sv; for (auto &r: regs) sv.push_back(r.mask);
        opname= vfmt("%llx", (unsigned long long)key);
        step();
        if (skip) { for (u32 a: M.touched) M.m[a]= M.real(a); for (size_t i= 0; i < regs.size(); i++) regs[i].mask= sv[i]; break; }
        if (!keep) while (U->it_levels->count > 1) delete (it_level*)U->it_levels->pop();
        U->do_inst(); U->errors->free_all(); U->events->disconn_all();
        auto r= real(); std::string d, what; auto ck= [&](const char *n, u32 a, u32 b) { if (a != b) { if (what.size()) what+= "+"; what+= n; d+= vfmt(" %s=%x want %x", n, a, b); } };
        for (size_t i= 0; i < regs.size(); i++) { u32 m= regs[i].mask&0x7fffffff; ck(regs[i].name, r[i]&m, *regs[i].m&m); }
        ck("PC", U->PC, *pc); if (cyc) ck("ticks", U->inst_ticks, cyc);
        std::string md; if (!M.cmp_touched(md)) { if (what.size()) what+= "+"; what+= "mem"; d+= md; for (u32 a: M.touched) M.cells[a]->set(M.m[a]); }
        if (extra) extra(what, d);
        bool bad= !what.empty();
        if (bad) vh_fail(vfmt("%s:op=%s:%s", nm, opname.c_str(), what.c_str()), str(pre, prepc)+" code="+c+" ->"+d);
        vh_distinct("op/state", (key<<20)^(hash_small(pre, r)&0xfffff)); total++;
        if (total < 4) vh_sample(str(pre, prepc)+" code "+c+" -> "+str(r, U->PC));
        for (size_t i= 0; i < regs.size(); i++) { u32 cm= regs[i].mask&0x7fffffff; if (!bad) *regs[i].m= r[i]; else *regs[i].m= (*regs[i].m&cm)|(r[i]&~cm); regs[i].mask= sv[i]; }
        if (fixup) fixup();
        if (bad) put();
        U->state= stGO;
      }
      if (total%512 < len) { std::string d; if (!M.cmp_all(d)) vh_fail(vfmt("%s:stray-write", nm), "memory the instruction stream should not have written changed:"+d); vh_stat("fullmem", 1); }
    }
    vh_stat("cases", total);
  }
  u32 flagbits= 0; int flagreg= -1;
  u32 hash_small(const std::vector<u32> &a, const std::vector<u32> &b) { return flagreg < 0?0:((a[flagreg]&0xff)<<8|(b[flagreg]&0xff)); }
};
#endif
