// Memory commands and named variables: set memory (data and bits), fill, where, Where, hole,
// memory cell, var, rmvar, info variables, against a model of cells and names.
#include "vh.h"
#include <cctype>
static Rng g(1);
struct Tgt { std::string n; cl_memory *m; u32 lo, hi; int w; bool space; std::vector<u32> v; std::string twin; };
static std::vector<Tgt> tg;
static u32 mk(int w) { return w >= 32?0xffffffffu:(1u<<w)-1; }
static Tgt *find(const std::string &n) { for (auto &t: tg) if (t.n == n) return &t; return 0; }
static u32 &cell(Tgt &t, u32 a) { Tgt &o= t.twin.size()?*find(t.twin):t; return o.v[a-t.lo]; } // twins show the same cells from their first address on
static bool same(std::string &d, Tgt *f) {
  for (auto &t: tg) {
    if (&t != f && t.n != f->twin && t.v.size() > 0x1000 && !g.chance(5)) continue;
    for (u32 a= t.lo; a <= t.hi; a++) { u32 r= t.m->get(a), w= cell(t, a); if (r != w) { d= vfmt("%s[%x]=%x want %x", t.n.c_str(), a, r, w); return false; } }
  }
  return true;
}
static void resync(void) { for (auto &t: tg) if (!t.twin.size()) for (u32 a= t.lo; a <= t.hi; a++) t.v[a-t.lo]= t.m->get(a); }
static void bad(const std::string &k, const std::string &d) { vh_fail(k, d.substr(0, 1500)); }
static u64 hs(const std::string &s) { u64 h= 1469598103934665603ull; for (char c: s) h= (h^(u8)c)*1099511628211ull; return h; }
static std::string num(u32 v) { int k= g.below(4); if (k == 0 && v < 0x7fffffff) return vfmt("%u", v); if (k == 1) return vfmt("0X%x", v); return vfmt("0x%x", v); }
static std::string abbr(const std::string &s) { return s; }

// a list of numbers and strings, as written and as data
static std::string data(std::vector<u32> &v, int n, int w, bool letters) {
  std::string s;
  while (n > 0) {
    if (w >= 7 && g.chance(letters?75:30)) {
      std::string q; int l= 1+g.below(n > 6?6:n);
      for (int i= 0; i < l; i++) {
        static const char al[]= "aAbBzZ@[`{0 ,;"; char c= letters?"aAbB"[g.below(4)]:al[g.below(sizeof al-1)];
        if (g.chance(5)) { static const struct { const char *t; u8 v; } e[]= {{"\\n", 10}, {"\\t", 9}, {"\\\\", 92}, {"\\\"", 34}, {"\\r", 13}, {"\\101", 65}}; auto &x= e[g.below(6)]; q+= x.t; v.push_back(x.v); }
        else { q+= c; v.push_back((u8)c); }
      }
      s+= " \""+q+"\""; n-= l;
    } else { u32 x= (letters?(u32)"aAbB"[g.below(4)]:g.chance(50)?g.b():(u32)g.next()) & mk(w); if (x > 0x7fffffff) x&= 0x7fffffff; s+= " "+num(x); v.push_back(x); n--; }
  }
  return s;
}

static void setup(void) {
  static const char *cmds[]= {
    "memory create chip wchip 0x900 16", "memory create addressspace wsp 0 0x900 16", "memory create addressdecoder wsp 0 0x8ff wchip 0",
    "memory create chip tchip 0x300 24", "memory create addressspace tsp 0 0x300 24", "memory create addressdecoder tsp 0 0x2ff tchip 0",
    "memory create chip lchip 0x500 32", "memory create addressspace lsp 0x100 0x500 32", "memory create addressdecoder lsp 0x100 0x5ff lchip 0",
    "memory create chip uchip 0x400 8", "memory create addressspace usp 0x1ffe00 0x400 8", "memory create addressdecoder usp 0x1ffe00 0x2001ff uchip 0",
    "memory create chip ochip 0x80 8", "memory create addressspace osp 0xc0 0x80 8", "memory create addressdecoder osp 0xc0 0x13f ochip 0",
    "memory create chip nchip 0x400 12", "memory create addressspace nsp 0 0x400 12", "memory create addressdecoder nsp 0 0x3ff nchip 0" };
  for (auto c: cmds) { std::string o= vh_cmd(c); if (!vh_trim(o).empty()) vh_sample(std::string(c)+": "+o); }
  struct { const char *n, *tw; } want[]= {{"xram_chip", ""}, {"xram", "xram_chip"}, {"rom_chip", ""}, {"rom", "rom_chip"}, {"iram", ""}, {"wchip", ""}, {"wsp", "wchip"}, {"tchip", ""}, {"tsp", "tchip"}, {"lchip", ""}, {"lsp", "lchip"},
    {"uchip", ""}, {"usp", "uchip"}, {"ochip", ""}, {"osp", "ochip"}, {"nchip", ""}, {"nsp", "nchip"}, {"variables", ""}};
  for (auto &x: want) {
    cl_memory *m= U->memory(x.n); if (!m) { bad("setup", x.n); continue; }
    Tgt t; t.n= x.n; t.m= m; t.lo= m->lowest_valid_address(); t.hi= m->highest_valid_address(); t.w= m->width; t.space= m->is_address_space(); t.twin= x.tw; t.v.resize(t.hi-t.lo+1); tg.push_back(t);
  }
  resync();
}
static u32 addr_in(Tgt &t) { u32 n= t.hi-t.lo+1; switch (g.below(6)) { case 0: return t.lo; case 1: return t.hi; case 2: return t.hi-g.below(std::min(n, 12u)); case 3: return t.lo+g.below(std::min(n, 12u)); default: return t.lo+g.below(n); } }

// ---- names
struct Var { std::string mem; u32 a; int hi, lo; };
static std::map<std::string, Var> vars; static std::set<std::string> pre; // pre: not ours
static std::string names_[]= {"alpha", "b", "b1", "b10", "bb", "cnt", "_x", "zed", "Zed", "longer_name_0", "longer_name_1", "q", "alp", "alphabet", "m7"};
static std::vector<std::string> at_addr(const std::string &m, u32 a) { std::vector<std::string> r; for (auto &v: vars) if (v.second.mem == m && v.second.a == a) r.push_back(v.first); return r; }

// every name of the model, and no removed one, is known and designates its cell
static void check_vars(const char *op, const std::string &c) {
  size_t ours= 0;
  for (int i= 0; i < U->vars->by_name.count; i++) {
    cl_cvar *v= U->vars->by_name.at(i); std::string n= v->get_name();
    if (i && strcmp(U->vars->by_name.at(i-1)->get_name(), n.c_str()) >= 0) bad("var:order", c+": "+n);
    auto it= vars.find(n); if (it == vars.end()) { if (!pre.count(n)) bad(std::string(op)+":unknown-name", c+": "+n); continue; }
    ours++; Tgt &t= *find(it->second.mem); cl_var *w= (cl_var*)v; u32 lo= it->second.lo, hi= it->second.hi; if ((int)lo > (int)hi) std::swap(lo, hi);
    if (w->get_mem() != t.m || w->get_addr() != it->second.a || v->get_cell() != ((cl_address_space*)t.m)->get_cell(it->second.a) || v->bitnr_low != (int)lo || v->bitnr_high != (int)hi)
      bad(std::string(op)+":designates", vfmt("%s: %s is %s[%x][%d:%d], want %s[%x][%d:%d]", c.c_str(), n.c_str(), w->get_mem()?w->get_mem()->get_name():"?", (u32)w->get_addr(), v->bitnr_high, v->bitnr_low, t.n.c_str(), it->second.a, hi, lo));
  }
  if (ours != vars.size()) bad(std::string(op)+":lost-name", c);
  // search by address
  if (vars.size()) { auto it= vars.begin(); std::advance(it, g.below(vars.size())); Var &q= it->second; Tgt &t= *find(q.mem); t_index i; auto all= at_addr(q.mem, q.a);
    if (!U->vars->by_addr.search(t.m, q.a, i)) bad(std::string(op)+":not-found-by-address", c+": "+it->first);
    else { std::set<std::string> got; for (t_index k= i; k < U->vars->by_addr.count; k++) { cl_var *v= U->vars->by_addr.at(k); if (v->get_mem() != t.m || v->get_addr() != q.a) break; got.insert(v->get_name()); }
      for (auto &n: all) if (!got.count(n)) bad(std::string(op)+":by-address", c+": "+n+" is missing"); for (auto &n: got) if (!vars.count(n) && !pre.count(n)) bad(std::string(op)+":by-address-extra", c+": "+n); }
    if (i > 0) { cl_var *v= U->vars->by_addr.at(i-1); if (v->get_mem() == t.m && v->get_addr() == q.a) bad(std::string(op)+":by-address-first", c); } }
}
static std::string value_text(Tgt &t, const Var &v) {
  u32 m= cell(t, v.a); int hi= v.hi, lo= v.lo; if (lo > hi) std::swap(hi, lo); std::string s;
  if (hi >= 0) { if (hi != lo) { s+= vfmt("[%u:%u] = 0b", hi, lo); for (int i= hi; i >= lo; i--) s+= (m>>i)&1?'1':'0'; m&= (u32)(((1ull<<(hi-lo+1))-1)<<lo); } else { m&= 1u<<lo; s+= vfmt(".%u = %c", lo, m?'1':'0'); } }
  else s+= vfmt(" = 0x%0*x", (t.w+3)/4, m);
  s+= vfmt(",%uU,%d", m, (i32)m); if (m < 0x100 && isprint(m)) s+= vfmt(",'%c'", m);
  return s;
}
static std::string squash(const std::string &s) { std::string r; for (char c: s) if (c != ' ' || (r.size() && r.back() == '\'')) r+= c; return r; }
static void op_var(void) {
  int k= g.below(100); std::string c, o, n= names_[g.below(15)];
  if (k < 45) {
    Tgt *t; do t= &tg[g.below(tg.size())]; while (!t->space || t->n == "variables"); u32 a= g.chance(40)?t->lo+g.below(3):addr_in(*t); Var v= {t->n, a, -1, -1}; int f= g.below(8);
    if (f < 2) c= "var "+n+" "+t->n+" "+num(a);
    else if (f < 4) c= "var "+n+" "+t->n+"["+num(a)+"]";
    else if (f == 4) { v.hi= v.lo= g.below(t->w); c= "var "+n+" "+t->n+" "+num(a)+" "+num(v.lo); }
    else if (f == 5) { v.lo= g.below(t->w); v.hi= g.below(t->w); c= "var "+n+" "+t->n+" "+num(a)+" "+num(v.lo)+" "+num(v.hi); }
    else { // first unnamed one of the special space
      std::set<u32> used; for (int i= 0; i < U->vars->by_name.count; i++) { cl_var *x= (cl_var*)U->vars->by_name.at(i); if (x->is_mem_var() && x->get_mem() == U->variables) used.insert(x->get_addr()); }
      a= 0; while (used.count(a)) a++; v= {"variables", a, -1, -1}; c= "var "+n; }
    if (g.chance(4)) { std::string e= "var "+n+" "+t->n+" "+num(t->hi+1+g.below(10)); vh_case("%s", e.c_str()); vh_cmd(e); check_vars("var-outside", e); }
    vh_case("%s", c.c_str()); o= vh_cmd(c); vars[n]= v; if (!vh_trim(o).empty()) bad("var:message", c+": "+o); check_vars("var", c);
    vh_distinct("operation", hs(c));
  } else if (k < 60) { c= "rmvar "+n; vh_case("%s", c.c_str()); vh_cmd(c); vars.erase(n); check_vars("rmvar", c); }
  else if (vars.size()) {
    auto it= vars.begin(); std::advance(it, g.below(vars.size())); n= it->first; Var &v= it->second; Tgt &t= *find(v.mem);
    if (k < 70) { // listed with the value of its cell
      std::string q= n; bool fl= g.chance(30); c= std::string("info variables ")+(fl?"/u ":"")+q; vh_case("%s", c.c_str()); o= vh_cmd(c); std::set<std::string> seen;
      for (auto &l: vh_split(o)) { auto w= vh_split(l, " "); if (w.size() < 2 || l[0] == ' ') continue; auto i= vars.find(w[0]); if (i == vars.end()) { if (fl || !pre.count(w[0])) bad("info-var:extra", c+": "+l); continue; }
        seen.insert(w[0]); Tgt &x= *find(i->second.mem); std::string want= vfmt("%s %s[", w[0].c_str(), x.n.c_str())+vfmt(x.m->addr_format, i->second.a)+"]"+value_text(x, i->second);
        if (squash(l) != squash(want)) bad("info-var:text", c+": "+l+" want "+want); }
      for (auto &i: vars) if (i.first.find(q) != std::string::npos && !seen.count(i.first)) bad("info-var:missing", c+": "+i.first+" not in "+o);
      vh_stat("variables shown", seen.size());
    } else if (k < 85) { // used in expressions
      if (v.hi < 0) { u32 old= cell(t, v.a); c= "expr /d "+n; vh_case("%s", c.c_str()); o= vh_trim(vh_cmd(c)); if (strtoll(o.c_str(), 0, 10) != (i32)old && (u32)strtoll(o.c_str(), 0, 10) != old) bad("expr-var:value", c+": "+o+vfmt(" want %x", old));
        u32 x= g.next()&mk(t.w)&0x7fffffff; c= n+"="+num(x); vh_case("%s", c.c_str()); vh_cmd(c); cell(t, v.a)= x; std::string d; if (!same(d, &t)) { bad("expr-var:write", c+": "+d); resync(); } vh_stat("variables written", 1); }
    } else { // bits or the whole through set memory
      if (v.hi >= 0) { int lo= std::min(v.lo, v.hi), hi= std::max(v.lo, v.hi); u32 m= (u32)(((1ull<<(hi-lo+1))-1)<<lo), x= g.next()&(m>>lo)&0x7fffffff; c= "set memory "+n+" "+num(x); vh_case("%s", c.c_str()); vh_cmd(c); u32 &q= cell(t, v.a); q= (q&~m)|((x<<lo)&m); std::string d; if (!same(d, &t)) { bad("set-bits:var", c+": "+d); resync(); } }
    }
  }
}

static void op_mem(void) {
  int k= g.below(100); Tgt &t= tg[g.below(tg.size())]; u32 n= t.hi-t.lo+1; std::string c, o, d;
  if (k < 30) { // set memory
    std::vector<u32> v; int l= 1+g.below(g.chance(20)?60:8); u32 a= addr_in(t); if (g.chance(5)) a= t.hi+1+g.below(20);
    c= "set memory "+t.n+" "+num(a)+data(v, l, t.w, false); vh_case("%s", c.c_str()); o= vh_cmd(c);
    for (size_t i= 0; i < v.size(); i++) if (a+i >= t.lo && a+i <= t.hi) cell(t, a+i)= v[i]&mk(t.w);
    if (!same(d, &t)) { bad("set-memory", c+": "+d); resync(); }
  } else if (k < 40 && t.space) { // set bits of a cell
    u32 a= addr_in(t); int lo= g.below(t.w), hi= g.chance(50)?lo:g.below(t.w); bool one= lo == hi && g.chance(70); c= "set memory "+t.n+"["+num(a)+"]."+vfmt("%d", lo); if (!one) { c= "set memory "+t.n+"["+num(a)+"]"+(g.chance(50)?vfmt("[%d:%d]", hi, lo):vfmt("[%d:%d]", lo, hi)); }
    if (lo > hi) std::swap(lo, hi); u32 m= (u32)(((1ull<<(hi-lo+1))-1)<<lo), x= g.next()&(g.chance(80)?m>>lo:0x7fffffff)&0x7fffffff; c+= " "+num(x); vh_case("%s", c.c_str()); o= vh_cmd(c);
    u32 &q= cell(t, a); q= (q&~m)|((x<<lo)&m); if (!same(d, &t)) { bad("set-bits", c+": "+d); resync(); }
  } else if (k < 60) { // fill
    u32 a= addr_in(t), b= a+g.below(g.chance(30)?600:12); u32 x= g.next()&mk(t.w)&0x7fffffff; if (g.chance(10)) b= a-1; if (g.chance(20)) b= t.hi; if (g.chance(6)) b= t.hi+1+g.below(30); if (g.chance(1)) b= 0xffffffff;
    c= "fill "+t.n+" "+num(a)+" "+(b > 0x7fffffff?vfmt("0x%x", b):num(b))+" "+num(x); vh_case("%s", c.c_str()); o= vh_cmd(c);
    if (b >= a) for (u32 i= a; i <= b && i <= t.hi; i++) cell(t, i)= x&mk(t.w);
    if (!same(d, &t)) { bad("fill", c+": "+d); resync(); }
    vh_stat("cells filled", b >= a?std::min(b, t.hi)-a+1:0);
  } else if (k < 82) { // where
    if (n > 0x2000 && !g.chance(10)) return;
    std::vector<u32> v; bool cs= g.chance(50); int l= 1+g.below(4); if (g.chance(10)) l= 5+g.below(20);
    if (t.w >= 7 && g.chance(60)) { std::string s= data(v, l, t.w, true); int times= 1+g.below(5); for (int i= 0; i < times; i++) { u32 a= addr_in(t); for (size_t j= 0; j < v.size(); j++) if (a+j <= t.hi) { u32 x= v[j]; if (g.chance(30) && x < 128 && isalpha(x)) x^= 0x20; t.m->write(a+j, x); cell(t, a+j)= x&mk(t.w); } } if (t.lo && g.chance(50)) { u32 a= t.hi+1-v.size(); for (size_t j= 0; j < v.size(); j++) { t.m->write(a+j, v[j]); cell(t, a+j)= v[j]; } } c= s; }
    else { u32 a= addr_in(t); for (int j= 0; j < l && a+j <= t.hi; j++) { u32 x= cell(t, a+j); if (x > 0x7fffffff) { x&= 0x7fffffff; t.m->write(a+j, x); cell(t, a+j)= x; } v.push_back(x); c+= " "+num(x); } }
    c= std::string(cs?"Where ":"where ")+t.n+c; vh_case("%s", c.c_str()); o= vh_cmd(c);
    auto up= [&](u32 x) { return !cs && x < 128 && isalpha(x)?(u32)toupper(x):x; };
    std::vector<u32> want; for (u32 a= t.lo; a+v.size()-1 <= t.hi; a++) { bool m= true; for (size_t j= 0; j < v.size() && m; j++) m= up(cell(t, a+j)) == up(v[j]); if (m) want.push_back(a); }
    u32 bpl= t.w > 16?4:8, per= (v.size()+bpl-1)/bpl; std::vector<u32> lines, exp; for (auto &x: vh_split(o)) if (!strncmp(x.c_str(), "0x", 2)) lines.push_back(strtoul(x.c_str(), 0, 16));
    for (u32 a: want) for (u32 j= 0; j < per; j++) exp.push_back(a+j*bpl);
    if (lines != exp) { size_t i= 0; while (i < lines.size() && i < exp.size() && lines[i] == exp[i]) i++; bad(std::string(cs?"Where":"where")+(lines.size() < exp.size()?":missed":":wrong"), c+vfmt(": %zu lines, want %zu; first difference at line %zu: %x, want %x", lines.size(), exp.size(), i, i < lines.size()?lines[i]:0, i < exp.size()?exp[i]:0)); }
    if (!same(d, &t)) { bad("where-effect", c+": "+d); resync(); }
    vh_stat("places found", want.size());
  } else if (k < 92) { // hole: a found area is given by its first address and the distance of its last one
    if (n > 0x2000 && !g.chance(10)) return;
    u32 x= g.chance(50)?0:g.next()&mk(t.w)&0x7fffffff; int areas= g.below(4); for (int i= 0; i < areas; i++) { u32 a= addr_in(t), l= 1+g.below(140); for (u32 j= a; j < a+l && j <= t.hi; j++) { t.m->write(j, x); cell(t, j)= x; } }
    u32 len= g.chance(40)?100:g.below(150); int f= g.below(3); if (f == 0) { x= 0; len= 100; c= "hole "+t.n; } else if (f == 1) { x= 0; c= "hole "+t.n+" "+num(len); } else c= "hole "+t.n+" "+num(len)+" "+num(x);
    vh_case("%s", c.c_str()); o= vh_cmd(c); std::string want;
    for (u32 a= t.lo; a <= t.hi; ) { if (cell(t, a) != x) { a++; continue; } u32 e= a; while (e < t.hi && cell(t, e+1) == x) e++; if (e-a >= len) want+= vfmt(t.m->addr_format, a)+vfmt(" %u\n", e-a); a= e+1; }
    if (o != want) bad("hole", c+": ["+o+"] want ["+want+"]");
    if (!same(d, &t)) { bad("hole-effect", c+": "+d); resync(); }
  } else if (t.space && t.twin.size()) { // memory cell
    u32 a= addr_in(t); c= g.chance(50)?"memory cell "+t.n+" "+num(a):"memory cell "+t.n+"["+num(a)+"]"; vh_case("%s", c.c_str()); o= vh_cmd(c);
    if (o.find(t.n+"["+vfmt(t.m->addr_format, a)+"]") == std::string::npos) bad("memory-cell:address", c+": "+o);
    if (o.find(vfmt("decoded to %s[%u]", t.twin.c_str(), a-t.lo)) == std::string::npos) bad("memory-cell:chip", c+": "+o);
    if (o.find(vfmt("width=%d mask=%x", t.w, mk(t.w))) == std::string::npos) bad("memory-cell:width", c+": "+o);
  }
  if (k < 60) vh_distinct("operation", hs(c));
  vh_stat("memory commands", 1);
}

int vh_main(void) {
  g= Rng(vh_seed); setup();
  for (int i= 0; i < U->vars->by_name.count; i++) pre.insert(U->vars->by_name.at(i)->get_name());
  for (auto &n: names_) pre.erase(n);
  for (auto &t: tg) if (t.n != "rom" && t.n != "xram" && t.n != "variables") for (u32 a= t.lo; a <= t.hi; a++) t.m->write(a, g.next()&mk(t.w));
  resync();
  for (long k= 0; k < vh_cases; k++) if (g.chance(45)) op_var(); else op_mem();
  vh_stat("cases", vh_cases);
  return 0;
}
