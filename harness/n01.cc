// Monitor of the predefined names: every name of the table of its processor type must denote the
// memory, the address and the bits the table (conf/names.txt, checked against the data sheets) says,
// give that value in expressions, store there when assigned, and touch nothing else.
#include "vh.h"
#include <fstream>
#include <sstream>
struct Row { std::string mem; u32 addr; int hi, lo; u64 an= ~0ull, orr= 0; };
static Rng g(1);
static std::map<std::string,Row> rows; static std::vector<std::string> names;
static std::map<std::string,std::map<std::string,int>> alias;   // X -> Y -> off: bit i of X is bit i-off of Y
static cl_cvar *find(const std::string &n) { t_index i; return U->vars->by_name.search(n.c_str(), i)?U->vars->by_name.at(i):0; }
static int width(cl_cvar *v) { if (v->bitnr_high >= 0) return v->bitnr_high-(v->bitnr_low < 0?0:v->bitnr_low)+1; int w= v->get_cell()->get_width(); return w > 32?32:w; }
static u64 mask(int w) { return w >= 64?~0ull:(1ull<<w)-1; }
static u64 raw(cl_cvar *v) { int lo= v->bitnr_low < 0?0:v->bitnr_low; return (((u64)v->get_cell()->get())>>lo)&mask(width(v)); }
static bool is_reg(cl_cvar *v) {                           // names of registers without device behind them
  const char *m= v->get_mem()?v->get_mem()->get_name():""; std::string n= v->get_name();
  if (v->get_cell()->get_flag(CELL_READ_ONLY) || n == "PC" || n == "fpp" || n == "nuof_fpp" || (n == "PSW" && strstr(vh_env("VH_TYPE", ""), "TLCS870C1"))) return false; // selectors of banks
  return v->get_mem()?(!strncmp(m, "regs", 4) || !strcmp(m, "dptr")):true;
}
static bool plain(const std::string &n, cl_cvar *v) { (void)n; return v->get_mem() && !strstr(v->get_mem()->get_name(), "_cfg"); }
static u64 val(const std::string &n, bool *ok) {
  std::string o= vh_cmd("expression /u "+n); while (o.size() && (o.back() == '\n' || o.back() == ' ')) o.pop_back();
  char *e; u64 r= strtoull(o.c_str(), &e, 10); *ok= o.size() && !*e; return r;
}
static void bad(const char *k, const std::string &n, const std::string &d) { vh_fail(vfmt("names:%s:%s:%s", vh_env("VH_TYPE", "?"), k, n.c_str()), d); }
static std::string ex(const std::string &n) {              // names that the expression language can spell
  for (char c: n) if (!isalnum((unsigned char)c) && c != '_') return ""; return isdigit((unsigned char)n[0])?"":n;
}
static bool narrow(cl_cvar *v) { return v->bitnr_high >= 0 && width(v) < (int)v->get_cell()->get_width(); }
static void learn(void) {
  std::vector<cl_cvar*> all; for (int i= 0; i < U->vars->by_name.count; i++) if (U->vars->by_name.at(i)->get_cell()) all.push_back(U->vars->by_name.at(i)); else fprintf(stderr, "nocell %s\n", U->vars->by_name.at(i)->get_name());
  std::vector<cl_cvar*> regs; for (auto v: all) if (is_reg(v)) regs.push_back(v);
  FILE *f= fopen(vh_env("VH_LEARN", "names.out"), "a");
  for (auto v: all) {
    fprintf(f, "%s %s %s %x %d %d", vh_env("VH_TYPE", "?"), v->get_name(), v->get_mem()?v->get_mem()->get_name():"-", v->get_mem()?(unsigned)v->get_addr():0, v->bitnr_high, v->bitnr_low);
    if (std::find(regs.begin(), regs.end(), v) != regs.end()) {
      std::map<std::string,int> al;
      for (int b= 0; b < width(v); b++) {
        std::vector<u64> w0; for (auto r: regs) w0.push_back(raw(r));
        u64 old= v->get_cell()->get(); int lo= v->bitnr_low < 0?0:v->bitnr_low; v->get_cell()->set(old^(1ull<<(b+lo)));
        for (size_t i= 0; i < regs.size(); i++) { u64 d= raw(regs[i])^w0[i]; if (!d || regs[i] == v) continue; int j= 0; while (!((d>>j)&1)) j++; if (d != 1ull<<j) fprintf(f, " !%s", regs[i]->get_name()); al[regs[i]->get_name()]= b-j; }
        v->get_cell()->set(old);
      }
      for (auto &a: al) fprintf(f, " %s:%d", a.first.c_str(), a.second);
      std::string e= ex(v->get_name()), n2= v->get_name();
      if (e.size() && !narrow(v)) {
        u64 m= mask(width(v) > 31?31:width(v)), old= raw(v); bool ok;
        vh_cmd(vfmt("expression %s=0x%llx", e.c_str(), (unsigned long long)m)); u64 r1= val(e, &ok); vh_cmd("expression "+e+"=0"); u64 r0= val(e, &ok); vh_cmd(vfmt("expression %s=0x%llx", e.c_str(), (unsigned long long)old));
        if (!strcmp(vh_env("VH_TYPE", ""), "m68hc12-HC12") && n2 == "CC") r1&= 0xbf; // X can be cleared only
        if (r1 != m || r0) fprintf(f, " & %llx | %llx", (unsigned long long)r1, (unsigned long long)r0);
      }
    }
    fprintf(f, "\n");
  }
  fclose(f);
}
int vh_main(void) {
  g= Rng(vh_seed); std::string ty= vh_env("VH_TYPE", "?");
  if (*vh_env("VH_LEARN", "")) { learn(); return 0; }
  std::ifstream f(vh_env("VH_NAMES", "names.txt")); std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string t, n; Row r; std::string a; if (!(s >> t >> n >> r.mem >> std::hex >> r.addr >> std::dec >> r.hi >> r.lo) || t != ty) continue;
    rows[n]= r; names.push_back(n);
    while (s >> a) { if (a == "&") { s >> std::hex >> r.an >> a >> r.orr; rows[n]= r; continue; } size_t c= a.rfind(':'); alias[n][a.substr(0, c)]= atoi(a.c_str()+c+1); }
  }
  if (names.empty()) { vh_fail("setup", "no names for "+ty); return 0; }
  std::vector<std::string> regs;
  for (auto &n: names) {
    vh_case("name %s", n.c_str()); vh_stat("cases", 1); vh_distinct("state", g.s^0x1234*(&n-&names[0]));
    cl_cvar *v= find(n); Row &r= rows[n];
    if (!v) { bad("missing", n, "the name is not defined"); continue; }
    std::string m= v->get_mem()?v->get_mem()->get_name():"-"; u32 a= v->get_mem()?(u32)v->get_addr():0;
    if (m != r.mem || a != r.addr) bad("place", n, vfmt("%s denotes %s[0x%x], should be %s[0x%x]", n.c_str(), m.c_str(), a, r.mem.c_str(), r.addr));
    int w= v->get_cell()->get_width(), hi= v->bitnr_high < 0?w-1:v->bitnr_high, lo= v->bitnr_low < 0?0:v->bitnr_low, rhi= r.hi < 0?w-1:r.hi, rlo= r.lo < 0?0:r.lo;
    if (hi != rhi || lo != rlo) bad("bits", n, vfmt("%s denotes bits %d:%d, should be %d:%d", n.c_str(), hi, lo, rhi, rlo));
    if (v->get_mem() && v->get_mem()->is_address_space() && v->get_cell() != ((cl_address_space*)v->get_mem())->get_cell(a)) bad("cell", n, "the cell is not the one of the address");
    if (is_reg(v) && ex(n).size()) regs.push_back(n);
    std::string o= vh_cmd("info variables "+n);            // what the user is told
    if (v->get_mem() && o.find(vfmt("%s %s[", n.c_str(), m.c_str())) == std::string::npos) bad("info", n, o.substr(0, 200));
  }
  for (long k= 0; k < vh_cases; k++) {
    std::string n; cl_cvar *v; bool ok;
    if (regs.size() && g.chance(60)) {                     // registers: assign, and see which others follow
      n= regs[g.below(regs.size())]; v= find(n); if (!v) continue;
      vh_case("set %s", n.c_str());
      if (narrow(v)) continue;
      if (g.chance(30)) for (auto &x: regs) if (!narrow(find(x))) vh_cmd(vfmt("expression %s=0x%llx", x.c_str(), (unsigned long long)((g.next()&mask(std::min(31, width(find(x))))&rows[x].an)|rows[x].orr)));
      std::map<std::string,u64> want; for (auto &x: regs) want[x]= raw(find(x));
      int w= width(v); u64 x= g.chance(30)?g.w():g.next(); x&= mask(w > 31?31:w); x= (x&rows[n].an)|rows[n].orr; u64 old= want[n];
      vh_cmd(vfmt("expression %s=0x%llx", n.c_str(), (unsigned long long)x));
      want[n]= x;
      for (auto &al: alias[n]) { if (!want.count(al.first)) continue; cl_cvar *y= find(al.first); int wy= width(y); u64 &q= want[al.first];
        for (int b= 0; b < w; b++) { int j= b-al.second; if (j < 0 || j >= wy) continue; q= (q&~(1ull<<j))|(((x>>b)&1)<<j); } }
      vh_stat("cases", 1); vh_stat("assignments", 1); vh_distinct("state", (u64)(k&0)^std::hash<std::string>()(n)^x<<20);
      for (auto &z: want) { u64 h= raw(find(z.first)); if (h != z.second) { bad(z.first == n?"assign":"side", n, vfmt("after %s=0x%llx (was 0x%llx) %s is 0x%llx, want 0x%llx", n.c_str(), (unsigned long long)x, (unsigned long long)old, z.first.c_str(), (unsigned long long)h, (unsigned long long)z.second)); break; } }
      u64 e= val(n, &ok); if (!ok || e != x) bad("value", n, vfmt("expression gives %llu, want %llu", (unsigned long long)e, (unsigned long long)x));
      continue;
    }
    n= names[g.below(names.size())]; v= find(n); if (!v || !plain(n, v) || ex(n).empty()) continue;
    vh_case("value %s", n.c_str());
    u64 x= g.next()&mask(v->get_cell()->get_width() > 32?32:v->get_cell()->get_width());
    if (!v->get_cell()->get_flag(CELL_READ_ONLY)) v->get_cell()->set(x);
    int lo= v->bitnr_low < 0?0:v->bitnr_low;
    u64 a= v->get_cell()->read(); u64 e= val(n, &ok); u64 b= v->get_cell()->read();
    vh_stat("cases", 1); vh_distinct("state", std::hash<std::string>()(n)^x<<20);
    if (a != b) { vh_stat("volatile", 1); continue; }
    if (narrow(v) && ok && e == (a&0xffffffffu)) ; // a name of bits stands for the whole cell in expressions
    else if (!ok || e != ((a>>lo)&mask(width(v)))) bad("value", n, vfmt("expression gives %llu, the cell is 0x%llx", (unsigned long long)e, (unsigned long long)a));
    vh_stat("values", 1);
  }
  return 0;
}
