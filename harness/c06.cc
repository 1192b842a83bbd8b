// Expression monitor: random expressions over numbers, memory cells, bit fields
// and variables go through the console's evaluator; a model evaluates the same
// syntax tree (64 bit, cells of their own width, left to right side effects).
// Value, printed forms, all touched cells and the other cells are compared.
#include "vh.h"
#include <cctype>

struct Spc { std::string n; cl_memory *m; u32 base, n_cells; int w; std::vector<u32> v; };
struct Var { std::string n; int sp; u32 a; };         // sp<0: cell of its own
static std::vector<Spc> sp; static std::vector<Var> vr; static Rng g(1);
static u32 mk(int w) { return w >= 32?0xffffffffu:(1u<<w)-1; }
static bool small;                                    // keep values away from 64 bit overflow (for the sanitizer build)

struct N { char k; std::string op; std::vector<N*> c; i64 num= 0; int i= 0; std::string txt; int prec= 0; };
static std::vector<N*> pool;
static N *mkn(char k, int prec) { N *n= new N; n->k= k; n->prec= prec; pool.push_back(n); return n; }
static N *num(i64 v) {
  N *n= mkn('n', 16); n->num= v; u64 u= v;
  switch (g.below(v >= 0 && v < 4096?6:3)) {
  case 0: n->txt= vfmt("%llu", (unsigned long long)u); break;
  case 1: n->txt= vfmt(g.chance(50)?"0x%llx":"0X%llX", (unsigned long long)u); break;
  case 2: n->txt= vfmt("$%llx", (unsigned long long)u); break;
  case 3: n->txt= vfmt("0%llo", (unsigned long long)u); break;
  case 4: { std::string s; u64 x= u; do { s.insert(s.begin(), '0'+(x&1)); x>>= 1; } while (x); n->txt= "0b"+s; break; }
  case 5: if (u >= 0x20 && u < 0x7f && isalnum((int)u)) n->txt= vfmt("'%c'", (int)u);
    else if (u == 10) n->txt= "'\\n'"; else if (u == 9) n->txt= "'\\t'"; else if (u && u < 0x80) n->txt= vfmt("'\\%03o'", (int)u);
    else n->txt= vfmt("%llu", (unsigned long long)u); break;
  }
  return n;
}
static i64 rnum() { switch (g.below(8)) { case 0: return g.below(3); case 1: case 2: return g.below(20); case 3: return g.b(); case 4: return g.w(); case 5: return (u32)g.next(); case 6: return 0x7fffffff+(i64)g.below(3); default: return small?(i64)g.below(1000):(i64)(g.next()>>(1+g.below(40))); } }
static N *gen(int d, bool se, int want= 0);
static N *operand_mem(int d, bool se) {               // a node denoting a cell
  if (g.chance(35) && !vr.empty()) { N *n= mkn('v', 16); n->i= g.below(vr.size()); n->txt= vr[n->i].n; return n; }
  N *n= mkn('m', 16); n->i= g.below(sp.size()); Spc &s= sp[n->i];
  u32 a= s.base+g.below(s.n_cells);
  if (d > 0 && g.chance(25)) { // address as an expression
    N *e= mkn('b', 11); u32 p= g.below(a+1); e->op= "+"; e->c= {num(p), num(a-p)}; n->c= {e};
  } else if (d > 1 && g.chance(25)) { // cell dependent address, kept in the range by an and mask
    N *am= mkn('b', 7); am->op= "&"; N *x= gen(d-2, false); am->c= {x, num(g.chance(50)?7:3)};
    N *e= mkn('b', 11); e->op= "+"; e->c= {num(s.base), am}; n->c= {e};
  } else n->c= {num(a)};
  return n;
}
static const char *ops12[]= {"*","/","%"}, *ops11[]= {"+","-"}, *ops10[]= {"<<",">>"}, *ops9[]= {"<",">","<=",">="}, *ops8[]= {"==","!="};
static N *gen(int d, bool se, int want) {
  (void)want;
  if (d <= 0) { int r= g.below(10); if (r < 5) return num(rnum()); return operand_mem(0, se); }
  int r= g.below(100); N *n;
  if (r < 12) { n= mkn('b', 12); n->op= ops12[g.below(3)]; }
  else if (r < 24) { n= mkn('b', 11); n->op= ops11[g.below(2)]; }
  else if (r < 32) { n= mkn('b', 10); n->op= ops10[g.below(2)]; }
  else if (r < 40) { n= mkn('b', 9); n->op= ops9[g.below(4)]; }
  else if (r < 45) { n= mkn('b', 8); n->op= ops8[g.below(2)]; }
  else if (r < 50) { n= mkn('b', 7); n->op= "&"; }
  else if (r < 54) { n= mkn('b', 6); n->op= "^"; }
  else if (r < 58) { n= mkn('b', 5); n->op= "|"; }
  else if (r < 61) { n= mkn('b', 4); n->op= "&&"; n->c= {gen(d-1, false), gen(d-1, false)}; return n; }
  else if (r < 64) { n= mkn('b', 3); n->op= "||"; n->c= {gen(d-1, false), gen(d-1, false)}; return n; }
  else if (r < 68) { n= mkn('?', 2); n->c= {gen(d-1, se), gen(d-1, false), gen(d-1, false)}; return n; }
  else if (r < 76) { n= mkn('u', 14); n->op= std::string(1, "-+~!"[g.below(4)]); n->c= {gen(d-1, se)}; return n; }
  else if (r < 79) { n= mkn('c', 13); n->c= {operand_mem(d-1, se)}; return n; }
  else if (r < 81) { n= mkn('&', 14); n->c= {operand_mem(d-1, se)}; while (n->c[0]->k == 'v' && vr[n->c[0]->i].sp < 0) n->c[0]= operand_mem(d-1, se); return n; }
  else if (r < 85) { n= mkn('.', -1); N *m= operand_mem(d-1, se); int w= m->k == 'v'?(vr[m->i].sp < 0?32:sp[vr[m->i].sp].w):sp[m->i].w; n->c= {m, g.chance(60)?num(g.below(w)):nullptr};
    if (!n->c[1]) { N *e= mkn('b', 7); e->op= "&"; e->c= {gen(d-2, false), num((w>=32?31:w>=16?15:w>=8?7:3))}; n->c[1]= e; } return n; }
  else if (r < 88) { n= mkn('[', 16); N *m= operand_mem(d-1, se); int w= m->k == 'v'?(vr[m->i].sp < 0?32:sp[vr[m->i].sp].w):sp[m->i].w; n->c= {m, num(g.below(w)), num(g.below(w))}; return n; }
  else if (!se) return operand_mem(d-1, false);
  else if (r < 91) { n= mkn('p', 15); n->op= g.chance(50)?"++":"--"; n->c= {operand_mem(d-1, false)}; return n; }
  else if (r < 94) { n= mkn('P', 14); n->op= g.chance(50)?"++":"--"; n->c= {operand_mem(d-1, false)}; return n; }
  else if (r < 98) { n= mkn('=', 1); static const char *o[]= {"=","=","=","*=","/=","%=","+=","-=","<<=",">>=","&=","^=","|="}; n->op= o[g.below(13)]; n->c= {operand_mem(d-1, false), gen(d-1, se)}; return n; }
  else if (r < 99) { n= mkn(g.chance(50)?'=':'=', 1); n->op= "="; N *b= mkn('[', 16); if (g.chance(50)) b->k= ';'; N *m= operand_mem(d-1, false); int w= m->k == 'v'?(vr[m->i].sp < 0?32:sp[vr[m->i].sp].w):sp[m->i].w; b->c= {m, num(g.below(w)), num(g.below(w))}; n->c= {b, gen(d-1, se)}; return n; }
  else { n= mkn(',', 0); n->op= ","; n->c= {gen(d-1, se), gen(d-1, se)}; return n; }
  n->c= {gen(d-1, se), gen(d-1, se)};
  return n;
}
// ---- text
static bool spaces; // white space allowed (whole line form)
static bool clash(char a, const std::string &r) { if (r.empty()) return false; char b= r[0]; return (strchr("+-&|<>=!", a) && (b == a || b == '=')) || b == '>' ; }
static std::string txt(N *n);
static std::string sub(N *n, int min) { std::string s= txt(n); if (n->prec < min || g.chance(12)) return "("+s+")"; return s; }
static std::string glue(std::string l, const std::string &op, std::string r) {
  bool sp1= spaces && g.chance(40) && op[0] != '>', sp2= spaces && g.chance(40);
  if (sp2 && r[0] == '>') sp2= false;
  if (!sp2 && clash(op[op.size()-1], r)) { if (spaces && g.chance(60) && r[0] != '>') sp2= true; else r= "("+r+")"; }
  return l+(sp1?" ":"")+op+(sp2?" ":"")+r;
}
static std::string txt(N *n) {
  switch (n->k) {
  case 'n': case 'v': return n->txt;
  case 'm': return sp[n->i].n+"["+(spaces && g.chance(10)?" ":"")+txt(n->c[0])+"]";
  case 'b': return glue(sub(n->c[0], n->prec), n->op, sub(n->c[1], n->prec+1));
  case '?': return glue(glue(sub(n->c[0], 3), "?", sub(n->c[1], 0)), ":", sub(n->c[2], 2));
  case 'u': { std::string s= sub(n->c[0], 14); if (clash(n->op[0], s)) s= "("+s+")"; return n->op+s; }
  case '&': { std::string s= txt(n->c[0]); return "&"+s; }
  case 'c': return "(int)"+txt(n->c[0]);
  case '.': { std::string s= txt(n->c[1]); if (n->c[1]->k != 'n') s= "("+s+")"; return txt(n->c[0])+"."+s; }
  case ';': return txt(n->c[0])+"."+txt(n->c[1]);
  case '[': return txt(n->c[0])+"["+txt(n->c[1])+":"+txt(n->c[2])+"]";
  case 'p': return txt(n->c[0])+n->op;
  case 'P': return n->op+txt(n->c[0]);
  case '=': return glue(txt(n->c[0]), n->op, sub(n->c[1], 1));
  case ',': { std::string l= sub(n->c[0], 0), r= sub(n->c[1], 1); return l+","+(r[0]=='>'||r[0]=='\''?"("+r+")":r); }
  }
  return "?";
}
// ---- value
struct Loc { int s; u32 a; u32 *cell; int w; };
static std::vector<u32> own;                          // cells of variables without a memory
static i64 val(N *n);
static bool diverr, oor;
static Loc loc(N *n) {
  Loc l;
  if (n->k == 'v') { Var &v= vr[n->i]; if (v.sp < 0) { l.s= -1; l.a= v.a; l.cell= &own[v.a]; l.w= 32; return l; } l.s= v.sp; l.a= v.a; }
  else { i64 a= val(n->c[0]); l.s= n->i; l.a= (u32)a; }
  Spc &s= sp[l.s]; l.w= s.w;
  if (l.a < s.base || l.a >= s.base+s.n_cells) { oor= true; static u32 d; l.cell= &d; return l; }
  l.cell= &s.v[l.a-s.base]; return l;
}
static i64 div_(i64 a, i64 b) { if (!b) { diverr= true; return 0; } if (b == -1) return (i64)(0-(u64)a); return a/b; }
static i64 mod_(i64 a, i64 b) { if (!b) { diverr= true; return 0; } if (b == -1) return 0; return a%b; }
static bool badshift;
static i64 shl_(i64 a, i64 n) { if (n < 0 || n >= 64) badshift= true; return n < 0 || n >= 64?0:(i64)((u64)a<<n); }
static i64 shr_(i64 a, i64 n) { if (n < 0) badshift= true; return n < 0?0:n >= 64?(a<0?-1:0):a>>n; }
static u64 bmask(int l, int h) { u64 m= 0; for (int i= l; i <= h; i++) m|= 1ull<<i; return m; }
static i64 val(N *n) {
  switch (n->k) {
  case 'n': return n->num;
  case 'v': case 'm': { Loc l= loc(n); return *l.cell; }
  case 'b': { i64 a= val(n->c[0]), b= val(n->c[1]); const std::string &o= n->op;
    if (o == "*") return (i64)((u64)a*(u64)b); if (o == "/") return div_(a,b); if (o == "%") return mod_(a,b);
    if (o == "+") return (i64)((u64)a+(u64)b); if (o == "-") return (i64)((u64)a-(u64)b);
    if (o == "<<") return shl_(a,b); if (o == ">>") return shr_(a,b);
    if (o == "<") return a<b; if (o == ">") return a>b; if (o == "<=") return a<=b; if (o == ">=") return a>=b;
    if (o == "==") return a==b; if (o == "!=") return a!=b; if (o == "&") return a&b; if (o == "^") return a^b; if (o == "|") return a|b;
    if (o == "&&") return a&&b; if (o == "||") return a||b; break; }
  case '?': { i64 a= val(n->c[0]), b= val(n->c[1]), c= val(n->c[2]); return a?b:c; }
  case 'u': { i64 a= val(n->c[0]); switch (n->op[0]) { case '-': return (i64)(0-(u64)a); case '+': return a; case '~': return ~a; default: return !a; } }
  case '&': { Loc l= loc(n->c[0]); return l.a; }
  case 'c': { Loc l= loc(n->c[0]); i64 v= *l.cell; i64 s= 1ll<<(l.w-1); return (v&s)?v|~(s-1):v; }
  case '.': { Loc l= loc(n->c[0]); i64 b= val(n->c[1]); return (*l.cell>>b)&1; }
  case '[': { Loc l= loc(n->c[0]); int a= n->c[1]->num, b= n->c[2]->num; if (a>b) std::swap(a,b); return (i64)((*l.cell & bmask(a,b))>>a); }
  case 'p': { Loc l= loc(n->c[0]); i64 v= *l.cell; *l.cell= (u32)(n->op=="++"?v+1:v-1)&mk(l.w); return v; }
  case 'P': { Loc l= loc(n->c[0]); i64 v= *l.cell; *l.cell= (u32)(n->op=="++"?v+1:v-1)&mk(l.w); return *l.cell; }
  case ',': val(n->c[0]); return val(n->c[1]);
  case '=': { N *t= n->c[0];
    if (t->k == '[' || t->k == ';') { Loc l= loc(t->c[0]); int a= t->c[1]->num, b= t->k == ';'?a:t->c[2]->num; if (a>b) std::swap(a,b); i64 v= val(n->c[1]); u64 m= bmask(a,b);
      *l.cell= (u32)((*l.cell & ~m) | (((u64)v<<a)&m)) & mk(l.w); return (i64)((*l.cell&m)>>a); }
    Loc l= loc(t); i64 v= val(n->c[1]); i64 o= *l.cell; const std::string &p= n->op; i64 r= v;
    if (p == "*=") r= (i64)((u64)o*(u64)v); else if (p == "/=") r= div_(o,v); else if (p == "%=") r= mod_(o,v); else if (p == "+=") r= (i64)((u64)o+(u64)v);
    else if (p == "-=") r= (i64)((u64)o-(u64)v); else if (p == "<<=") r= shl_(o,v); else if (p == ">>=") r= shr_(o,v);
    else if (p == "&=") r= o&v; else if (p == "^=") r= o^v; else if (p == "|=") r= o|v;
    *l.cell= (u32)r & mk(l.w); return *l.cell; }
  }
  return 0;
}
static std::string bin32(u32 v) { std::string s; for (int i= 31; i >= 0; i--) s+= (v>>i)&1?'1':'0'; return s; }
static std::string show(char f, u32 v) {
  switch (f) {
  case 'x': return vfmt("%x", v); case 'X': return vfmt("0x%x", v); case '$': return vfmt("$%x", v); case '0': return vfmt("0x%08x", v);
  case 'd': return vfmt("%d", (int)v); case 'o': return vfmt("%o", v); case 'u': return vfmt("%u", v); case 'b': return bin32(v);
  case 'B': return v?"1":"0"; case 'L': return v?"T":"F";
  case 'c': if (v < 0x100 && isprint((int)v)) return vfmt("'%c'", v); { const char *e= 0; switch (v) { case 7: e="a"; break; case 27: e="e"; break; case 8: e="b"; break; case 12: e="f"; break; case 10: e="n"; break; case 13: e="r"; break; case 9: e="t"; break; case 11: e="v"; break; } return e?vfmt("'\\%s'", e):vfmt("'\\%03o'", v); }
  }
  return "?";
}
static void resync() { for (auto &s: sp) for (u32 i= 0; i < s.n_cells; i++) s.v[i]= s.m->get(s.base+i); for (auto &v: vr) if (v.sp < 0) { class cl_memory_cell *c= vh_var(v.n.c_str()); own[v.a]= c->get(); } }
static void randomize() {
  for (auto &s: sp) for (u32 i= 0; i < s.n_cells; i++) { u32 v= g.chance(50)?g.b():(u32)g.next(); if (g.chance(20)) v= mk(s.w)>>g.below(2); if (g.chance(20)) v= g.below(3); s.m->set(s.base+i, v&mk(s.w)); }
  for (auto &v: vr) if (v.sp < 0) vh_var(v.n.c_str())->set(g.chance(50)?g.w():(u32)g.next());
  resync();
}
static bool same(std::string &d) {
  for (auto &s: sp) for (u32 i= 0; i < s.n_cells; i++) if (s.m->get(s.base+i) != s.v[i]) { d= vfmt("%s[0x%x]=%x want %x", s.n.c_str(), s.base+i, s.m->get(s.base+i), s.v[i]); return false; }
  for (auto &v: vr) if (v.sp < 0 && vh_var(v.n.c_str())->get() != own[v.a]) { d= vfmt("%s=%x want %x", v.n.c_str(), vh_var(v.n.c_str())->get(), own[v.a]); return false; }
  return true;
}
static void kinds(N *n, std::string &s) { s+= n->k; s+= n->op; for (auto c: n->c) if (c) kinds(c, s); }
static u64 hs(const std::string &s) { u64 h= 1469598103934665603ull; for (char c: s) h= (h^(u8)c)*1099511628211ull; return h; }

int vh_main() {
  g= Rng(vh_seed); small= vh_envl("C06_SMALL", 0);
  static const char *want[]= {"rom","xram","iram","ram","nas","sram","iram_chip","xram_chip","rom_chip"};
  for (auto w: want) { cl_memory *m= U->memory(w); if (!m) continue; Spc s; s.n= w; s.m= m; s.w= m->width; s.base= !strcmp(w,"iram")||!strcmp(w,"iram_chip")?0x30:0x40; if (std::string(w)=="iram_chip") s.base= 0x50; else if (strstr(w,"_chip")) s.base= 0x80; s.n_cells= 24; s.v.resize(24); sp.push_back(s); }
  vh_cmd("memory create chip wide_c 64 13"); vh_cmd("memory create addressspace wide 0x100 64 13"); vh_cmd("memory create addressdecoder wide 0x100 0x13f wide_c 0");
  vh_cmd("memory create chip word_c 64 16"); vh_cmd("memory create addressspace word 0 64 16"); vh_cmd("memory create addressdecoder word 0 63 word_c 0");
  vh_cmd("memory create chip long_c 64 32"); vh_cmd("memory create addressspace long_ 0 64 32"); vh_cmd("memory create addressdecoder long_ 0 63 long_c 0");
  static const char *mine[]= {"wide","word","long_"};
  for (auto w: mine) { cl_memory *m= U->memory(w); if (!m) { vh_fail("setup", w); return 1; } Spc s; s.n= w; s.m= m; s.w= m->width; s.base= !strcmp(w,"wide")?0x110:8; s.n_cells= 24; s.v.resize(24); sp.push_back(s); }
  for (int i= 0; i < 3; i++) { Var v; v.n= vfmt("vq%d_", i); v.sp= -1; v.a= own.size(); own.push_back(0); vh_cmd("var "+v.n); if (!vh_var(v.n.c_str())) { vh_fail("setup", v.n); return 1; } vr.push_back(v); }
  for (int i= 0; i < 5; i++) { Var v; v.n= vfmt("mq%d", i); v.sp= i%sp.size(); while (!sp[v.sp].m->is_address_space()) v.sp= (v.sp+1)%sp.size(); v.a= sp[v.sp].base+g.below(sp[v.sp].n_cells); vh_cmd(vfmt("var %s %s[0x%x]", v.n.c_str(), sp[v.sp].n.c_str(), v.a)); vr.push_back(v); }
  for (int i= 0; i < 3; i++) { Var v; v.n= vfmt("wq%d", i); v.sp= sp.size()-1-i; v.a= sp[v.sp].base+i; vh_cmd(vfmt("var %s %s[0x%x]", v.n.c_str(), sp[v.sp].n.c_str(), v.a)); vr.push_back(v); }
  long bad= 0, evals= 0, errs= 0;
  for (long k= 0; k < vh_cases && bad < 30; k++) {
    if (k%8 == 0) randomize();
    for (auto p: pool) delete p; pool.clear();
    bool se= g.chance(45);
    N *e= gen(1+g.below(5), se);
    spaces= g.chance(50);
    std::string t= txt(e); if (e->k == ',' && !spaces) {}
    std::vector<std::vector<u32>> keep; for (auto &s: sp) keep.push_back(s.v); std::vector<u32> keepo= own;
    diverr= oor= badshift= false; u32 x= (u32)val(e);
    if (oor || badshift) { for (size_t i= 0; i < sp.size(); i++) sp[i].v= keep[i]; own= keepo; continue; }
    std::string kk; kinds(e, kk);
    bool broken= g.chance(8) && !diverr;
    if (broken) { // an invalid text: answered with an error, changes nothing when it stops at the end, next one is right
      for (size_t i= 0; i < sp.size(); i++) sp[i].v= keep[i]; own= keepo;
      if (se) continue;
      std::string b= t; static const char *tails[]= {"+","*(","==","&&",")","[","[3","?1","?1:","<<","=","]","@","xx_unknown"};
      if (g.chance(70)) b+= tails[g.below(14)]; else if (g.chance(50)) b= "("+b; else b= "*"+b;
      vh_case("%s", b.c_str()); u32 r= 0; std::string o;
      if (g.chance(50)) { r= application->eval(chars(b.c_str())); (void)r; }
      else { o= vh_cmd(spaces?b:"expression "+b); if (o.find("Parser error") == std::string::npos) { bad++; vh_fail("expr:no-error", b+" answered ["+o+"]"); } }
      errs++; std::string d; if (!same(d)) { bad++; vh_fail("expr:error-effect", b+" "+d); resync(); }
      continue;
    }
    vh_case("%s", t.c_str());
    int form= g.below(3); std::string o, f; 
    if (form == 0) { u32 r= application->eval(chars(t.c_str())); evals++; if (r != x) { bad++; vh_fail("expr:value", vfmt("%s = %x want %x", t.c_str(), r, x)); } }
    else if (form == 1 && !spaces) {
      static const char fs[]= "xX$0doubBLc"; int nf= g.below(4); for (int i= 0; i < nf; i++) f+= fs[g.below(11)];
      o= vh_cmd("expression "+(f.empty()?std::string():"/"+f+" ")+t); evals++;
      std::string w; if (f.empty()) w= vfmt("%d\n", (int)x); else for (char c: f) w+= show(c, x)+"\n";
      if (diverr) { if (o.find("Divide by zero") == std::string::npos) { bad++; vh_fail("expr:no-zero-error", t+" answered "+o); } }
      else if (o.size() < w.size() || o.substr(o.size()-w.size()) != w || (o != w && o.find("Incomplete bit address") == std::string::npos)) { bad++; vh_fail("expr:print", vfmt("/%s %s printed [%s] want [%s]", f.c_str(), t.c_str(), o.c_str(), w.c_str())); }
    } else {
      o= vh_cmd(t); evals++; std::vector<std::string> l= vh_split(o); while (!l.empty() && l.back().empty()) l.pop_back();
      if (l.empty() || l.back() != vfmt("%d", (int)x)) { bad++; vh_fail("expr:line", vfmt("%s answered [%s] want %d", t.c_str(), o.c_str(), (int)x)); }
    }
    std::string d; if (!same(d)) { bad++; vh_fail("expr:effect", t+" "+d); resync(); }
    vh_distinct("expression shape", hs(kk)); vh_distinct("value", hs(vfmt("%x", x)));
    if (k%5000 == 0) vh_sample(vfmt("%s = 0x%x", t.c_str(), x));
  }
  vh_stat("expressions compared", evals); vh_stat("invalid expressions rejected", errs); vh_stat("cases", evals+errs);
  return bad?1:0;
}
