// File loader and memory dump monitor.
// load: random images are encoded (Intel HEX, S records, OMF-51, ASC, P2H) in many
//       equivalent ways, loaded by file/load/dl, and every cell of every memory is
//       compared with a model; `check` must report exactly the differing words.
// dump: dump /x /b /i /s of random ranges against the cells; /i is loaded back.
// fuzz: damaged files (sanitizer build): nothing but the target may change.
#include "vh.h"
#include <unistd.h>
#include <sys/stat.h>
#include <cctype>
#include "fiocl.h"

struct Tgt { std::string n; cl_memory *m; u32 lo, hi; int w; std::vector<u32> v; int bank_of; };
// bank_of>=0: address space whose cells are banks of another target (chip)
static std::vector<Tgt> tg; static Rng g(1); static std::string dir;
static u32 mk(int w) { return w >= 32?0xffffffffu:(1u<<w)-1; }
static int bpw(int w) { return w <= 8?1:w <= 16?2:w <= 24?3:4; }
static Tgt *find(const char *n) { for (auto &t: tg) if (t.n == n) return &t; return 0; }
static u32 cur_bank;                                     // of the banked space
static std::vector<std::pair<int,int>> alias;            // (space, chip) that show the same cells

static bool store(Tgt &t, u32 a, u32 v) {                // model of storing one word, false if nowhere
  if (t.n == "bsp") { Tgt *c= find("bchip"); u32 b= a < 0x100?cur_bank:a/0x100; if (b >= 4 || b == 2) return false; c->v[b*0x100+(a&0xff)]= v&mk(8); return true; }
  if (a < t.lo || a > t.hi) return false;
  t.v[a-t.lo]= v&mk(t.w); return true;
}
static bool fetch(Tgt &t, u32 a, u32 &v) {
  if (t.n == "bsp") { Tgt *c= find("bchip"); u32 b= a < 0x100?cur_bank:a/0x100; if (b >= 4 || b == 2) return false; v= c->v[b*0x100+(a&0xff)]; return true; }
  if (a < t.lo || a > t.hi) return false;
  v= t.v[a-t.lo]; return true;
}
// the model keeps one copy of the cells that are visible twice: chips are the owners
static std::map<std::string,std::string> owner;
static Tgt &own(Tgt &t) { auto i= owner.find(t.n); return i == owner.end()?t:*find(i->second.c_str()); }
static void mstore(Tgt &t, u32 a, u32 v, long &stored) {
  Tgt &o= own(t); bool r;
  if (&o == &t) r= store(t, a, v); else { r= a >= t.lo && a <= t.hi; if (r) o.v[a-t.lo+o.lo]= v&mk(o.w); }
  stored+= r;
}
static bool mfetch(Tgt &t, u32 a, u32 &v) {
  Tgt &o= own(t); if (&o == &t) return fetch(t, a, v);
  if (a < t.lo || a > t.hi) return false; v= o.v[a-t.lo+o.lo]; return true;
}
static u32 real(Tgt &t, u32 a) { return t.m->get(a); }
static bool same(std::string &d, Tgt *focus= 0) {
  for (auto &t: tg) {
    if (focus && focus != &t && !(owner.count(focus->n) && owner[focus->n] == t.n) && t.v.size() > 0x1000 && !g.chance(8)) continue; // large bystanders are looked at now and then
    Tgt &o= own(t);
    for (u32 a= t.lo; a <= t.hi; a++) {
      u32 w;
      if (t.n == "bsp") w= find("bchip")->v[cur_bank*0x100+a]; else w= o.v[a-t.lo+o.lo];
      u32 r= real(t, a);
      if (r != w) { d= vfmt("%s[%x]=%x want %x", t.n.c_str(), a, r, w); return false; }
    }
  }
  return true;
}
static void resync(void) { for (auto &t: tg) if (!owner.count(t.n) && t.n != "bsp") for (u32 a= t.lo; a <= t.hi; a++) t.v[a-t.lo]= real(t, a); }
static std::string bname(std::string f) { size_t i= f.rfind('/'); return i == std::string::npos?f:f.substr(i+1); }

struct W { u32 a, v; };                                   // words of the file, in file order (word address)
static std::string eol(void) { static int k= 0; if (g.chance(5)) k= g.below(3); return k == 0?"\n":k == 1?"\r\n":"\n\n"; }
static std::string hx(const std::vector<u8> &b, bool lower) { std::string s; for (u8 c: b) s+= vfmt(lower?"%02x":"%02X", c); return s; }
static std::string hexrec(int type, u32 a, const std::vector<u8> &d, bool bad= false) {
  std::vector<u8> b= {(u8)d.size(), (u8)(a>>8), (u8)a, (u8)type}; b.insert(b.end(), d.begin(), d.end());
  u8 s= 0; for (u8 c: b) s+= c; s= -s; if (bad) s+= 1+g.below(255); b.push_back(s);
  return ":"+hx(b, g.chance(25));
}
static std::string srec(char ty, int al, u32 a, const std::vector<u8> &d, bool bad= false) {
  std::vector<u8> b= {(u8)(al+d.size()+1)}; for (int i= al-1; i >= 0; i--) b.push_back(a>>(8*i));
  b.insert(b.end(), d.begin(), d.end()); u8 s= 0; for (u8 c: b) s+= c; s= ~s; if (bad) s+= 1+g.below(255); b.push_back(s);
  return std::string("S")+ty+hx(b, g.chance(25));
}
static std::vector<u8> bytes(const std::vector<W> &run, int n) { std::vector<u8> r; for (auto &x: run) for (int i= 0; i < n; i++) r.push_back(x.v>>(8*i)); return r; }
static u64 nrec, nbad;

// A sequence of runs of consecutive words; encodes them and returns the words in file order.
static std::string encode(const std::string &fmt, std::vector<std::vector<W>> &runs, int w, std::vector<W> &order) {
  int n= bpw(w); std::string o; order.clear();
  std::string e= eol();
  if (fmt == "hex") {
    u32 base= 0; bool first= true;
    if (g.chance(20)) o+= "; comment line without records"+e;
    for (auto &run: runs) {
      size_t i= 0;
      while (i < run.size()) {
        size_t l= 1+g.below(g.chance(20)?255/n:20); l= std::min(l, run.size()-i); l= std::min(l, (size_t)255/n);
        u32 ba= run[i].a*n; std::vector<W> part(run.begin()+i, run.begin()+i+l);
        // the record's own address must be below 64k relative to the base
        bool need= ba < base || ba-base > 0xffff || (ba-base)+l*n > 0x10000;
        if (need && ba >= base && ba-base <= 0xffff && ((0x10000-(ba-base))/n) >= 1) { l= (0x10000-(ba-base))/n; part.resize(l); need= false; }
        if (need || g.chance(7)) {
          if (ba < 0xfff00 && g.chance(30)) { base= g.chance(50)?(ba&~0xffu):(ba&~0xfu); o+= hexrec(2, g.chance(20)?g.w():0, {(u8)(base>>12), (u8)(base>>4)})+e; }
          else { base= ba&0xffff0000; o+= hexrec(4, g.chance(20)?g.w():0, {(u8)(base>>24), (u8)(base>>16)})+e; }
          nrec++;
          if ((ba-base)+l*n > 0x10000) { l= (0x10000-(ba-base))/n; if (l < 1) l= 1; part.resize(l); }
        }
        if (g.chance(6)) { // a damaged copy of a data record is no data
          std::vector<u8> junk(1+g.below(8)); for (auto &c: junk) c= g.b(); o+= hexrec(g.chance(80)?0:g.chance(50)?1:4, g.w(), junk, true)+e; nbad++;
        }
        if (g.chance(3)) o+= hexrec(3, 0, {0,0,0x12,0x34})+e;
        if (g.chance(3)) o+= hexrec(5, 0, {0,0,0x12,0x34})+e;
        if (g.chance(3)) o+= hexrec(0, g.w(), {})+e;
        if (g.chance(5)) o+= "  ";
        // words may be cut between records in the middle
        std::vector<u8> d= bytes(part, n);
        if (n > 1 && l > 1 && g.chance(15)) { size_t c= 1+g.below(d.size()-1); o+= hexrec(0, ba-base, std::vector<u8>(d.begin(), d.begin()+c))+e; o+= hexrec(0, ba-base+c, std::vector<u8>(d.begin()+c, d.end())); nrec+= 2; }
        else { o+= hexrec(0, ba-base, d); nrec++; }
        if (g.chance(3)) o+= "  trailing text";
        o+= e; i+= l; first= false;
        for (auto &x: part) order.push_back(x);
      }
    }
    (void)first;
    if (g.chance(85)) { o+= hexrec(1, g.chance(50)?0:g.w(), {}); if (g.chance(70)) o+= e; if (g.chance(20)) o+= e+hexrec(0, g.w(), {1,2,3,4,5,6,7,8})+e; }
  } else if (fmt == "s19") {
    if (g.chance(60)) o+= srec('0', 2, 0, {'h','d','r'})+e;
    for (auto &run: runs) {
      size_t i= 0;
      while (i < run.size()) {
        size_t l= 1+g.below(g.chance(20)?248/n:16); l= std::min(l, run.size()-i); l= std::min(l, (size_t)248/n);
        u32 ba= run[i].a*n; std::vector<W> part(run.begin()+i, run.begin()+i+l);
        int al= ba > 0xffffff?4:ba > 0xffff?3+g.below(2):2+g.below(3);
        if (g.chance(6)) { std::vector<u8> junk(1+g.below(8)); for (auto &c: junk) c= g.b(); o+= srec('1'+g.below(3), 2, g.w(), junk, true)+e; nbad++; }
        if (g.chance(4)) o+= "; no record"+e;
        if (g.chance(3)) o+= srec('5', 2, g.w(), {})+e;
        if (g.chance(3)) o+= srec('1', 2, g.w(), {})+e;
        o+= srec('0'+al-1, al, ba, bytes(part, n)); o+= e; nrec++; i+= l;
        for (auto &x: part) order.push_back(x);
      }
    }
    if (g.chance(70)) { int al= 2+g.below(3); o+= srec('0'+11-al, al, 0, {}); }
    else while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
    if (g.chance(50)) o+= e;
  } else if (fmt == "omf") {
    auto rec= [&](int ty, std::vector<u8> d) { std::vector<u8> b= {(u8)ty, (u8)(d.size()+1), (u8)((d.size()+1)>>8)}; b.insert(b.end(), d.begin(), d.end()); u8 s= 0; for (u8 c: b) s+= c; b.push_back(-s); for (u8 c: b) o+= (char)c; nrec++; };
    if (g.chance(70)) rec(2, {4,'m','o','d','0',0xff,0});
    for (auto &run: runs) {
      size_t i= 0;
      while (i < run.size()) {
        size_t l= 1+g.below(g.chance(10)?1000:40); l= std::min(l, run.size()-i);
        u32 a= run[i].a; std::vector<u8> d= {(u8)g.b(), (u8)a, (u8)(a>>8)};
        for (size_t k= 0; k < l; k++) { d.push_back(run[i+k].v); order.push_back(run[i+k]); }
        if (g.chance(10)) rec(g.chance(50)?0x12:0x0e, {1,2,3,4,5,6,7,8});
        if (g.chance(5)) rec(6, {0,g.b(),g.b()});
        rec(6, d); i+= l;
      }
    }
    if (g.chance(70)) rec(4, {4,'m','o','d','0',0,0,0});
  } else if (fmt == "asc") { // word by word from address 0
    for (auto &x: runs[0]) {
      if (g.chance(5)) o+= "// comment"+e;
      if (g.chance(5)) o+= "  ";
      o+= vfmt(g.chance(50)?"%0*x":"%0*X", g.chance(50)?(w+3)/4:1, x.v); if (g.chance(20)) o+= " ; text 12"; o+= e; order.push_back(x); nrec++;
    }
    if (g.chance(40)) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
  } else { // p2h
    for (auto &run: runs) for (auto &x: run) {
      if (g.chance(5)) o+= vfmt("%08x //L some label", x.v)+e;
      if (g.chance(5)) o+= vfmt("%08x //C", x.v)+e;
      o+= vfmt("%08X%s//%c%s%05x", x.v, g.chance(50)?" ":"\t", g.chance(80)?'C':'I', g.chance(50)?" ":"\t ", x.a); if (g.chance(40)) o+= " mov r0,r1 "; o+= e; order.push_back(x); nrec++;
    }
    if (g.chance(40)) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
  }
  return o;
}
static void put(const std::string &fn, const std::string &c) { FILE *f= fopen(fn.c_str(), "wb"); if (!f) { vh_fail("setup", fn); exit(3); } fwrite(c.data(), 1, c.size(), f); fclose(f); }
static u64 hs(const std::string &s) { u64 h= 1469598103934665603ull; for (char c: s) h= (h^(u8)c)*1099511628211ull; return h; }
static std::string esc(const std::string &s) { std::string r; for (char c: s) r+= c >= 32 && c < 127?std::string(1, c):vfmt("\\x%02x", (u8)c); return r.size() > 500?r.substr(0, 500)+"...":r; }
static const char *exts(const std::string &f) { if (f == "hex") { static const char *e[]= {".hex",".ihx",".ihex",".HEX",".Ihx"}; return e[g.below(5)]; } return f == "s19"?(g.chance(80)?".s19":".S19"):f == "omf"?".omf":f == "asc"?".asc":".p2h"; }

static void setup(void) {
  static const char *cmds[]= {
    "memory create chip wchip 0x9000 16", "memory create addressspace wsp 0 0x9000 16", "memory create addressdecoder wsp 0 0x8fff wchip 0",
    "memory create chip tchip 0x300 24", "memory create addressspace tsp 0 0x300 24", "memory create addressdecoder tsp 0 0x2ff tchip 0",
    "memory create chip lchip 0x5000 32", "memory create addressspace lsp 0x100 0x5000 32", "memory create addressdecoder lsp 0x100 0x50ff lchip 0",
    "memory create chip hchip 0x13000 8", "memory create addressspace hsp 0 0x13000 8", "memory create addressdecoder hsp 0 0x12fff hchip 0",
    "memory create chip uchip 0x2000 8", "memory create addressspace usp 0x1ff000 0x2000 8", "memory create addressdecoder usp 0x1ff000 0x200fff uchip 0",
    "memory create chip nchip 0x400 12", "memory create addressspace nsp 0 0x400 12", "memory create addressdecoder nsp 0 0x3ff nchip 0",
    "memory create addressspace bsel 0 4 8", "memory create chip bselc 4 8", "memory create addressdecoder bsel 0 3 bselc 0",
    "memory create chip bchip 0x400 8", "memory create addressspace bsp 0 0x100 8", "memory create banker bsel 1 3 bsp 0 0xff",
    "memory create bank bsp 0 0 bchip 0", "memory create bank bsp 0 1 bchip 0x100", "memory create bank bsp 0 3 bchip 0x300", "bsel[1]=1", "bsel[1]=0" };
  for (auto c: cmds) { std::string o= vh_cmd(c); if (!vh_trim(o).empty()) vh_sample(std::string(c)+": "+o); }
  struct { const char *n; int w; } want[]= {{"rom",8},{"xram",8},{"rom_chip",8},{"xram_chip",8},{"iram",8},{"wsp",16},{"wchip",16},{"tsp",24},{"tchip",24},{"lsp",32},{"lchip",32},{"hsp",8},{"hchip",8},{"usp",8},{"uchip",8},{"nsp",12},{"nchip",12},{"bsp",8},{"bchip",8}};
  for (auto &x: want) {
    cl_memory *m= U->memory(x.n); if (!m) continue;
    Tgt t; t.n= x.n; t.m= m; t.lo= m->lowest_valid_address(); t.hi= m->highest_valid_address(); t.w= m->width; t.v.resize(t.hi-t.lo+1); t.bank_of= -1; tg.push_back(t);
  }
  struct { const char *s, *c; } al[]= {{"rom","rom_chip"},{"xram","xram_chip"},{"wsp","wchip"},{"tsp","tchip"},{"lsp","lchip"},{"hsp","hchip"},{"usp","uchip"},{"nsp","nchip"}};
  for (auto &x: al) { Tgt *a= find(x.s), *b= find(x.c); if (a && b && a->v.size() == b->v.size()) owner[x.s]= x.c; }
  if (!find("bsp") || !find("lsp") || !find("nsp")) { vh_fail("setup", "memories could not be created"); exit(1); }
}
static std::vector<std::vector<W>> image(Tgt &t, u32 off, const std::string &fmt) {
  std::vector<std::vector<W>> r; u32 span= t.hi-t.lo+1; if (t.n == "bsp") span= 0x480;
  int k= fmt == "asc"?1:1+g.below(5);
  u32 maxw= fmt == "omf"?0x10000:0xffffffffu/bpw(t.w);
  for (int i= 0; i < k; i++) {
    std::vector<W> run; u32 l= 1+g.below(g.chance(20)?400:40), a;
    switch (g.below(6)) { case 0: a= t.lo; break; case 1: a= t.hi-std::min(l-1, span-1)+(g.chance(30)?g.below(8):0); break; case 2: { u32 b= 0x10000/bpw(t.w); a= b > l?b-g.below(l):0; break; } default: a= t.lo+g.below(span); }
    if (g.chance(10) && !r.empty()) a= r.back()[0].a+off; // overwrite of an earlier run
    a-= off; if (fmt == "asc") a= 0;
    for (u32 j= 0; j < l; j++) { u32 x= a+j; if (x >= maxw || (fmt == "omf" && x > 0xffff)) break; run.push_back({x, (g.chance(30)?g.w()*0x10001u:(u32)g.next())&mk(t.w)}); }
    if (!run.empty()) r.push_back(run);
  }
  if (r.empty()) r.push_back({{0, (u32)g.next()&mk(t.w)}});
  return r;
}
static int mode_load(void) {
  long bad= 0, loads= 0, checks= 0, diffs= 0, words= 0;
  for (long k= 0; k < vh_cases && bad < 20; k++) {
    Tgt &t= tg[g.below(tg.size())];
    static const char *fm[]= {"hex","hex","s19","s19","omf","asc","p2h"}; std::string fmt= fm[g.below(7)]; if (fmt == "omf" && t.w > 8) fmt= "hex";
    bool isrom= t.n == "rom";
    if (g.chance(20)) { vh_cmd(vfmt("bsel[1]=0x%x", (g.b()&~3)|(cur_bank= (u32[]){0,1,3}[g.below(3)]))); }
    // target, offset, range
    std::string spec; u32 off= 0, mi= 0, ma= 0xffffffff; bool dl= isrom && fmt == "hex" && g.chance(25);
    if (!dl) {
      if (!isrom || g.chance(30)) spec+= "@"+t.n;
      if (g.chance(50) || (t.lo && fmt == "asc")) { i32 o= fmt == "asc"?(i32)(t.lo+g.below(t.hi-t.lo+1)):(i32)g.below(0x40)*(g.chance(30)?0x100:1)-(g.chance(30)?0x10:0); if (fmt == "omf" && t.hi > 0xffff) o= t.lo; off= o; spec+= ":"+(g.chance(50)?vfmt("%d", o):o < 0?vfmt("-0x%x", -o):vfmt("0x%x", o)); }
      else if (fmt == "omf" && t.hi > 0xffff) { off= t.lo; spec+= vfmt(":0x%x", off); }
    }
    auto runs= image(t, off, fmt);
    if (!dl && g.chance(30)) {
      u32 a= runs[0][0].a; mi= a+g.below(10)-(a > 5?5:0); ma= mi+g.below(100); int f= g.below(4);
      if (f == 0) { spec+= vfmt("#0x%x", mi); ma= 0xffffffff; } else if (f == 1) spec+= vfmt("#%u-%u", mi, ma); else spec+= vfmt("#0x%x-0x%x", mi, ma);
    }
    std::vector<W> order; std::string txt= encode(fmt, runs, t.w, order);
    std::string base= vfmt("%s/f%ld", dir.c_str(), k%7), fn= base+exts(fmt); bool full= g.chance(70) || fn != base+"."+(fmt == "hex"?g.chance(50)?"hex":"ihx":fmt);
    put(fn, txt);
    std::string cmd= dl?(g.chance(50)?"download":"dl"):std::string(g.chance(50)?"file":"load")+" \""+(full?fn:base)+spec+"\"";
    vh_case("%s | %s", cmd.c_str(), esc(txt).c_str());
    long stored= 0;
    for (auto &x: order) if ((mi == 0 || x.a >= mi) && (ma == 0xffffffff || x.a <= ma)) mstore(t, x.a+off, x.v, stored);
    std::string out; if (dl) { vh_fin= mk_io(fn.c_str(), "r"); out= vh_cmd(cmd); delete vh_fin; vh_fin= 0; if (out.find(vfmt("%zu words loaded", order.size())) == std::string::npos) { bad++; vh_fail("load:dl-count", vfmt("%s: %s want %zu | %s", cmd.c_str(), out.c_str(), order.size(), esc(txt).c_str())); } }
    else out= vh_cmd(cmd);
    loads++; words+= order.size(); std::string d;
    if (!same(d, &t)) { bad++; vh_fail("load:"+fmt, vfmt("%s: %s | %s", cmd.c_str(), d.c_str(), esc(txt).c_str())); resync(); unlink(fn.c_str()); continue; }
    vh_distinct("file", hs(txt));
    if (!dl && g.chance(60)) { // check: exactly the differing words are reported, nothing is changed
      int nch= g.chance(30)?0:1+g.below(6);
      for (int i= 0; i < nch; i++) { u32 a= order[g.below(order.size())].a+off, v; if (mfetch(t, a, v)) { long z= 0; u32 nv= v^(1u<<g.below(t.w)); mstore(t, a, nv, z); Tgt &o= own(t); if (t.n == "bsp") find("bchip")->m->set((a < 0x100?cur_bank*0x100:0)+a, nv); else o.m->set(a-t.lo+o.lo, nv); } }
      std::string want; long wn= 0;
      for (auto &x: order) if ((mi == 0 || x.a >= mi) && (ma == 0xffffffff || x.a <= ma)) { u32 v; if (mfetch(t, x.a+off, v) && v != x.v) { want+= vfmt("Diff at %08x, FILE=%08x MEM=%08x\n", x.a+off, x.v, v); wn++; } }
      cmd= "check \""+fn+spec+"\""; out= vh_cmd(cmd); checks++; diffs+= wn;
      { std::string f; for (auto &l: vh_split(out)) { u32 v; if (!strncmp(l.c_str(), "Diff at ", 8) && !mfetch(t, strtoul(l.c_str()+8, 0, 16), v)) continue; f+= l+"\n"; } out= f; } // words with no place are not judged
      if (out != want) { bad++; vh_fail("check:"+fmt, vfmt("%s: printed [%s] want [%s] | %s", cmd.c_str(), out.substr(0, 300).c_str(), want.substr(0, 300).c_str(), esc(txt).c_str())); }
      if (!same(d, &t)) { bad++; vh_fail("check-effect:"+fmt, cmd+": "+d); resync(); }
    }
    unlink(fn.c_str());
    if (k%500 == 0) vh_sample(vfmt("%s: %zu words in %zu bytes, %ld stored", cmd.c_str(), order.size(), txt.size(), stored));
    vh_stat("words stored", stored);
  }
  vh_stat("files loaded", loads); vh_stat("files checked", checks); vh_stat("differences reported", diffs); vh_stat("words", words); vh_stat("records", nrec); vh_stat("damaged records skipped", nbad); vh_stat("cases", loads+checks);
  return bad?1:0;
}
static int mode_fuzz(void) {
  long n= 0;
  for (long k= 0; k < vh_cases; k++) {
    Tgt &t= tg[g.below(tg.size())];
    static const char *fm[]= {"hex","s19","omf","asc","p2h","cdb","map"}; std::string fmt= fm[g.below(7)], txt; std::vector<W> order;
    if (fmt == "cdb") { for (int i= g.below(8); i >= 0; i--) txt+= vfmt(g.chance(50)?"F:G$f%d$0_0$0({2}DF,SV:S),C,0,0,0,0,0\n":"L:G$f%d$0$0:%X\n", g.below(4), g.w()); }
    else if (fmt == "map") { txt= "Area                                    Addr        Size        Decimal Bytes (Attributes)\n--\nCSEG  00000000 0000 =  5. bytes (REL,CON,CODE)\n\n"; for (int i= g.below(8); i >= 0; i--) txt+= vfmt("     C:   %08X  _fun%d   main\n", g.w(), g.below(9)); }
    else { auto runs= image(t, 0, fmt); for (auto &r: runs) for (auto &x: r) x.a&= 0x3ffff; txt= encode(fmt, runs, t.w, order); if (txt.size() > 4000) txt.resize(4000); }
    int m= g.below(12);
    for (int i= 0; i < m && !txt.empty(); i++) {
      size_t p= g.below(txt.size());
      switch (g.below(6)) {
      case 0: txt[p]= g.b(); break;
      case 1: txt.erase(p, 1+g.below(6)); break;
      case 2: txt.insert(p, 1, "0123456789ABCDEF:SF \n\r\t\0\xff@#"[g.below(27)]); break;
      case 3: txt.resize(p); break;
      case 4: txt[p]= "0f:S\n"[g.below(5)]; break;
      case 5: { std::string part= txt.substr(p, g.below(80)); txt.insert(g.below(txt.size()), part); break; }
      }
    }
    if (g.chance(3)) txt= ""; if (g.chance(2)) txt= std::string(1, g.b());
    if (g.chance(3)) txt= srec('1', 0, 0, {}); if (g.chance(2)) txt= "S301FE";
    std::string fn= vfmt("%s/z%ld.%s", dir.c_str(), k%7, fmt.c_str()); put(fn, txt);
    std::string spec; if (g.chance(50)) spec+= "@"+(g.chance(90)?t.n:std::string("nosuch")); if (g.chance(30)) spec+= vfmt(":%d", (int)g.next()>>g.below(31)); if (g.chance(30)) spec+= vfmt("#0x%x-0x%x", g.w(), g.w());
    std::string cmd= std::string(g.chance(70)?"file":"check")+" \""+fn+spec+"\"";
    vh_case("%s | %s", cmd.c_str(), esc(txt).c_str()); alarm(30); vh_cmd(cmd); alarm(0); n++; vh_distinct("file", hs(txt));
    if (k%2000 == 0) vh_sample(cmd+" | "+esc(txt).substr(0, 100));
    unlink(fn.c_str());
    if (k%200 == 0) for (auto &x: tg) for (int i= 0; i < 50; i++) { u32 a= x.lo+g.below(x.hi-x.lo+1); u32 v= real(x, a); if (v&~mk(x.w)) vh_fail("fuzz:width", vfmt("%s[%x]=%x", x.n.c_str(), a, v)); }
  }
  vh_stat("damaged files", n); vh_stat("cases", n);
  return 0;
}
// ---- dumps
static bool unhex(const std::string &txt, int n, std::map<u32,u8> &m, std::string &d) {
  u32 base= 0; bool end= false; (void)n;
  for (auto &l: vh_split(txt, "\r\n")) {
    if (end) { d= "data after the end record"; return false; }
    if (l.size() < 11 || l[0] != ':' || l.size()%2 == 0) { d= "no record: "+l; return false; }
    std::vector<u8> b; for (size_t i= 1; i+1 < l.size(); i+= 2) { if (!isxdigit(l[i]) || !isxdigit(l[i+1])) { d= "digits: "+l; return false; } b.push_back(strtoul(l.substr(i, 2).c_str(), 0, 16)); }
    u8 s= 0; for (u8 c: b) s+= c; if (s || b.size() != b[0]+5u) { d= "checksum or length: "+l; return false; }
    u32 a= b[1]*256+b[2];
    if (b[3] == 0) for (int i= 0; i < b[0]; i++) { if (m.count(base+a+i)) { d= "twice: "+l; return false; } m[base+a+i]= b[4+i]; }
    else if (b[3] == 4) base= (b[4]*256+b[5])<<16; else if (b[3] == 1) end= true; else { d= "type: "+l; return false; }
  }
  if (!end) { d= "no end record"; return false; }
  return true;
}
static void strdump(const std::vector<u32> &v, std::string &o) {
  for (u32 x: v) { char c= x; switch (c) { case '\'': o+= "\\'"; break; case '"': o+= "\\\""; break; case '?': o+= "\\?"; break; case '\\': o+= "\\\\"; break; case 7: o+= "\\a"; break; case 8: o+= "\\b"; break; case 12: o+= "\\f"; break; case 10: o+= "\\n"; break; case 13: o+= "\\r"; break; case 9: o+= "\\t"; break; case 11: o+= "\\v"; break; default: if (isprint(x&0xff)) o+= c; else o+= vfmt("\\%03o", x&0xff); } }
}
static int mode_dump(void) {
  long bad= 0, n= 0, cells= 0, nh= 0, ni= 0, nb= 0, ns= 0, rt= 0;
  for (long k= 0; k < vh_cases && bad < 20; k++) {
    Tgt &t= tg[g.below(tg.size())]; u32 span= t.hi-t.lo+1;
    // new content here and there
    u32 l= 1+g.below(g.chance(20)?700:90), a;
    switch (g.below(5)) { case 0: a= t.lo; break; case 1: a= t.hi-std::min(l-1, span-1); break; case 2: { u32 b= 0x10000/bpw(t.w); a= std::max(t.lo, std::min(t.hi, b > 20?b-g.below(20):b)); break; } default: a= t.lo+g.below(span); }
    l= std::min(l, t.hi-a+1); u32 stop= a+l-1;
    for (u32 i= 0; i < l+2 && a+i <= t.hi; i++) if (g.chance(70)) { u32 v= (g.chance(50)?0x20+g.below(0x60):(u32)g.next())&mk(t.w); if (!(v&0xff) && g.chance(80)) v= 0x41; t.m->set(a+i, v); }
    std::vector<u32> v; for (u32 i= a; i <= stop; i++) v.push_back(t.m->get(i));
    int f= g.below(4); std::string cmd, o; n++; cells+= l;
    if (f == 0) { // hexadecimal columns
      int b= g.chance(50)?(t.w > 16?4:8):1+g.below(40); cmd= vfmt("dump %s%s 0x%x 0x%x", g.chance(50)?"/h ":"/x ", t.n.c_str(), a, stop)+(b == (t.w > 16?4:8) && g.chance(50)?"":vfmt(" %d", b));
      vh_case("%s", cmd.c_str()); o= vh_cmd(cmd); nh++;
      std::vector<u32> got; u32 at= a; int cw= t.w/4+(t.w%4?1:0); bool ok= true; std::string why;
      for (auto &ln: vh_split(o)) {
        const char *p= ln.c_str(); char *e; if (strncmp(p, "0x", 2)) { ok= false; why= "line "+ln; break; }
        u32 la= strtoul(p+2, &e, 16); if (la != at) { ok= false; why= vfmt("address %x want %x", la, at); break; }
        if (*e == ' ') e++; int c= 0; std::string chr;
        while (c < b && at <= stop && isxdigit(e[0]) ) { std::string w(e, std::min((size_t)cw, strlen(e))); char *q; u32 x= strtoul(w.c_str(), &q, 16); if (*q || (int)w.size() != cw) { ok= false; why= "column "+ln; break; } got.push_back(x); at++; c++; e+= cw; if (*e == ' ') e++; }
        if (!ok) break;
        // the text at the end of the line
        std::string want; for (u32 x= at-c; x < at; x++) { u32 y= v[x-a]; for (int ii= 0; ii <= (t.w-1)-((t.w-1)%8); ii+= 8) { u8 ch= y>>ii; want+= isprint(ch)?(char)ch:'.'; } }
        if (ln.size() < want.size() || ln.substr(ln.size()-want.size()) != want) { ok= false; why= "characters "+ln+" want "+want; break; }
        if (c == 0) { ok= false; why= "empty line"; break; }
        if (c != b && at != stop+1) { ok= false; why= "short line "+ln; break; }
      }
      if (ok && got != v) { ok= false; why= vfmt("%zu cells of %u", got.size(), l); for (size_t i= 0; i < got.size() && i < v.size(); i++) if (got[i] != v[i]) { why+= vfmt(", [%x] %x want %x", a+(u32)i, got[i], v[i]); break; } }
      if (!ok) { bad++; vh_fail("dump:hex", cmd+": "+why+"\n"+o.substr(0, 300)); }
    } else if (f == 1) { // intel hex
      cmd= vfmt("dump /i %s 0x%x 0x%x", t.n.c_str(), a, stop); vh_case("%s", cmd.c_str()); o= vh_cmd(cmd); ni++;
      std::map<u32,u8> m; std::string d; int nb_= bpw(t.w);
      if (!unhex(o, nb_, m, d)) { bad++; vh_fail("dump:ihex-format", cmd+": "+d); continue; }
      bool ok= m.size() == (size_t)l*nb_; for (u32 i= 0; ok && i < l; i++) for (int j= 0; j < nb_; j++) { auto it= m.find((a+i)*nb_+j); if (it == m.end() || it->second != ((v[i]>>(8*j))&0xff)) { ok= false; d= vfmt("byte %x", (a+i)*nb_+j); break; } }
      if (!ok) { bad++; vh_fail("dump:ihex", vfmt("%s: %zu bytes, %s\n%s", cmd.c_str(), m.size(), d.c_str(), o.substr(0, 300).c_str())); continue; }
      // load it back after the cells were destroyed
      if (t.n != "bsp") {
        std::string fn= dir+"/back.ihx"; put(fn, o); for (u32 i= 0; i < l; i++) t.m->set(a+i, ~v[i]&mk(t.w));
        vh_cmd("file \""+fn+"@"+t.n+"\""); rt++;
        for (u32 i= 0; i < l; i++) if (t.m->get(a+i) != v[i]) { bad++; vh_fail("dump:reload", vfmt("%s: [%x]=%x want %x", cmd.c_str(), a+i, (u32)t.m->get(a+i), v[i])); break; }
        unlink(fn.c_str());
      }
    } else if (f == 2) {
      cmd= vfmt("dump /b %s 0x%x 0x%x", t.n.c_str(), a, stop); vh_case("%s", cmd.c_str()); o= vh_cmd(cmd); nb++;
      std::string w; for (u32 x: v) w+= (char)x;
      if (o != w) { bad++; vh_fail("dump:binary", vfmt("%s: %zu bytes want %zu [%s] [%s]", cmd.c_str(), o.size(), w.size(), esc(o).c_str(), esc(w).c_str())); }
    } else { // a string, up to the first zero
      cmd= vfmt("dump /s %s 0x%x", t.n.c_str(), a); u32 z= a; std::vector<u32> s; while (z <= t.hi && t.m->get(z)) s.push_back(t.m->get(z++)); if (s.size() > 3000) continue;
      vh_case("%s", cmd.c_str()); o= vh_cmd(cmd); ns++;
      std::string w; strdump(s, w); std::string oo= o; if (!oo.empty() && oo.back() == '\n') oo.pop_back();
      if (oo != w) { bad++; vh_fail("dump:string", vfmt("%s: [%s] want [%s]", cmd.c_str(), esc(o).c_str(), esc(w).c_str())); }
    }
    vh_distinct("dump", hs(o));
    if (k%1000 == 0) vh_sample(cmd+": "+esc(o).substr(0, 80));
  }
  vh_stat("hex column dumps", nh); vh_stat("intel hex dumps", ni); vh_stat("loaded back", rt); vh_stat("binary dumps", nb); vh_stat("string dumps", ns); vh_stat("cells", cells); vh_stat("cases", n);
  return bad?1:0;
}
int vh_main() {
  g= Rng(vh_seed); setup();
  char tmp[]= "/tmp/vh-c07-XXXXXX"; if (!mkdtemp(tmp)) { vh_fail("setup", "mkdtemp"); return 1; } dir= tmp;
  for (auto &t: tg) if (!owner.count(t.n) && t.n != "bsp") { for (u32 a= t.lo; a <= t.hi; a++) if (t.n != "iram" || a >= 0x20) t.m->set(a, g.next()&mk(t.w)); }
  resync(); std::string d; if (!same(d)) { vh_fail("setup", d); rmdir(tmp); return 1; }
  int r= vh_mode == "fuzz"?mode_fuzz():vh_mode == "dump"?mode_dump():mode_load();
  rmdir(tmp);
  return r;
}
