// Memory map monitor: random worlds of chips, address spaces, decoders, bankers
// and banders are built and used through console commands and the memory API,
// next to a model that keeps an explicit cell -> (chip, slot, bit) map.
#include "vh.h"

struct Chip { std::string n; int w; u32 size; std::vector<u32> v; cl_memory_chip *c; bool alive; };
struct Map { int chip= -1; u32 a= 0; u32 bit= 0; };
struct Sp;
struct Banker { int id; int sel_sp; u32 sel_addr, mask; u32 asb, ase, origb; int cur; std::vector<std::pair<int,u32>> banks; };
struct Sp { std::string n; int w; u32 start, size; std::vector<Map> m; cl_address_space *as; std::vector<Banker> bk; };
static std::vector<Chip> ch; static std::vector<Sp> sp; static Rng g(1); static int uniq; static std::vector<std::string> logv; static std::string kind;
static u32 mk(int w) { return w >= 32?0xffffffffu:(1u<<w)-1; }
static std::string num(u32 v) { return g.chance(60)?vfmt("0x%x",v):vfmt("%u",v); }
static std::string run(const std::string &c) { logv.push_back(c); if (logv.size()>60) logv.erase(logv.begin()); vh_case("%s %s", kind.c_str(), c.c_str()); return vh_cmd(c); }
static std::string hist() { std::string s; for (auto &l: logv) s+= l+" ; "; return s.size()>3000?s.substr(s.size()-3000):s; }
static bool bad;
static void fail(const std::string &k, const std::string &d) { bad= true; if (getenv("C01_DBG")) fprintf(stderr, "%s\n", vh_cmd("info memory").c_str()); vh_fail("map:"+k, d+" AFTER "+hist()); }

static u32 rd(Sp &s, u32 i) { Map &m= s.m[i]; u32 v= ch[m.chip].v[m.a]; return s.w==1?((v&m.bit)?1:0):v; }
static void selector_changed(int spi, u32 addr, bool through);
static void wr(int spi, u32 i, u32 v, bool api_set= false) {
  Sp &s= sp[spi]; Map m= s.m[i]; if (m.chip < 0) return; u32 &c= ch[m.chip].v[m.a];
  if (s.w == 1) { if (v) c|= m.bit; else c&= ~m.bit; } else c= v & mk(s.w);
  if (!api_set) selector_changed(spi, s.start+i, true);
}
static u32 shiftof(u32 m) { u32 s= 0; while (m && !(m&1)) m>>= 1, s++; return s; }
static void bank_apply(Sp &s, Banker &b) {
  u32 v= rd(sp[b.sel_sp], b.sel_addr-sp[b.sel_sp].start);
  int n= (v & b.mask) >> shiftof(b.mask);
  if (b.banks[n].first < 0) return;           // no chip there: the mapping stays
  b.cur= n;
  for (u32 a= b.asb; a <= b.ase; a++) { Map &m= s.m[a-s.start]; u32 ca= b.banks[n].second+(a-b.origb); m.chip= -1; if (ca < ch[b.banks[n].first].size) { m.chip= b.banks[n].first; m.a= ca; m.bit= 1; } }
}
// Only a write through the selector's own cell operates the switch.
static void selector_changed(int spi, u32 addr, bool) {
  for (auto &s: sp) for (auto &b: s.bk) if (b.sel_sp == spi && b.sel_addr == addr) bank_apply(s, b);
}
// a new mapping takes the area [b,e] of space s away from bankers
static void cut(Sp &s, u32 b, u32 e) {
  std::vector<Banker> r;
  for (auto &k: s.bk) {
    if (k.ase < b || k.asb > e) { r.push_back(k); continue; }
    if (k.asb < b) { Banker l= k; l.ase= b-1; r.push_back(l); }
    if (k.ase > e) { Banker h= k; h.asb= e+1; if (k.asb < b) bank_apply(s, h); r.push_back(h); }
  }
  s.bk= r;
}
static bool cross_bank_risk(int spi, u32 b, u32 e) { // keep selectors mapped and out of banked areas
  for (auto &s: sp) for (auto &k: s.bk) if (k.sel_sp == spi && k.sel_addr >= b && k.sel_addr <= e) return true;
  return false;
}
static long checks;
static void verify(const char *what) {
  for (auto &c: ch) if (c.alive) for (u32 a= 0; a < c.size; a++) { u32 r= c.c->get(a); if (r != c.v[a]) { fail(std::string("chip:")+what, vfmt("%s[%x]=%x want %x", c.n.c_str(), a, r, c.v[a])); c.v[a]= r; return; } }
  for (auto &s: sp) for (u32 i= 0; i < s.size; i++) {
    cl_memory_cell *c= s.as->get_cell(s.start+i); bool nd= c->get_flag(CELL_NON_DECODED);
    if (nd != (s.m[i].chip < 0)) { fail(std::string("decoded:")+what, vfmt("%s[%x] %s, should %sbe", s.n.c_str(), s.start+i, nd?"not decoded":"decoded", nd?"":"not ")); return; }
    if (nd) continue;
    u32 r= s.as->get(s.start+i), x= rd(s, i); checks++;
    if (r != x) { fail(std::string("cell:")+what, vfmt("%s[%x]=%x want %x (slot %s[%x])", s.n.c_str(), s.start+i, r, x, ch[s.m[i].chip].n.c_str(), s.m[i].a)); return; }
  }
}
static int pick_chip(int w, int min) { std::vector<int> c; for (size_t i= 0; i < ch.size(); i++) if (ch[i].alive && (w==1?ch[i].w==8:ch[i].w==w) && (int)ch[i].size>=min) c.push_back(i); return c.empty()?-1:c[g.below(c.size())]; }

int vh_main() {
  g= Rng(vh_seed); long ops= 0;
  std::set<std::string> kinds;
  while (ops < vh_cases) {
    ch.clear(); sp.clear(); logv.clear(); bad= false;
    static const int ws[]= {8,8,8,16,12,32,24,4};
    int w= ws[g.below(8)], id= ++uniq;
    int nch= 2+g.below(3), nsp= 1+g.below(2);
    auto mkchip= [&](int cw) {
      Chip c; c.n= vfmt("ch%d_%d", id, (int)ch.size()); c.w= cw; c.size= 8+g.below(120); c.alive= true; kind= "chip";
      run("memory create chip "+c.n+" "+num(c.size)+((cw==8 && g.chance(50))?std::string():" "+num(cw)));
      cl_memory *m= U->memory(c.n.c_str()); if (!m || !m->is_chip() || m->get_size() != c.size || m->width != cw) { fail("create-chip", c.n); return; }
      c.c= (cl_memory_chip*)m; for (u32 a= 0; a < c.size; a++) { c.v.push_back(c.c->get(a)); if (c.v.back() & ~mk(cw)) fail("chip-width", vfmt("%s[%x]=%x", c.n.c_str(), a, c.v.back())); } ch.push_back(c);
    };
    auto mkspace= [&](int cw) {
      Sp s; s.n= vfmt("as%d_%d", id, (int)sp.size()); s.w= cw; s.size= 8+g.below(150); s.start= g.chance(50)?0:g.below(0x300); kind= "space";
      if (!s.start && cw == 8 && g.chance(30)) run("memory create addressspace "+s.n+" "+num(s.size));
      else run("memory create addressspace "+s.n+" "+num(s.start)+" "+num(s.size)+((cw==8&&g.chance(50))?std::string():" "+num(cw)));
      s.as= U->address_space(s.n.c_str()); if (!s.as || s.as->get_size() != s.size || s.as->get_start_address() != s.start || s.as->width != cw) { fail("create-space", s.n); return; }
      s.m.resize(s.size); sp.push_back(s);
    };
    for (int i= 0; i < nch; i++) mkchip(w);
    bool bits= w == 8 && g.chance(50);
    for (int i= 0; i < nsp; i++) mkspace(w);
    if (bits) mkspace(1);
    if (bad) continue;
    int len= 40+g.below(120);
    for (int k= 0; k < len && !bad; k++, ops++) {
      int si= g.below(sp.size()); Sp &s= sp[si];
      int what= g.below(100); const char *wn= "?";
      u32 b= g.below(s.size), e= b+g.below(s.size-b); if (g.chance(15)) b= 0; if (g.chance(15)) e= s.size-1;
      if (k < 6) what= g.below(22);
      if (what < 14) { wn= "decoder";
        int c= pick_chip(s.w, 1); if (c < 0) continue; u32 cb= g.chance(40)?0:g.below(ch[c].size);
        if (g.chance(70) && e-b+1 > ch[c].size-cb) e= b+ch[c].size-cb-1;
        if (cross_bank_risk(si, s.start+b, s.start+e)) continue;
        int form= 5; if (e == s.size-1) form= cb?((b==0)?1:3):((b==0)?0:2); else if (!cb) form= g.chance(50)?4:5;
        if (form < 4 && (e != s.size-1 || (form < 2 && s.start))) form= 5;
        std::string c2= "memory create addressdecoder "+s.n; kind= vfmt("decoder-form%d", form);
        if (form == 2 || form == 3) c2+= " "+num(s.start+b);
        if (form >= 4) c2+= " "+num(s.start+b)+" "+num(s.start+e);
        c2+= " "+ch[c].n; if (form == 1 || form == 3 || form == 5) c2+= " "+num(cb);
        std::string o= run(c2);
        bool ok= e-b+1 <= ch[c].size-cb;
        if (ok != vh_trim(o).empty()) { fail("decoder-accept", vfmt("valid=%d answer=[%s] space %x+%x b=%x e=%x", ok, o.c_str(),s.start,s.size,b,e)+c2); break; }
        if (ok) { cut(s, s.start+b, s.start+e); for (u32 i= b; i <= e; i++) { s.m[i].chip= c; s.m[i].a= cb+i-b; s.m[i].bit= 1; } }
        vh_distinct("decoder", (u64)form<<40|(u64)s.w<<32|b<<16|e);
      }
      else if (what < 20 && sp.size() > 1) { // banker; the selector is in another space
        if (s.w == 1) continue; wn= "banker";
        int qi= g.below(sp.size()); Sp &q= sp[qi]; if (qi == si || q.w == 1) continue;
        u32 sa= g.below(q.size); if (q.m[sa].chip < 0) continue; { bool in= false; for (auto &kk: q.bk) if (q.start+sa >= kk.asb && q.start+sa <= kk.ase) in= true; if (in) continue; }
        if (cross_bank_risk(si, s.start+b, s.start+e)) continue;
        u32 mask= mk(1+g.below(std::min(4,s.w))) << g.below(s.w>4?s.w-4:1); mask&= mk(s.w);
        // the banked area must not contain cells aliasing the selector's slot
        kind= "banker"; std::string o= run("memory create banker "+q.n+" "+num(q.start+sa)+" "+num(mask)+" "+s.n+" "+num(s.start+b)+" "+num(s.start+e));
        if (!vh_trim(o).empty()) { fail("banker-accept", o); break; }
        cut(s, s.start+b, s.start+e); for (u32 i= b; i <= e; i++) s.m[i].chip= -1;
        Banker K; K.id= uniq; K.sel_sp= qi; K.sel_addr= q.start+sa; K.mask= mask; K.asb= K.origb= s.start+b; K.ase= s.start+e; K.cur= -1; K.banks.assign((mask>>shiftof(mask))+1, {-1,0});
        s.bk.push_back(K); vh_distinct("banker", (u64)mask<<32|b<<16|e);
      }
      else if (what < 32 && s.bk.size()) { wn= "bank";
        int bi= g.below(s.bk.size()); Banker &K= s.bk[bi]; u32 nr= g.below(K.banks.size()); int c= pick_chip(s.w, 1); if (c < 0) continue; u32 cb= g.below(ch[c].size);
        bool bogus= g.chance(8); kind= "bank";
        u32 at= K.asb+g.below(K.ase-K.asb+1); u32 inoff= K.asb-K.origb;
        std::string o= run("memory create bank "+s.n+" "+num(at)+" "+(bogus?num(K.banks.size()+g.below(9)):num(nr))+" "+ch[c].n+" "+num(cb));
        if (bogus) { }
        else { // chip address given belongs to the start of the banker's present area
          K.banks[nr]= {c, cb-inoff};
          // re-map with the freshly given bank when it is the selected one
          bank_apply(s, K); }
        vh_distinct("bank", (u64)nr<<32|K.banks.size());
      }
      else if (what < 38 && s.w == 1) { wn= "bander";
        int c= pick_chip(1, 1); if (c < 0) continue; int bpc= 1+g.below(8), dist= g.chance(40)?1:1+g.below(4); u32 cb= g.below(ch[c].size);
        u32 maxn= ((ch[c].size-cb+dist-1)/dist)*bpc; if (e-b+1 > maxn) e= b+maxn-1;
        kind= "bander";
        std::string o= run("memory create bander "+s.n+" "+num(s.start+b)+" "+num(s.start+e)+" "+ch[c].n+" "+num(cb)+" "+num(bpc)+((dist==1&&g.chance(50))?std::string():" "+num(dist)));
        if (!vh_trim(o).empty()) { fail("bander-accept", o); break; }
        cut(s, s.start+b, s.start+e);
        for (u32 i= b; i <= e; i++) { s.m[i].chip= c; s.m[i].a= cb+((i-b)/bpc)*dist; s.m[i].bit= 1u<<((i-b)%bpc); }
        vh_distinct("bander", (u64)bpc<<40|(u64)dist<<32|(e-b));
      }
      else if (what < 50) { wn= "set-memory"; kind= wn;
        int n= 1+g.below(6); std::string l; std::vector<u32> d; for (int i= 0; i < n; i++) { d.push_back(g.chance(20)?(u32)g.next():((u32)g.next()&mk(s.w==1?1:s.w))); l+= " "+vfmt("0x%x", d.back()); }
        bool onchip= g.chance(20);
        if (onchip) { int c= pick_chip(s.w, 1); if (c < 0) continue; u32 a= g.below(ch[c].size); run("set memory "+ch[c].n+" "+num(a)+l); for (int i= 0; i < n && a+i < ch[c].size; i++) ch[c].v[a+i]= d[i]&mk(ch[c].w); }
        else { run("set memory "+s.n+" "+num(s.start+b)+l); for (int i= 0; i < n && b+i < s.size; i++) wr(si, b+i, d[i]); }
      }
      else if (what < 56) { wn= "fill"; kind= wn; u32 v= (u32)g.next()&mk(s.w); if (e-b > 20) e= b+20; run("fill "+s.n+" "+num(s.start+b)+" "+num(s.start+e)+" "+vfmt("0x%x",v)); for (u32 i= b; i <= e; i++) wr(si, i, v); }
      else if (what < 70) { wn= "assign"; kind= wn; if (s.m[b].chip < 0) continue; u32 v= g.chance(30)?(u32)g.next()&0x7fffffff:((u32)g.next()&mk(s.w)&0x7fffffff); run("expr "+s.n+"["+num(s.start+b)+"]="+num(v)); wr(si, b, v); }
      else if (what < 80) { wn= "write"; kind= wn; u32 v= g.next(); logv.push_back(vfmt("(write %s[%x]=%x)", s.n.c_str(), s.start+b, v)); bool nd= s.m[b].chip < 0; u32 r= s.as->write(s.start+b, v); wr(si, b, v); if (!nd && s.m[b].chip >= 0 && r != rd(s,b)) fail("write-result", vfmt("%s[%x] write %x returned %x want %x", s.n.c_str(), s.start+b, v, r, rd(s,b))); }
      else if (what < 84) { wn= "out-of-range"; kind= wn; u32 a= g.chance(50)?s.start+s.size+g.below(40):(s.start?g.below(s.start):s.start+s.size); s.as->write(a, g.next()); s.as->read(a); s.as->set(a, 1); s.as->get(a); logv.push_back(vfmt("(oob %x)", a)); }
      else if (what < 90) { wn= "expr"; kind= wn; if (s.m[b].chip < 0) continue; std::string o= run("expr "+s.n+"["+num(s.start+b)+"]"); u32 x= rd(s,b); if (vh_trim(o) != vfmt("%d", (int)x)) { fail("expr", vfmt("%s[%x] printed [%s] want %d", s.n.c_str(), s.start+b, vh_trim(o).c_str(), (int)x)); } }
      else if (what < 95) { wn= "dump"; kind= wn; // first line of a dump
        u32 n= std::min<u32>(e-b+1, 8); bool all= true; for (u32 i= b; i < b+n; i++) if (s.m[i].chip < 0) all= false; if (!all) continue;
        std::string o= run("dump "+s.n+" "+num(s.start+b)+" "+num(s.start+b+n-1)+" "+num(n)); auto t= vh_split(o, " \n\r\t"); u32 i= b; bool ok= t.size() > n; 
        for (u32 j= 0; ok && j < n; j++) { u32 v= strtoul(t[j+1].c_str(), 0, 16); if (v != rd(s, i+j)) ok= false; }
        if (ok && strtoul(t[0].c_str(),0,16) != s.start+b) ok= false;
        if (!ok) { std::string w2; for (u32 j= 0; j < n; j++) w2+= vfmt(" %x", rd(s, b+j)); fail("dump", "printed ["+vh_trim(o)+"] want"+w2); } }
      else if (what < 98) { wn= "cell-info"; kind= wn; if (s.m[b].chip < 0) continue; std::string o= run("memory cell "+s.n+" "+num(s.start+b)); std::string x= vfmt("decoded to %s[%u]", ch[s.m[b].chip].n.c_str(), s.m[b].a); if (o.find(x) == std::string::npos) fail("cell-info", "want \""+x+"\" in "+o); }
      else if (ch.size() > 2 && what == 98) { wn= "remove-chip"; kind= wn;
        int c= pick_chip(s.w, 1); if (c < 0) continue; int alive= 0; for (auto &x: ch) alive+= x.alive; if (alive < 3) continue;
        bool used= false; for (auto &q: sp) for (auto &kk: q.bk) { u32 a= kk.sel_addr-sp[kk.sel_sp].start; if (sp[kk.sel_sp].m[a].chip == c) used= true; } if (used) continue;
        run("memory remove chip "+ch[c].n); ch[c].alive= false; ch[c].c= 0;
        for (auto &q: sp) { for (auto &m: q.m) if (m.chip == c) m.chip= -1;
          std::vector<Banker> r; for (auto &kk: q.bk) { bool u= false; for (auto &bb: kk.banks) if (bb.first == c) u= true; if (u) { for (u32 a= kk.asb; a <= kk.ase; a++) q.m[a-q.start].chip= -1; } else r.push_back(kk); } q.bk= r; }
        if (U->memory(ch[c].n.c_str())) fail("remove-chip", "still there");
      }
      else { wn= "api-set"; kind= wn; if (s.m[b].chip < 0) continue; u32 v= g.next(); bool sel= false; for (auto &q: sp) for (auto &kk: q.bk) { auto &z= sp[kk.sel_sp].m[kk.sel_addr-sp[kk.sel_sp].start]; if (z.chip == s.m[b].chip && z.a == s.m[b].a) sel= true; } if (sel) continue; logv.push_back("(set)"); s.as->set(s.start+b, v); wr(si, b, v, true); }
      kinds.insert(wn); U->errors->free_all();
      if (!bad) verify(wn);
      if (ops < 5) vh_sample(logv.back());
    }
    // forget the world
    if (uniq % 20 == 0) vh_distinct("worlds", uniq);
  }
  vh_stat("cases", ops); vh_stat("cell-compares", checks);
  return 0;
}
