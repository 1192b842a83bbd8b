// Common part of the in-process harnesses: replaces cl_app::run(), so the
// simulator's own main() builds the real processor object with its own command
// line, and then hands control to vh_main().
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

#include "ddconfig.h"
#include "globals.h"
#include "utils.h"
#include "appcl.h"
#include "simcl.h"
#include "uccl.h"
#include "memcl.h"
#include "varcl.h"
#include "stypes.h"
#include "newcmdcl.h"
#include "errorcl.h"

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed= 1): s(seed*0x9E3779B97F4A7C15ull+0x1234567) { for (int i=0;i<4;i++) next(); }
  u64 next() { u64 z= (s+= 0x9E3779B97F4A7C15ull); z= (z^(z>>30))*0xBF58476D1CE4E5B9ull; z= (z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  u32 below(u32 n) { return n?(u32)((next()>>16)%n):0; }
  bool chance(int pct) { return (int)below(100) < pct; }
  // Values that sit on carry/sign/half boundaries are over-represented.
  u8 b() {
    static const u8 hot[]= {0,1,2,0x7f,0x80,0x81,0xff,0xfe,0x0f,0x10,0x08,0x09,0x0a,0x99,0x9a,0xf0,0x55,0xaa,0x40,0x3f,0x90,0x60};
    return chance(35)?hot[below(sizeof hot)]:(u8)next();
  }
  u16 w() {
    static const u16 hot[]= {0,1,0xffff,0xfffe,0x7fff,0x8000,0x8001,0x00ff,0x0100,0x0fff,0x1000,0x0080,0xff00,0xff80,0xfff0};
    return chance(30)?hot[below(sizeof hot/2)]:(chance(50)?(u16)next():(u16)((b()<<8)|b()));
  }
};

extern class cl_uc *U;
extern u64 vh_seed;
extern long vh_cases;
extern std::string vh_mode;
extern int vh_shard, vh_shards;

void vh_fail(const std::string &key, const std::string &detail);
void vh_stat(const std::string &name, long long v);       // adds
void vh_distinct(const std::string &name, u64 key);       // set cardinality
void vh_sample(const std::string &s);
const char *vh_case_now(void);
void vh_case(const char *fmt, ...);                        // last-case marker, survives a crash
std::string vfmt(const char *fmt, ...);
const char *vh_env(const char *n, const char *def);
long vh_envl(const char *n, long def);
class cl_memory_cell *vh_var(const char *name);            // cell of a named register
class cl_address_space *vh_as(const char *name);

std::string vh_cmd(const std::string &line);               // runs one console command line through the real interpreter, returns its output
class cl_console_base *vh_con(void);
extern class cl_f *vh_fin;                                  // input of that console
std::string vh_trim(std::string s);
std::vector<std::string> vh_split(const std::string &s, const char *sep= "\n");

int vh_main(void);                                          // provided by each harness

// A shadowed 8/16/32 bit memory space: `m` is the model's content, the real
// space is written with set() on setup only.
struct Shadow {
  cl_address_space *as= 0;
  u32 size= 0, mask= 0xff;
  std::vector<u32> m;
  std::vector<u32> touched;     // by the model, since clear()
  std::vector<cl_memory_cell*> cells;
  std::vector<u8*> p8; bool fast8= false;
  void attach(cl_address_space *a, u32 sz, u32 msk= 0xff) {
    as= a; size= sz; mask= msk; m.assign(sz, 0); cells.resize(sz);
    for (u32 i= 0; i < sz; i++) { cells[i]= as->get_cell(i); m[i]= cells[i]->get()&mask; }
  }
  u32 r(u32 a) const { return m[a%size]; }
  void w(u32 a, u32 v) { a%= size; m[a]= v&mask; touched.push_back(a); }
  void poke(u32 a, u32 v) { a%= size; m[a]= v&mask; cells[a]->set(v&mask); }
  u32 real(u32 a) { return cells[a%size]->get()&mask; }
  void clear() { touched.clear(); }
  void randomize(Rng &g, u32 from, u32 to) { for (u32 i= from; i < to; i++) poke(i, g.b()); }
  // compare the cells the model wrote
  bool cmp_touched(std::string &d) {
    for (u32 a: touched) if (real(a) != m[a]) { d+= vfmt(" mem[%x]=%x want %x", a, real(a), m[a]); return false; }
    return true;
  }
  bool cmp_all(std::string &d, bool fix= true) {
    bool ok= true; int n= 0;
    for (u32 a= 0; a < size; a++) if (real(a) != m[a]) {
      ok= false; if (n++ < 4) d+= vfmt(" mem[%x]=%x want %x", a, real(a), m[a]);
      if (fix) cells[a]->set(m[a]);
    }
    return ok;
  }
};
#endif
