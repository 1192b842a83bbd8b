#include "vh.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>

class cl_uc *U= 0;
u64 vh_seed= 1;
long vh_cases= 1000;
std::string vh_mode;
int vh_shard= 0, vh_shards= 1;
static FILE *out= 0;
static std::map<std::string,long long> stats;
static std::map<std::string,long> nfail;
static std::map<std::string,std::unordered_set<u64>> distinct;
static int nsample= 0;
static char *lastcase= 0;

const char *vh_env(const char *n, const char *def) { const char *e= getenv(n); return (e && *e)?e:def; }
long vh_envl(const char *n, long def) { const char *e= getenv(n); return (e && *e)?strtol(e,0,0):def; }

std::string vfmt(const char *fmt, ...)
{ char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

void vh_fail(const std::string &key, const std::string &detail)
{
  long n= ++nfail[key];
  if (n <= 3) { std::string d= detail; for (auto &c: d) if (c == '\n' || c == '\r' || c == '\t') c= '|'; fprintf(out, "FAIL\t%s\t%s\n", key.c_str(), d.c_str()); fflush(out); }
}
void vh_stat(const std::string &name, long long v) { stats[name]+= v; }
void vh_distinct(const std::string &name, u64 key) { distinct[name].insert(key); }
void vh_sample(const std::string &s) { if (nsample++ < 6) fprintf(out, "SAMPLE\t%s\n", s.c_str()); }
void vh_case(const char *fmt, ...)
{
  if (!lastcase) return;
  va_list ap; va_start(ap, fmt); vsnprintf(lastcase, 4096, fmt, ap); va_end(ap);
}
const char *vh_case_now(void) { return lastcase?lastcase:""; }
class cl_memory_cell *vh_var(const char *name)
{
  t_index i;
  if (U->vars->by_name.search(name, i)) return U->vars->by_name.at(i)->get_cell();
  fprintf(out, "ERROR\tno variable %s\n", name); fflush(out); exit(3);
}
class cl_address_space *vh_as(const char *name)
{
  cl_address_space *a= U->address_space(name);
  if (!a) { fprintf(out, "ERROR\tno address space %s\n", name); fflush(out); exit(3); }
  return a;
}

// Console that keeps what the command printed.
class vh_file: public cl_f
{
public:
  std::string text;
  vh_file(void): cl_f() { file_id= -1; tty= false; }
  virtual enum file_type determine_type(void) { return F_FILE; }
  virtual int check_dev(void) { return 0; }
  virtual bool writable(void) { return true; }
  virtual bool opened(void) { return true; }
  virtual bool eof(void) { return false; }
  virtual int write(const char *b, int n) { if (n > 0) text.append(b, n); return n; }
  virtual int write_str(const char *s) { text+= s; return strlen(s); }
  virtual int vprintf(const char *format, va_list ap) {
    va_list c; va_copy(c, ap); int n= vsnprintf(0, 0, format, c); va_end(c);
    if (n < 0) return n;
    size_t l= text.size(); text.resize(l+n+1); vsnprintf(&text[l], n+1, format, ap); text.resize(l+n); return n;
  }
};
class cl_f *vh_fin= 0;
class vh_console: public cl_console_dummy
{
public:
  vh_file *fo;
  virtual class cl_f *get_fout(void) { return fo; }
  virtual class cl_f *get_fin(void) { return vh_fin; }
  void set_app(void) { app= application; }
  virtual bool non_color(void) { return true; }
  virtual int init(void) {
    prompt_option= new cl_prompt_option(this); prompt_option->init();
    null_prompt_option= new cl_optref(this); null_prompt_option->init(); null_prompt_option->use("null_prompt");
    debug_option= 0; set_flag(CONS_NOWELCOME, true); last_command= 0; last_cmd= chars(""); prev_quit= -1; set_interactive(false); return 0;
  }
  virtual int cmd_do_print(const char *format, va_list ap) { return fo->vprintf(format, ap); }
  virtual int write(char *buf, int count) { return fo->write(buf, count); }
};
static vh_console *vcon= 0;
class cl_console_base *vh_con(void)
{
  if (!vcon) {
    vcon= new vh_console(); vcon->set_app(); vcon->fo= new vh_file();
    application->get_commander()->add_console(vcon);
  }
  application->get_commander()->actual_console= vcon;
  return vcon;
}
std::string vh_cmd(const std::string &line)
{
  vh_con(); vcon->fo->text.clear();
  application->exec(chars(line.c_str()), vcon);
  return vcon->fo->text;
}
std::string vh_out_take(void) { vh_con(); std::string s= vcon->fo->text; vcon->fo->text.clear(); return s; }
std::string vh_trim(std::string s)
{
  size_t a= s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(" \t\r\n")-a+1);
}
std::vector<std::string> vh_split(const std::string &s, const char *sep)
{
  std::vector<std::string> r; size_t i= 0;
  while (i < s.size()) { size_t e= s.find_first_of(sep, i); if (e == std::string::npos) e= s.size(); if (e > i) r.push_back(s.substr(i, e-i)); i= e+1; }
  return r;
}

int cl_app::run(void)
{
  const char *of= getenv("VH_OUT");
  out= of?fopen(of, "a"):stderr;
  if (!out) { perror("VH_OUT"); exit(3); }
  const char *cf= getenv("VH_CASE");
  if (cf) {
    int fd= open(cf, O_RDWR|O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0)
      lastcase= (char*)mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    if (lastcase == MAP_FAILED) lastcase= 0;
  }
  vh_seed= strtoull(vh_env("VH_SEED", "1"), 0, 0);
  vh_cases= vh_envl("VH_CASES", 1000);
  vh_mode= vh_env("VH_MODE", "");
  vh_shard= vh_envl("VH_SHARD", 0);
  vh_shards= vh_envl("VH_SHARDS", 1);
  cperiod.set(cperiod_value());
  read_conf_file();
  read_input_files();
  exec_startup_cmd();
  if (!sim || !sim->uc) { fprintf(out, "ERROR\tno uc\n"); fclose(out); exit(3); }
  U= sim->uc;
  int r= vh_main();
  for (auto &s: stats) fprintf(out, "STAT\t%s\t%lld\n", s.first.c_str(), s.second);
  for (auto &d: distinct) {
    fprintf(out, "DKEYS\t%s\t", d.first.c_str());
    long n= 0;
    for (u64 k: d.second) { if (n++ > 100000) break; fprintf(out, "%llx ", (unsigned long long)k); }
    fprintf(out, "\n");
  }
  for (auto &f: nfail) fprintf(out, "NFAIL\t%s\t%ld\n", f.first.c_str(), f.second);
  fprintf(out, "DONE\t%d\n", r);
  fclose(out);
  _exit(0);
  return 0;
}
