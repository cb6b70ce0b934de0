// Native meaning of the harness API: replays the values of one symbolic path
// against the real compiled code.
//   VS_INPUTS  file: one "name kind hex" line per input, in order
//   VS_DIR     scratch directory (created and removed by the driver)
//   VS_RESULT  file the results are written to
#include "vs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <unistd.h>
#include <ctype.h>
#include <exception>
#include <string>
#include <vector>
#include <iostream>

extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void vs_main();
static FILE* res;
struct In { std::string name, kind; unsigned long long v; };
static std::vector<In> ins;
static size_t ipos;
static std::string dir;

static void finish(const char* what) __attribute__((noreturn));
static void finish(const char* what) {
  fprintf(res, "END %s\n", what);
  fflush(res);
  _exit(0);
}
static unsigned long long next(const char* name, char kind) {
  if (ipos >= ins.size() || ins[ipos].name != name || ins[ipos].kind[0] != kind) {
    fprintf(res, "DIVERGE at input %zu: %s\n", ipos, name);
    finish("diverged");
  }
  return ins[ipos++].v;
}
static double asd(unsigned long long b) { double d; memcpy(&d, &b, 8); return d; }
static double nextd(const char* name) { return asd(next(name, 'd')); }
static float nextf(const char* name) { return (float) asd(next(name, 'f')); }

extern "C" {
double vs_double(const char* n) { return nextd(n); }
double vs_fdouble(const char* n) { return nextd(n); }
float vs_float(const char* n) { return nextf(n); }
float vs_ffloat(const char* n) { return nextf(n); }
int vs_int(const char* n) { return (int) next(n, 'i'); }
int vs_range(const char* n, int, int) { return (int) next(n, 'i'); }
int vs_choice(const char* n, int) { return (int) next(n, 'i'); }
unsigned vs_uint(const char* n) { return (unsigned) next(n, 'i'); }
short vs_short(const char* n) { return (short) next(n, 'i'); }
bool vs_bool(const char* n) { return next(n, 'i') & 1; }
bool vs_flip(const char* n) { return next(n, 'i') & 1; }
double vs_uf_d(const char* n, double, double, double) { return nextd(n); }
unsigned vs_uf_u(const char* n, double, double, double) { return (unsigned) next(n, 'i'); }
bool vs_uf_b(const char* n, double, double, double) { return next(n, 'i') & 1; }
bool vs_and(bool a, bool b) { return a && b; }
bool vs_or(bool a, bool b) { return a || b; }
bool vs_not(bool a) { return !a; }
bool vs_implies(bool a, bool b) { return !a || b; }
bool vs_same_d(double a, double b) { return (isnan(a) && isnan(b)) || memcmp(&a, &b, 8) == 0; }
bool vs_same_f(float a, float b) { return (isnan(a) && isnan(b)) || memcmp(&a, &b, 4) == 0; }
double vs_ite_d(bool c, double a, double b) { return c ? a : b; }
int vs_ite_i(bool c, int a, int b) { return c ? a : b; }
unsigned vs_ite_u(bool c, unsigned a, unsigned b) { return c ? a : b; }
bool vs_known(bool) { return next("known", 'i') & 1; }
bool vs_split(bool c) { return c; }
long vs_concrete(long v) { return v; }
void vs_assume(bool c) { if (!c) finish("assumption not met"); }
void vs_assert(bool c, const char* l) { if (!c) { fprintf(res, "FAIL %s\n", l); fflush(res); } }
void vs_assert_close(double a, double b, double at, double rt, const char* l) {
  bool ok = a == b || (isnan(a) && isnan(b)) || fabs(a - b) <= at + rt * fmax(fabs(a), fabs(b));
  vs_assert(ok, l);
}
void vs_fail(const char* l) { vs_assert(false, l); }
void vs_cover(const char*) {}
void vs_observe_d(const char* n, double v) {
  unsigned long long b; memcpy(&b, &v, 8);
  if (isnan(v)) b = 0x7ff8000000000000ULL;
  fprintf(res, "OBS %s d %016llx\n", n, b);
}
void vs_observe_i(const char* n, long v) { fprintf(res, "OBS %s i %lx\n", n, v); }

static jmp_buf jb;
static bool injb;
static int excode;
static std::string what_;
void vs_exit(int c) {
  excode = c;
  if (!injb) { fprintf(res, "CRASH exit called\n"); finish("exit"); }
  longjmp(jb, 1);
}
void __wrap_exit(int c) { vs_exit(c); }
int vs_call(void (*f)(void*), void* a) {
  injb = true;
  if (setjmp(jb)) { injb = false; return 3; }
  int r = 0;
  try { f(a); }
  catch (const std::exception& e) { what_ = e.what(); r = 1; }
  catch (...) { r = 2; }
  injb = false;
  return r;
}
int vs_exit_code(void) { return excode; }
const char* vs_what(void) { return what_.c_str(); }

static char* keep(const std::string& s) { return strdup(s.c_str()); }
const char* vs_path(const char* n) { return keep(dir + "/" + n); }
static std::string full(const char* n) {
  if (!strcmp(n, "<stdout>")) return dir + "/_stdout";
  if (!strcmp(n, "<stderr>")) return dir + "/_stderr";
  if (n[0] == '/') return n;
  return dir + "/" + n;
}
void vs_file_text(const char* n, const char* t) {
  FILE* f = fopen(full(n).c_str(), "a"); fputs(t, f); fclose(f);
}
void vs_file_num(const char* n, double v) { vs_file_text(n, vs_numstr(v)); }
void vs_file_numf(const char* n, float v) { char b[64]; snprintf(b, 64, "%.9g", v); vs_file_text(n, b); }
void vs_file_int(const char* n, int v) { vs_file_text(n, vs_intstr(v)); }
const char* vs_numstr(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return keep(b); }
const char* vs_intstr(int v) { char b[64]; snprintf(b, 64, "%d", v); return keep(b); }
void vs_file_unwritable(const char* n) {
  std::string c = "mkdir -p '" + full(n) + "'";   // a directory cannot be opened for output
  if (system(c.c_str())) finish("mkdir");
}
bool vs_file_exists(const char* n) { return access(full(n).c_str(), F_OK) == 0; }
struct Cur { std::string name, text; size_t pos; };
static std::vector<Cur> curs;
static std::string memtext;
static std::string slurp(const char* n) {
  if (!strcmp(n, "<mem>")) return memtext;
  std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
  std::string t; FILE* f = fopen(full(n).c_str(), "r");
  if (f) { int c; while ((c = fgetc(f)) != EOF) t += (char) c; fclose(f); }
  return t;
}
static Cur& cur(const char* n) {
  for (size_t i = 0; i < curs.size(); ++i)
    if (curs[i].name == n) {
      Cur& c = curs[i];
      while (c.pos < c.text.size() && strchr(" \t\r", c.text[c.pos])) ++c.pos;
      return c;
    }
  Cur c; c.name = n; c.text = slurp(n); c.pos = 0;
  curs.push_back(c);
  return cur(n);
}
void vs_out_rewind(const char* n) {
  for (size_t i = 0; i < curs.size(); ++i)
    if (curs[i].name == n) { curs.erase(curs.begin() + i); return; }
}
bool vs_out_eof(const char* n) { Cur& c = cur(n); return c.pos >= c.text.size(); }
bool vs_out_eol(const char* n) {
  Cur& c = cur(n);
  if (c.pos < c.text.size() && c.text[c.pos] == '\n') { ++c.pos; return true; }
  return false;
}
bool vs_out_num(const char* n, double* v, int* prec) {
  Cur& c = cur(n);
  const char* s = c.text.c_str() + c.pos;
  char* e;
  *v = strtod(s, &e);
  if (e == s) return false;
  const char* dot = (const char*) memchr(s, '.', e - s);
  const char* ex = 0;
  for (const char* q = s; q < e; ++q) if (*q == 'e' || *q == 'E') ex = q;
  *prec = dot ? (int) ((ex ? ex : e) - dot - 1) : 0;
  if (ex) *prec += 100;
  c.pos += e - s;
  return true;
}
void vs_out_load(const char* t) { memtext = t; vs_out_rewind("<mem>"); }
bool vs_out_text(const char* n, const char* t) {
  Cur& c = cur(n);
  if (c.text.compare(c.pos, strlen(t), t)) return false;
  c.pos += strlen(t);
  return true;
}
bool vs_out_nextnum(const char* n, double* v, int* prec) {
  Cur& c = cur(n);
  const std::string& t = c.text;
  size_t p = c.pos;
  for (; p < t.size(); ++p) {
    size_t q = p;
    if (t[q] == '+' || t[q] == '-') ++q;
    if (q < t.size() && t[q] == '.') ++q;
    if (q < t.size() && isdigit(t[q]) && (p == 0 || !isalnum(t[p - 1]))) break;
  }
  c.pos = p;
  return p < t.size() && vs_out_num(n, v, prec);
}
int vs_out_find(const char* n, const char* t) {
  std::string s = slurp(n); int k = 0;
  for (size_t p = s.find(t); p != std::string::npos; p = s.find(t, p + strlen(t))) ++k;
  return k;
}
bool vs_file_is(const char* n, const char* t) { return slurp(n) == t; }
int vs_out_size(const char* n) { return (int) slurp(n).size(); }
bool vs_printed(double got, double want, int prec) {
  if (isnan(got) && isnan(want)) return true;
  if (prec >= 200) return fabs(got - want) <= 1e-5 * fabs(want) || got == want;
  char b[512];
  if (prec >= 100) snprintf(b, 512, "%.*e", prec - 100, want);
  else snprintf(b, 512, "%.*f", prec, want);
  return strtod(b, 0) == got;
}
long vs_heap_live(void) { return 0; }
}

int main() {
  res = fopen(getenv("VS_RESULT"), "w");
  dir = getenv("VS_DIR");
  FILE* f = fopen(getenv("VS_INPUTS"), "r");
  char nm[256], k[8]; unsigned long long v;
  while (fscanf(f, "%255s %7s %llx", nm, k, &v) == 3) { In i = { nm, k, v }; ins.push_back(i); }
  fclose(f);
  if (!freopen((dir + "/_stdout").c_str(), "a", stdout)) return 3;
  if (!freopen((dir + "/_stderr").c_str(), "a", stderr)) return 3;
  try { vs_main(); }
  catch (...) { fprintf(res, "CRASH uncaught exception\n"); finish("exception"); }
  if (ipos != ins.size()) fprintf(res, "DIVERGE %zu of %zu inputs used\n", ipos, ins.size());
  finish("done");
}
