// Environment: the etree library as an in-memory store.  Every database file
// is a list of octants in storage order with a schema and metadata; any one
// library call may fail (g_failat).  Misuse of a handle is a violation.
#ifndef MEMDB_H
#define MEMDB_H
#include "vs.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Payload.h"
#include <string.h>
#include <stdlib.h>
using cencalvm::storage::PayloadStruct;
using cencalvm::storage::Payload;
#ifndef MEMDB_MAX
#define MEMDB_MAX 40
#endif
struct Rec {
  etree_addr_t addr;
  PayloadStruct pay;
  int updates;
};
struct MemFile {
  const char* name;
  Rec rec[MEMDB_MAX];
  int n;
  const char* schema;
  const char* meta;
  int payloadsize;
  bool exists;
};
struct etree_t {
  MemFile* f;
  bool open, closefailed, rw, appending;
  int cur, flags, cache;
};
static MemFile g_file[4];
static int g_nfile = 0;
static etree_t g_handle[8];
static int g_nhandle = 0;
static int g_failat = -1, g_calls = 0;
static const char* g_failed = 0;

static bool mem_fail(const char* what) {
  if (g_calls++ == g_failat) { g_failed = what; return true; }
  return false;
}
static MemFile* mem_file(const char* name) {
  for (int i = 0; i < g_nfile; ++i)
    if (0 == strcmp(name, g_file[i].name)) return &g_file[i];
  if (g_nfile == 4) vs_fail("only the named database files are used");
  MemFile* f = &g_file[g_nfile++];
  f->name = strdup(name);
  f->n = 0; f->schema = 0; f->meta = 0; f->payloadsize = sizeof(PayloadStruct); f->exists = false;
  return f;
}
static int mem_open_handles(void) {
  int k = 0;
  for (int i = 0; i < g_nhandle; ++i) k += g_handle[i].open;
  return k;
}
static etree_t* mem_use(etree_t* ep) {
  vs_assert(ep != 0, "database handle is not null");
  vs_assert(ep->open, "database handle is open");
  return ep;
}
extern "C" {
etree_t* etree_open(const char* path, int32_t flags, int32_t bufsize, int32_t payloadsize, int32_t dims) {
#ifdef MEMDB_ANYOPEN
  // reading the header needs no sizes
  if ((flags & O_ACCMODE) == O_RDONLY && dims == 0 && bufsize == 0 && payloadsize == 0) { dims = 3; bufsize = 1; payloadsize = sizeof(PayloadStruct); }
#endif
  vs_assert(dims == 3, "three dimensions");
  vs_assert(bufsize > 0, "cache size is positive");
  vs_assert(payloadsize == (int) sizeof(PayloadStruct), "payload size");
  MemFile* f = mem_file(path);
  if (mem_fail("open")) return 0;
  const bool create = (flags & O_CREAT) != 0;
  if (!create && !f->exists) { g_failed = "open"; return 0; }
  if (!f->exists || (flags & O_TRUNC)) { f->n = 0; f->schema = 0; f->meta = 0; f->payloadsize = payloadsize; f->exists = true; }
  etree_t* ep = &g_handle[g_nhandle++];
  ep->f = f; ep->open = true; ep->closefailed = false; ep->appending = false; ep->cur = -1; ep->flags = flags; ep->cache = bufsize;
  ep->rw = (flags & O_ACCMODE) == O_RDWR;
  return ep;
}
int etree_close(etree_t* ep) {
  mem_use(ep);
  ep->open = false;
  if (mem_fail("close")) { ep->closefailed = true; return -1; }
  return 0;
}
int etree_errno(etree_t* ep) {
  vs_assert(ep != 0 && (ep->open || ep->closefailed), "error number of an open database");
  return 7;
}
const char* etree_strerror(int) { return "etree library failure"; }
char* etree_straddr(etree_t*, char* buf, etree_addr_t) { strcpy(buf, "ADDR"); return buf; }
int etree_insert(etree_t* ep, etree_addr_t a, const void* pay) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  if (mem_fail("insert")) return -1;
  MemFile* f = ep->f;
  vs_assert(f->n < MEMDB_MAX, "no surplus octants");
  Rec& r = f->rec[f->n++];
  r.addr = a; r.updates = 0;
  memcpy(&r.pay, pay, sizeof(PayloadStruct));
  return 0;
}
int etree_append(etree_t* ep, etree_addr_t a, const void* pay) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  vs_assert(ep->appending, "append within an append transaction");
  if (mem_fail("append")) return -1;
  MemFile* f = ep->f;
  vs_assert(f->n < MEMDB_MAX, "no surplus octants");
  Rec& r = f->rec[f->n++];
  r.addr = a; r.updates = 0;
  memcpy(&r.pay, pay, sizeof(PayloadStruct));
  return 0;
}
int etree_update(etree_t* ep, etree_addr_t a, const void* pay) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  if (mem_fail("update")) return -1;
  MemFile* f = ep->f;
  for (int i = f->n - 1; i >= 0; --i) {
    const etree_addr_t& o = f->rec[i].addr;
    if (o.level != a.level) continue;
    if (vs_split(vs_and(o.x == a.x, vs_and(o.y == a.y, o.z == a.z)))) {
      memcpy(&f->rec[i].pay, pay, sizeof(PayloadStruct));
      ++f->rec[i].updates;
      return 0;
    }
  }
  return -1;  // no such octant
}
int etree_initcursor(etree_t* ep, etree_addr_t a) {
  mem_use(ep);
  vs_assert(a.x == 0 && a.y == 0 && a.z == 0, "reading starts at the first octant");
  if (mem_fail("initcursor")) return -1;
  if (ep->f->n == 0) { g_failed = "initcursor"; return -1; }
  ep->cur = 0;
  return 0;
}
int etree_getcursor(etree_t* ep, etree_addr_t* a, const char* field, void* pay) {
  mem_use(ep);
  vs_assert(field == 0 || 0 == strcmp(field, "*"), "the whole payload is read");
  vs_assert(ep->cur >= 0 && ep->cur < ep->f->n, "cursor is on an octant");
  if (mem_fail("getcursor")) return -1;
  *a = ep->f->rec[ep->cur].addr;
  memcpy(pay, &ep->f->rec[ep->cur].pay, sizeof(PayloadStruct));
  return 0;
}
int etree_advcursor(etree_t* ep) {
  mem_use(ep);
  vs_assert(ep->cur >= 0, "cursor is on an octant");
  if (ep->cur + 1 >= ep->f->n) { ep->cur = -1; return -1; }
  ++ep->cur;
  return 0;
}
int etree_stopcursor(etree_t* ep) { mem_use(ep)->cur = -1; return 0; }
int etree_beginappend(etree_t* ep, double fill) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  vs_assert(fill > 0.0 && fill <= 1.0, "fill ratio");
  vs_assert(!ep->appending, "one append transaction");
  if (mem_fail("beginappend")) return -1;
  ep->appending = true;
  return 0;
}
int etree_endappend(etree_t* ep) {
  mem_use(ep);
  vs_assert(ep->appending, "append transaction ended once");
  ep->appending = false;
  return mem_fail("endappend") ? -1 : 0;
}
int etree_registerschema(etree_t* ep, const char* s) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  if (mem_fail("registerschema")) return -1;
  ep->f->schema = strdup(s);
  return 0;
}
char* etree_getschema(etree_t* ep) { mem_use(ep); return ep->f->schema ? strdup(ep->f->schema) : 0; }
int etree_setappmeta(etree_t* ep, const char* s) {
  mem_use(ep);
  vs_assert(ep->rw, "database written is open for writing");
  if (mem_fail("setappmeta")) return -1;
  ep->f->meta = strdup(s);
  return 0;
}
char* etree_getappmeta(etree_t* ep) { mem_use(ep); return ep->f->meta ? strdup(ep->f->meta) : 0; }
int etree_getpayloadsize(etree_t* ep) { return mem_use(ep)->f->payloadsize; }
uint64_t etree_gettotalcount(etree_t* ep) { return mem_use(ep)->f->n; }
}
// database content
static PayloadStruct mem_payload(void) {
  PayloadStruct p;
  p.Vp = vs_ffloat("Vp");
  p.Vs = vs_ffloat("Vs");
  p.Density = vs_ffloat("Density");
  p.Qp = vs_ffloat("Qp");
  p.Qs = vs_ffloat("Qs");
  p.DepthFreeSurf = vs_ffloat("DepthFreeSurf");
  p.FaultBlock = vs_short("FaultBlock");
  p.Zone = vs_short("Zone");
  return p;
}
static bool mem_same(const PayloadStruct& a, const PayloadStruct& b) {
  bool r = vs_same_f(a.Vp, b.Vp);
  r = vs_and(r, vs_same_f(a.Vs, b.Vs));
  r = vs_and(r, vs_same_f(a.Density, b.Density));
  r = vs_and(r, vs_same_f(a.Qp, b.Qp));
  r = vs_and(r, vs_same_f(a.Qs, b.Qs));
  r = vs_and(r, vs_same_f(a.DepthFreeSurf, b.DepthFreeSurf));
  r = vs_and(r, a.FaultBlock == b.FaultBlock);
  return vs_and(r, a.Zone == b.Zone);
}
static bool mem_sameaddr(const etree_addr_t& a, const etree_addr_t& b) {
  return vs_and(vs_and(a.x == b.x, a.y == b.y), vs_and(a.z == b.z, a.level == b.level));
}
// ticks of an octant of that level: multiples of its size below 2^31
static unsigned mem_mask(int level) { return (0xffffffffu << (31 - level)) & 0x7fffffffu; }
static void mem_octant(etree_addr_t* a, int level) {
  a->x = vs_uint("x"); a->y = vs_uint("y"); a->z = vs_uint("z");
  const unsigned m = ~mem_mask(level);
  vs_assume(vs_and((a->x & m) == 0, vs_and((a->y & m) == 0, (a->z & m) == 0)));
  a->t = 0; a->level = level; a->type = ETREE_LEAF;
}
#endif
