// Environment of the query code, used by several harnesses:
//  * an arbitrary octree database behind the etree API.  A database is any set
//    of octants; a search returns the deepest stored octant that is the
//    address or one of its ancestors.  Results are fresh symbolic values kept
//    consistent with every earlier search of the same database.
//  * an arbitrary geometry: any mapping of locations to octants.
#ifndef VMDB_H
#define VMDB_H
#include "vs.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Payload.h"
#include "cencalvm/storage/Geometry.h"
#include <string.h>
#include <math.h>
using cencalvm::storage::PayloadStruct;
using cencalvm::storage::Payload;

#ifndef VMDB_MAXHIT
#define VMDB_MAXHIT 31        // deepest stored octant
#endif
#ifndef VMDB_VERTEXAG
#define VMDB_VERTEXAG vs_uf_d("vertexag", 0.0, 0.0, 0.0)
#endif
#ifndef VMDB_MINHIT
#define VMDB_MINHIT 0
#endif
#ifdef VMDB_CONCRETE_LEVELS
#define VMDB_LEVEL(lo, hi) ((lo) + vs_choice("hit_level", (hi) - (lo) + 1))
#else
#define VMDB_LEVEL(lo, hi) vs_range("hit_level", lo, hi)
#endif

#ifdef VMDB_PHYSICAL
// magnitudes whose sums and ratios stay finite
static float vm_physical(const char* name) {
  const float v = vs_ffloat(name);
  vs_assume(vs_and(v < 1e30f, v > -1e30f));
  return v;
}
#define VMDB_FLOAT(name) vm_physical(name)
#else
#define VMDB_FLOAT(name) vs_ffloat(name)
#endif

struct DbRecord {
  etree_addr_t addr;
  bool found;
  etree_addr_t hit;
  PayloadStruct payload;
};
struct etree_t {
  int which;            // 0 detailed, 1 extended
  bool open;
  int n;
  int searches;         // made by the code under test
  DbRecord rec[16];
};
static etree_t g_db[2];
static int g_opened[2], g_closed[2];
static bool g_openfail[2], g_closefail[2];
static std::string* g_openname[2];
static int g_opensize[2], g_openflags[2];
static const char* g_name[2];
static bool g_anyblock = false;      // stored octants may carry fault block 0
static bool g_inside = false;        // every location lies in the domain
static bool g_empty = false;         // databases hold nothing

static unsigned vm_mask(int level) { return (unsigned) (((int) 0x80000000) >> level); }

// is octant h (level <= a.level) a itself or an ancestor of a?
static bool vm_contains(const etree_addr_t& h, const etree_addr_t& a) {
  const unsigned m = vm_mask(h.level);
  // level 31 octants have ticks of 31 bits: the mask keeps bit 0 as well
  return vs_and(h.level <= a.level,
         vs_and((a.x & m) == h.x, vs_and((a.y & m) == h.y, (a.z & m) == h.z)));
}
static bool vm_sameoct(const etree_addr_t& a, const etree_addr_t& b) {
  return vs_and(a.level == b.level, vs_and(a.x == b.x, vs_and(a.y == b.y, a.z == b.z)));
}
static bool vm_samepay(const PayloadStruct& a, const PayloadStruct& b) {
  bool r = vs_same_f(a.Vp, b.Vp);
  r = vs_and(r, vs_same_f(a.Vs, b.Vs));
  r = vs_and(r, vs_same_f(a.Density, b.Density));
  r = vs_and(r, vs_same_f(a.Qp, b.Qp));
  r = vs_and(r, vs_same_f(a.Qs, b.Qs));
  r = vs_and(r, vs_same_f(a.DepthFreeSurf, b.DepthFreeSurf));
  r = vs_and(r, a.FaultBlock == b.FaultBlock);
  return vs_and(r, a.Zone == b.Zone);
}
static bool vm_consistent(const DbRecord& p, const DbRecord& q) {
  bool ok = true;
  if (p.found && q.found) {
    const bool same = vm_sameoct(p.hit, q.hit);
    ok = vs_and(ok, vs_implies(same, vs_and(p.hit.type == q.hit.type, vm_samepay(p.payload, q.payload))));
    // leaves have no descendants
    ok = vs_and(ok, vs_implies(vs_and(p.hit.type == ETREE_LEAF, p.hit.level < q.hit.level), vs_not(vm_contains(p.hit, q.hit))));
    ok = vs_and(ok, vs_implies(vs_and(q.hit.type == ETREE_LEAF, q.hit.level < p.hit.level), vs_not(vm_contains(q.hit, p.hit))));
    ok = vs_and(ok, vs_implies(vm_contains(p.hit, q.addr), p.hit.level <= q.hit.level));
    ok = vs_and(ok, vs_implies(vm_contains(q.hit, p.addr), q.hit.level <= p.hit.level));
  } else if (p.found) {
    ok = vs_and(ok, vs_not(vm_contains(p.hit, q.addr)));
  } else if (q.found) {
    ok = vs_and(ok, vs_not(vm_contains(q.hit, p.addr)));
  }
  return ok;
}
static const DbRecord& vm_lookup(etree_t* ep, const etree_addr_t& a) {
  // the same address again (syntactically): same answer
  for (int i = 0; i < ep->n; ++i) {
    const etree_addr_t& o = ep->rec[i].addr;
    if (vs_known(vm_sameoct(o, a))) return ep->rec[i];
  }
  DbRecord& r = ep->rec[ep->n];
  r.addr = a;
  r.addr.t = 0;
  const bool in = vs_and(a.x < 0x80000000u, vs_and(a.y < 0x80000000u, a.z < 0x80000000u));
  r.found = g_empty || (VMDB_MINHIT > 0 && vs_known(a.level < VMDB_MINHIT)) ? false : vs_flip(ep->which ? "found_ext" : "found");
  if (r.found) {
    vs_assume(in);
    r.hit.level = VMDB_LEVEL(VMDB_MINHIT, VMDB_MAXHIT);
    vs_assume(r.hit.level <= a.level);
    const unsigned m = vm_mask(r.hit.level);
    r.hit.x = a.x & m; r.hit.y = a.y & m; r.hit.z = a.z & m;
    r.hit.t = 0;
    r.hit.type = (etree_type_t) vs_ite_i(vs_bool("hit_leaf"), ETREE_LEAF, ETREE_INTERIOR);
    r.payload.Vp = VMDB_FLOAT("Vp");
    r.payload.Vs = VMDB_FLOAT("Vs");
    r.payload.Density = VMDB_FLOAT("Density");
    r.payload.Qp = VMDB_FLOAT("Qp");
    r.payload.Qs = VMDB_FLOAT("Qs");
    r.payload.DepthFreeSurf = VMDB_FLOAT("DepthFreeSurf");
    r.payload.FaultBlock = vs_short("FaultBlock");
    r.payload.Zone = vs_short("Zone");
#ifdef VMDB_EXTRA
    VMDB_EXTRA(r);
#endif
    if (!g_anyblock) vs_assume(r.payload.FaultBlock != 0);
  }
  for (int i = 0; i < ep->n; ++i)
    vs_assume(vm_consistent(ep->rec[i], r));
  ++ep->n;
  return r;
}

extern "C" {
etree_t* etree_open(const char* path, int32_t flags, int32_t bufsize, int32_t, int32_t) {
  const int w = strcmp(path, g_name[1]) == 0 && strcmp(path, g_name[0]) != 0 ? 1 : 0;
  vs_assert(strcmp(path, g_name[w]) == 0, "opens only the named databases");
  vs_assert((flags & 3) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "queries open databases read-only");
  if (g_openfail[w]) return 0;
  vs_assert(!g_db[w].open, "a database is opened once");
  ++g_opened[w];
  g_opensize[w] = bufsize;
  g_db[w].which = w;
  g_db[w].open = true;
  return &g_db[w];
}
int etree_close(etree_t* ep) {
  vs_assert(ep->open, "a database is closed once");
  ep->open = false;
  ++g_closed[ep->which];
  return g_closefail[ep->which] ? -1 : 0;
}
int etree_search(etree_t* ep, etree_addr_t addr, etree_addr_t* hit, const char* field, void* payload) {
  vs_assert(ep != 0 && ep->open, "searches go to an open database");
  vs_assert(strcmp(field, "*") == 0, "whole payload requested");
  ++ep->searches;
  const DbRecord& r = vm_lookup(ep, addr);
  if (!r.found) return -1;
  if (hit) *hit = r.hit;
  memcpy(payload, &r.payload, sizeof(PayloadStruct));
  return 0;
}
char* etree_straddr(etree_t*, char* buf, etree_addr_t) { strcpy(buf, "[addr]"); return buf; }
int etree_errno(etree_t*) { return 1; }
const char* etree_strerror(int) { return "etree failure"; }
}

class SymGeom : public cencalvm::storage::Geometry {
public:
  Geometry* clone(void) const { return new SymGeom; }
  int lonLatElevToAddr(etree_addr_t* a, const double lon, const double lat, const double elev) {
    if (!g_empty && !g_inside && vs_split(vs_uf_b("outside", lon, lat, elev))) {
      a->x = a->y = a->z = -1; a->t = 0;
      return 1;
    }
    const unsigned m = vm_mask(a->level) & 0x7fffffffu;
    a->x = vs_uf_u("tick_x", lon, lat, 0.0) & m;
    a->y = vs_uf_u("tick_y", lon, lat, 0.0) & m;
    a->z = vs_uf_u("tick_z", elev, 0.0, 0.0) & m;
    a->t = 0;
    return 0;
  }
  void addrToLonLatElev(double* lon, double* lat, double* elev, etree_addr_t* a) {
    *lon = vs_uf_d("cent_lon", a->x, a->y, a->level);
    *lat = vs_uf_d("cent_lat", a->x, a->y, a->level);
    *elev = vs_uf_d("cent_elev", a->z, a->level, 0.0);
#ifdef VMDB_PHYSICAL
    vs_assume(vs_and(*elev < 1e7, *elev > -1e7));
#endif
  }
  double edgeLen(const etree_tick_t level) {
#ifdef VMDB_CONCRETE_LEVELS
    return 1024.0 / (1u << level);
#else
    const double e = vs_uf_d("edge", level, 0.0, 0.0);
    vs_assume(vs_and(e > 1.0, e < 1e9));
    return e;
#endif
  }
  int level(const double res) {
    unsigned l = vs_uf_u("level", res, 0.0, 0.0);
    vs_assume(l <= 31u);
    return (int) l;
  }
  double vertExag(void) { return VMDB_VERTEXAG; }
  cencalvm::storage::Projector* projector(void) { return 0; }
  const char* metadata(void) { return "symbolic"; }
};

static bool vm_isnodata(const double* v) {   // 8 payload values in order
  bool ok = true;
  for (int i = 0; i < 6; ++i) ok = vs_and(ok, v[i] == -999.0);
  return vs_and(ok, vs_and(v[6] == 0.0, v[7] == 0.0));
}
static bool vm_ispayload(const double* v, const PayloadStruct& p) {
  bool ok = vs_same_d(v[0], p.Vp);
  ok = vs_and(ok, vs_same_d(v[1], p.Vs));
  ok = vs_and(ok, vs_same_d(v[2], p.Density));
  ok = vs_and(ok, vs_same_d(v[3], p.Qp));
  ok = vs_and(ok, vs_same_d(v[4], p.Qs));
  ok = vs_and(ok, vs_same_d(v[5], p.DepthFreeSurf));
  ok = vs_and(ok, vs_same_d(v[6], p.FaultBlock));
  return vs_and(ok, vs_same_d(v[7], p.Zone));
}
static const char* VM_NAMES[9] = { "Vp", "Vs", "Density", "Qp", "Qs", "DepthFreeSurf", "FaultBlock", "Zone", "elevation" };
#endif
