// Environment: the PROJ library.  A transformation maps a coordinate pair to
// an arbitrary (functionally consistent) pair or fails; a failure sets the
// sticky error number of the handle, which only proj_errno_reset clears.
#ifndef PROJ_MOCK_H
#define PROJ_MOCK_H
#include "vs.h"
#include <proj.h>
#include <math.h>
#include <string>
struct PJconsts { int err; bool alive; };
static int g_pj_live = 0, g_pj_created = 0, g_pj_trans = 0;
static bool g_pj_createfail = false;
static bool g_pj_failing = true;            // transformations may fail
static std::string* g_pj_args = 0;
#ifndef PROJ_FWD
#define PROJ_FWD pj_uf_fwd
#define PROJ_INV pj_uf_inv
static void pj_uf_fwd(double a, double b, double* x, double* y) {
  *x = vs_uf_d("proj_x", a, b, 0.0);
  *y = vs_uf_d("proj_y", a, b, 0.0);
}
static void pj_uf_inv(double a, double b, double* x, double* y) {
  *x = vs_uf_d("proj_lon", a, b, 0.0);
  *y = vs_uf_d("proj_lat", a, b, 0.0);
}
#endif
extern "C" {
PJ* proj_create(PJ_CONTEXT*, const char* args) {
  ++g_pj_created;
  if (!g_pj_args) g_pj_args = new std::string;
  *g_pj_args = args;
  if (g_pj_createfail) return 0;
  PJ* p = new PJ;
  p->err = 0; p->alive = true;
  ++g_pj_live;
  return p;
}
PJ* proj_destroy(PJ* p) {
  if (p) {
    vs_assert(p->alive, "projection destroyed once");
    p->alive = false;
    --g_pj_live;
    delete p;
  }
  return 0;
}
int proj_errno(const PJ* p) { return p ? p->err : 1027; }
int proj_errno_reset(const PJ* p) { int e = p->err; const_cast<PJ*>(p)->err = 0; return e; }
int proj_errno_set(const PJ* p, int e) { const_cast<PJ*>(p)->err = e; return e; }
int proj_context_errno(PJ_CONTEXT*) { return 1027; }
const char* proj_errno_string(int) { return "projection failure"; }
const char* proj_context_errno_string(PJ_CONTEXT*, int) { return "projection failure"; }
double proj_torad(double d) { return d * 0.017453292519943295; }
double proj_todeg(double r) { return r * 57.295779513082320; }
PJ_COORD proj_coord(double x, double y, double z, double t) {
  PJ_COORD c;
  c.xyzt.x = x; c.xyzt.y = y; c.xyzt.z = z; c.xyzt.t = t;
  return c;
}
PJ_COORD proj_trans(PJ* p, PJ_DIRECTION dir, PJ_COORD c) {
  ++g_pj_trans;
  vs_assert(p != 0 && p->alive, "projection handle is usable");
  vs_assert(dir == PJ_FWD || dir == PJ_INV, "forward or inverse");
  PJ_COORD r;
  r.xyzt.z = c.xyzt.z; r.xyzt.t = c.xyzt.t;
  if (g_pj_failing && vs_split(vs_uf_b(dir == PJ_FWD ? "fwd_fails" : "inv_fails", c.xyzt.x, c.xyzt.y, 0.0))) {
    p->err = 2049;
    r.xyzt.x = r.xyzt.y = r.xyzt.z = r.xyzt.t = HUGE_VAL;
    return r;
  }
  double x, y;
  if (dir == PJ_FWD) PROJ_FWD(c.xyzt.x, c.xyzt.y, &x, &y);
  else PROJ_INV(c.xyzt.x, c.xyzt.y, &x, &y);
  r.xyzt.x = x; r.xyzt.y = y;
  return r;
}
}
#endif
