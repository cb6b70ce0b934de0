// C15: projections pass the map projection's result through and fail loudly.
#include <string>
#include "vs.h"
#include "proj_mock.h"
#include "cencalvm/storage/Projector.h"
using cencalvm::storage::Projector;
#if VS_TIER
#define STEPS 5
#else
#define STEPS 3
#endif
static const double TORAD = 0.017453292519943295, TODEG = 57.295779513082320;
struct Job { const Projector* p; bool inv; double a, b, *x, *y; };
static void run(void* v) {
  Job* j = (Job*) v;
  if (j->inv) j->p->invProject(j->x, j->y, j->a, j->b);
  else j->p->project(j->x, j->y, j->a, j->b);
}
static Projector* g_made = 0;
static void create(void*) { g_made = new Projector; }
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

extern "C" void vs_main() {
  if (vs_flip("no_projection")) {
    g_pj_createfail = true;
    const int r = vs_call(create, 0);
    vs_assert(r == 1, "no projection: an exception");
    vs_assert(has(vs_what(), "projection"), "no projection: its message");
    vs_assert(g_pj_live == 0, "no projection: nothing left behind");
    return;
  }
  vs_assert(vs_call(create, 0) == 0, "projection created");
  const std::string args = *g_pj_args;
  vs_assert(has(args, "+proj=tmerc"), "transverse Mercator");
  vs_assert(has(args, "+lon_0=-123 ") || has(args, "+lon_0=-123.0"), "central meridian");
  vs_assert(has(args, "+lat_0=35 ") || has(args, "+lat_0=35.0"), "latitude of origin");
  vs_assert(has(args, "+k=0.9996") || has(args, "+k_0=0.9996"), "scale factor");
  vs_assert(has(args, "+datum=NAD83"), "datum");
  vs_assert(has(args, "+units=m"), "metres");
  const int n = 1 + vs_choice("steps", STEPS);
  for (int i = 0; i < n; ++i) {
    Job j;
    double x = 12345.0, y = 54321.0;
    j.p = g_made;
    j.inv = vs_flip("inverse");
    j.a = vs_fdouble("a");
    j.b = vs_fdouble("b");
    j.x = &x;
    j.y = &y;
    const double a = j.inv ? j.a : TORAD * j.a, b = j.inv ? j.b : TORAD * j.b;
    const bool fails = vs_split(vs_uf_b(j.inv ? "inv_fails" : "fwd_fails", a, b, 0.0));
    const int before = g_pj_trans;
    const int r = vs_call(run, &j);
    vs_assert(g_pj_trans > before, "the map projection is asked");
    if (fails) {
      vs_assert(r == 1, "a failing projection throws");
      vs_assert(has(vs_what(), "projection failure"), "the exception says why");
      vs_assert(x == 12345.0 && y == 54321.0, "a failing projection returns nothing");
    } else {
      vs_assert(r == 0, "a good location is projected, whatever happened before");
      double ex, ey;
      if (j.inv) {
        PROJ_INV(a, b, &ex, &ey);
        ex *= TODEG; ey *= TODEG;
      } else
        PROJ_FWD(a, b, &ex, &ey);
      vs_assert(vs_same_d(x, ex), "first coordinate is the projection's");
      vs_assert(vs_same_d(y, ey), "second coordinate is the projection's");
      vs_observe_d("x", x);
      vs_observe_d("y", y);
    }
  }
  delete g_made;
  vs_assert(g_pj_live == 0 && g_pj_created == 1, "projection released once");
}
