// C14: octant level and edge length are consistent inverses.
#include "vs.h"
#include "proj_mock.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Geometry.h"
#include "cencalvm/storage/GeomCenCA.h"
using cencalvm::storage::GeomCenCA;
static const double SQRT2 = 1.4142135623730951;

extern "C" void vs_main() {
  g_pj_failing = false;
  GeomCenCA g;
  vs_assert(g.vertExag() == 4.0, "vertical exaggeration");
  const int level = vs_choice("level", 32);
  const double edge = 1638400.0 / (double) (1u << level);
  vs_assert(g.edgeLen(level) == edge, "edge length of the level");
  vs_assert(g.level(edge) == level, "level of exactly an edge length");
  if (level < 31) vs_assert(g.edgeLen(level + 1) == 0.5 * edge, "edge length halves with every level");
  // any resolution nearer to this level's edge length than to any other's
  const double res = vs_fdouble("res");
  const double lo = edge / SQRT2 * (1.0 + 1e-9), hi = edge * SQRT2 * (1.0 - 1e-9);
  vs_assume(res > lo);
  vs_assume(res < hi);
  const int got = g.level(res);
  vs_observe_i("level", got);
  vs_assert(got == level, "nearest level of a resolution");
}
