// C13: the ancestor of an octant is the octant of that level that contains it.
#include "vs.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Geometry.h"
using cencalvm::storage::Geometry;

extern "C" void vs_main() {
  etree_addr_t c, a;
  c.level = vs_range("level", 1, 31);
  c.x = vs_uint("x"); c.y = vs_uint("y"); c.z = vs_uint("z");
  c.t = 0;
  c.type = (etree_type_t) vs_ite_i(vs_bool("leaf"), ETREE_LEAF, ETREE_INTERIOR);
  const unsigned clen = 0x80000000u >> c.level;
  vs_assume(vs_and(c.x < 0x80000000u, vs_and(c.y < 0x80000000u, c.z < 0x80000000u)));
  const bool aligned = vs_and((c.x & (clen - 1)) == 0, vs_and((c.y & (clen - 1)) == 0, (c.z & (clen - 1)) == 0));
  vs_assume(aligned);
  const int level = vs_range("ancestor", 0, 30);
  vs_assume(level < c.level);
  a.x = a.y = a.z = 0xdeadbeefu; a.t = 99; a.level = 17; a.type = ETREE_LEAF;
  const etree_addr_t before = c;
  Geometry::findAncestor(&a, c, level);
  vs_assert(vs_and(vs_and(c.x == before.x, c.y == before.y), vs_and(c.z == before.z, c.level == before.level)), "child unchanged");
  vs_assert(a.level == level, "level of the ancestor");
  vs_assert(a.type == ETREE_INTERIOR, "an ancestor is an interior octant");
  vs_assert(a.t == 0, "time step zero");
  const unsigned len = 0x80000000u >> level;
  const unsigned A[3] = { a.x, a.y, a.z }, C[3] = { c.x, c.y, c.z };
  for (int i = 0; i < 3; ++i) {
    vs_assert((A[i] & (len - 1)) == 0, "aligned to the ancestor's size");
    vs_assert(vs_and(A[i] <= C[i], C[i] - A[i] <= len - clen), "contains the octant");
  }
  // ancestors of ancestors are ancestors
  const int mid = vs_range("between", 0, 30);
  if (vs_split(vs_and(mid > level, mid < c.level))) {
    etree_addr_t b, d;
    Geometry::findAncestor(&b, c, mid);
    Geometry::findAncestor(&d, b, level);
    vs_assert(vs_and(vs_and(a.x == d.x, a.y == d.y), vs_and(a.z == d.z, a.level == d.level)), "in one step or two");
  }
}
