// C17: averaging copies every leaf and creates every ancestor once, in order.
#include "vs.h"
#define MEMDB_MAX 64
#include "memdb.h"
#include "cencalvm/average/AvgEngine.h"

#ifndef MAXLEVEL
#define MAXLEVEL (VS_TIER ? 4 : 3)
#endif
#define NLEAF (VS_TIER ? 4 : 3)

static etree_addr_t g_leaf[32];
static int g_com[32];     // level of the deepest common ancestor with the leaf before
static int g_n = 0;

// The engine counts incomplete octants by the set of children they have; to
// keep that from splitting every path at every level, all octants lie in the
// upper x half of their parent unless g_free.
static bool g_free = false;
static unsigned up(int level) { return level ? mem_mask(level) : 0u; }
// add a leaf behind the last one; com: level of their deepest common ancestor
static void add(int level, int com) {
  etree_addr_t a;
  mem_octant(&a, level);
  if (!g_free) { vs_assume(a.x == up(level)); a.x = up(level); }
  if (g_n > 0) {
    const etree_addr_t& b = g_leaf[g_n - 1];
    const unsigned m = com ? mem_mask(com) : 0u, bit = 0x40000000u >> com;
    vs_assume(vs_and(((a.x ^ b.x) & m) == 0, vs_and(((a.y ^ b.y) & m) == 0, ((a.z ^ b.z) & m) == 0)));
    // later in Z-order at the level below
    const unsigned s = 30 - com;
    const unsigned ia = ((a.x & bit) >> s) | ((a.y & bit) >> s) << 1 | ((a.z & bit) >> s) << 2;
    const unsigned ib = ((b.x & bit) >> s) | ((b.y & bit) >> s) << 1 | ((b.z & bit) >> s) << 2;
    vs_assume(ia > ib);
  }
  g_com[g_n] = g_n ? com : -1;
  g_leaf[g_n++] = a;
}
// all eight children (leaves) of octant p; the deepest common ancestor with the leaf before is com
static void family(const etree_addr_t& p, int com, bool deep) {
  const unsigned bit = 0x40000000u >> p.level;
  for (int k = 0; k < 8; ++k) {
    etree_addr_t a = p;
    a.level = p.level + 1;
    a.x |= (k & 1) ? bit : 0;
    a.y |= (k & 2) ? bit : 0;
    a.z |= (k & 4) ? bit : 0;
    if (deep && k == 7) {
      family(a, p.level, false);
    } else {
      g_com[g_n] = k ? p.level : com;
      g_leaf[g_n++] = a;
    }
  }
}

extern "C" void vs_main() {
  MemFile* in = mem_file("in");
  const int shape = vs_choice("shape", 4);
  if (shape == 0) {          // any few leaves
    const int n = 1 + vs_choice("n", NLEAF);
    g_free = n < NLEAF;
    int level = 0;
    for (int i = 0; i < n; ++i) {
      const int l = 1 + vs_choice("level", MAXLEVEL);
      const int top = i == 0 ? 1 : (l < level ? l : level);
      add(l, vs_choice("common", top));
      level = l;
    }
    vs_cover("any leaves");
  } else if (shape == 1) {   // complete families
    etree_addr_t p;
    const int level = vs_choice("plevel", 3);
    mem_octant(&p, level);
    vs_assume(p.x == up(level)); p.x = up(level);
    p.type = ETREE_LEAF;
    family(p, -1, vs_flip("deep"));
    if (level > 0 && vs_flip("more")) {
      // one more leaf outside the family
      const int l = 1 + vs_choice("level", MAXLEVEL);
      const int top = l < level ? l : level;
      add(l, vs_choice("common", top));
    }
    vs_cover("complete family");
  } else if (shape == 3) {   // the root octant alone
    mem_octant(&g_leaf[0], 0);
    g_com[0] = -1;
    g_n = 1;
    vs_cover("root leaf");
  } else {                   // deepest level of the tree
    const int l = vs_flip("deepest") ? 31 : 30;
    add(l, 0);
    if (vs_flip("two")) {
      const int l2 = vs_flip("deepest") ? 31 : 29;
      add(l2, vs_flip("near") ? 28 : 0);
    }
    vs_cover("deepest levels");
  }
  for (int i = 0; i < g_n; ++i) {
    in->rec[i].addr = g_leaf[i];
    in->rec[i].pay = mem_payload();
    in->rec[i].pay.Vs = 1.0f + i;   // solid; the other kinds are C18's
  }
  in->n = g_n;
  in->exists = true;
  MemFile* out = mem_file("out");
  etree_t* hin = etree_open("in", O_RDONLY, 64, sizeof(PayloadStruct), 3);
  etree_t* hout = etree_open("out", O_CREAT | O_TRUNC | O_RDWR, 64, sizeof(PayloadStruct), 3);
  {
    cencalvm::average::AvgEngine e(hout, hin);
    e.fillOctants();
    e.printOctantInfo();
  }
  vs_assert(!hout->appending, "append transaction is ended");
  vs_assert(hin->open && hout->open, "engine leaves the databases open");
  // expected sequence
  int k = 0, interior = 0;
  for (int i = 0; i < g_n; ++i) {
    for (int l = g_com[i] + 1; l < g_leaf[i].level; ++l, ++k) {
      ++interior;
      vs_assert(k < out->n, "every ancestor is written");
      etree_addr_t a = g_leaf[i];
      const unsigned m = l ? mem_mask(l) : 0u;
      a.x &= m; a.y &= m; a.z &= m; a.level = l;
      vs_assert(mem_sameaddr(a, out->rec[k].addr), "ancestor address in storage order");
      vs_assert(out->rec[k].addr.type == ETREE_INTERIOR, "ancestor is an interior octant");
      vs_assert(out->rec[k].updates > 0, "ancestor receives its mean");
      vs_assert(out->rec[k].pay.FaultBlock == -999 && out->rec[k].pay.Zone == -999, "ancestor is marked as averaged");
    }
    vs_assert(k < out->n, "every leaf is written");
    vs_assert(mem_sameaddr(g_leaf[i], out->rec[k].addr), "leaf address in storage order");
    vs_assert(out->rec[k].addr.type == ETREE_LEAF, "leaf stays a leaf");
    vs_assert(mem_same(in->rec[i].pay, out->rec[k].pay), "leaf values unchanged");
    vs_assert(out->rec[k].updates == 0, "leaf is never updated");
    ++k;
  }
  vs_assert(out->n == k, "nothing else is written");
  // summary
  double v = 0;
  int prec = 0;
  vs_out_rewind("<stdout>");
  vs_assert(vs_out_nextnum("<stdout>", &v, &prec) && v == g_n, "number of octants read");
  vs_assert(vs_out_nextnum("<stdout>", &v, &prec) && v == k, "number of octants written");
  vs_assert(vs_out_nextnum("<stdout>", &v, &prec) && v == interior, "number of interior octants");
}
