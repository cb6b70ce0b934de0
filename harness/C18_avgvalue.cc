// C18: an interior octant holds the mean of its solid (else water) children.
#include "vs.h"
#define MEMDB_MAX 24
#include "memdb.h"
#include <math.h>
#include "cencalvm/average/AvgEngine.h"

static float bounded(const char* name) {
  const float v = vs_ffloat(name);
  vs_assume(vs_and(v < 1e5f, v > -1e5f));
  return v;
}
// one of solid, water, no data
static PayloadStruct child(int kind) {
  PayloadStruct p;
  p.Vp = bounded("Vp");
  p.Vs = bounded("Vs");
  p.Density = bounded("Density");
  p.Qp = bounded("Qp");
  p.Qs = bounded("Qs");
  p.DepthFreeSurf = bounded("DepthFreeSurf");
  p.FaultBlock = vs_short("FaultBlock");
  p.Zone = vs_short("Zone");
  // smallest step of stored data: averages of solid values stay solid
  if (kind == 0) vs_assume(p.Vs >= 1e-6f);
  else if (kind == 1) vs_assume(vs_and(p.Vs <= 0.0f, p.Vp >= 1e-6f));
  else vs_assume(vs_and(p.Vs <= 0.0f, p.Vp <= 0.0f));
  return p;
}
struct Mean {
  double v[6];
  int n, kind;     // kind: 0 solid, 1 water, 2 none
};
static void get(const PayloadStruct& p, double* v) {
  v[0] = p.Vp; v[1] = p.Vs; v[2] = p.Density; v[3] = p.Qp; v[4] = p.Qs; v[5] = p.DepthFreeSurf;
}
static void add(Mean& m, const double* v, int kind) {
  if (kind > m.kind || kind == 2) return;
  if (kind < m.kind) {
    m.kind = kind; m.n = 0;
    for (int i = 0; i < 6; ++i) m.v[i] = 0.0;
  }
  ++m.n;
  for (int i = 0; i < 6; ++i) m.v[i] += v[i];
}
static void done(Mean& m) {
  for (int i = 0; i < 6; ++i) {
    m.v[i] = m.n ? m.v[i] / m.n : -999.0;
  }
}
static const char* const NAME[6] = {"mean Vp", "mean Vs", "mean density", "mean Qp", "mean Qs", "mean depth"};
static void check(const PayloadStruct& p, const Mean& m) {
  double v[6];
  get(p, v);
  for (int i = 0; i < 6; ++i) {
    if (m.kind == 2) vs_assert(v[i] == -999.0, "no data below: no data");
    else vs_assert_close(v[i], m.v[i], 0.1, 0.0, NAME[i]);
  }
  vs_assert(p.FaultBlock == -999 && p.Zone == -999, "marked as averaged");
}
static void leaf(MemFile* f, unsigned x, unsigned y, unsigned z, int level, const PayloadStruct& p) {
  Rec& r = f->rec[f->n++];
  r.addr.x = x; r.addr.y = y; r.addr.z = z; r.addr.t = 0; r.addr.level = level; r.addr.type = ETREE_LEAF;
  r.pay = p;
}

extern "C" void vs_main() {
  MemFile* in = mem_file("in");
  in->exists = true;
  in->n = 0;
  const int maxkids = VS_TIER ? 6 : 4;
  const int shape = vs_choice("shape", 4);
  // kinds of the children of the root, in order; one may be subdivided
  int n, sub = -1, subn = 0, sub2 = -1, subn2 = 0, kind[8], skind[8], skind2[8];
  if (shape == 0) {            // any few children
    n = 1 + vs_choice("n", maxkids);
    for (int i = 0; i < n; ++i) kind[i] = vs_choice("kind", 3);
    vs_cover("few children");
  } else if (shape == 1) {     // all eight: one kind, with one or two exceptions anywhere
    n = 8;
    const int most = vs_choice("most", 3);
    const int other = vs_choice("other", 3);
    const int at = vs_choice("at", 8);
    for (int i = 0; i < n; ++i) kind[i] = i == at ? other : most;
    vs_cover("eight children");
  } else if (shape == 3) {     // two averages after one another
    n = 2; sub = 0; sub2 = 1;
    subn = vs_flip("full") ? 8 : 1;
    subn2 = 1 + vs_choice("subn2", 2);
    for (int i = 0; i < n; ++i) kind[i] = 2;
    const int k0 = vs_choice("skind", 3);
    for (int i = 0; i < subn; ++i) skind[i] = k0;
    for (int i = 0; i < subn2; ++i) skind2[i] = vs_choice("skind2", 3);
    vs_cover("two averages");
  } else {                     // a child that is itself an average
    n = 3;
    sub = vs_choice("sub", 3);
    subn = 1 + vs_choice("subn", 2);
    for (int i = 0; i < n; ++i) kind[i] = i == sub ? 2 : vs_choice("kind", 3);
    for (int i = 0; i < subn; ++i) skind[i] = vs_choice("skind", 3);
    vs_cover("average of averages");
  }
  Mean root, inner, inner2;
  root.kind = inner.kind = inner2.kind = 2;
  root.n = inner.n = inner2.n = 0;
  PayloadStruct pay[8], spay[8];
  const unsigned half = 0x40000000u, quarter = 0x20000000u;
  for (int i = 0; i < n; ++i) {
    // which child of the root: spread over the eight places
    const int k = shape == 0 ? (n <= 4 ? 2 * i + (i & 1) : i) : i;
    const unsigned x = (k & 1) ? half : 0, y = (k & 2) ? half : 0, z = (k & 4) ? half : 0;
    if (i == sub || i == sub2) {
      Mean& m = i == sub ? inner : inner2;
      const int* const sk = i == sub ? skind : skind2;
      const int sn = i == sub ? subn : subn2;
      for (int j = 0; j < sn; ++j) {
        spay[j] = child(sk[j]);
        leaf(in, x + ((j & 1) ? quarter : 0), y + ((j & 2) ? quarter : 0), z + ((j & 4) ? quarter : 0), 2, spay[j]);
        double v[6];
        get(spay[j], v);
        add(m, v, sk[j]);
      }
      done(m);
      add(root, m.v, m.kind);
    } else {
      pay[i] = child(kind[i]);
      leaf(in, x, y, z, 1, pay[i]);
      double v[6];
      get(pay[i], v);
      add(root, v, kind[i]);
    }
  }
  done(root);
  MemFile* out = mem_file("out");
  etree_t* hin = etree_open("in", O_RDONLY, 64, sizeof(PayloadStruct), 3);
  etree_t* hout = etree_open("out", O_CREAT | O_TRUNC | O_RDWR, 64, sizeof(PayloadStruct), 3);
  {
    cencalvm::average::AvgEngine e(hout, hin);
    e.fillOctants();
  }
  int seen = 0;
  for (int i = 0; i < out->n; ++i) {
    const Rec& r = out->rec[i];
    if (r.addr.type != ETREE_INTERIOR) continue;
    ++seen;
    if (r.addr.level == 0) check(r.pay, root);
    else if (sub2 >= 0 && r.addr.x == half) check(r.pay, inner2);
    else check(r.pay, inner);
  }
  vs_assert(seen == 1 + (sub >= 0) + (sub2 >= 0), "every interior octant is there");
}
