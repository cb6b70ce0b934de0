// C20: every point of a grid file that lies in a fault block and zone becomes
// one leaf octant at its own address with its own values in SI units.
#define MEMDB_MAX 24
#include "ingest.h"
#define NPTS (VS_TIER ? 3 : 2)
static double g_off = 0.0;
static const char* const GRID = "grid";
struct Point { double lon, lat, elev; float v[6]; int block, zone, vol; bool used; };
static Point g_pt[NPTS + 1];

static void writepoint(Point& p) {
  vs_file_num(GRID, p.lon); vs_file_text(GRID, " ");
  vs_file_num(GRID, p.lat); vs_file_text(GRID, "  ");
  vs_file_num(GRID, p.elev); vs_file_text(GRID, " ");
  for (int k = 0; k < 6; ++k) { vs_file_numf(GRID, p.v[k]); vs_file_text(GRID, " "); }
  vs_file_int(GRID, p.block); vs_file_text(GRID, " ");
  vs_file_int(GRID, p.zone); vs_file_text(GRID, " ");
  vs_file_int(GRID, p.vol); vs_file_text(GRID, "\n");
}
static void point(Point& p, bool nodata) {
  p.lon = vs_fdouble("lon"); p.lat = vs_fdouble("lat"); p.elev = vs_fdouble("elev");
  vs_assume(vs_and(p.elev > -900.0, p.elev < 900.0));
  static const char* const names[6] = {"Vp", "Vs", "Density", "Qp", "Qs", "Depth"};
  for (int k = 0; k < 6; ++k) {
    p.v[k] = vs_ffloat(names[k]);
    vs_assume(vs_and(p.v[k] >= -1.0e9f, p.v[k] <= 1.0e9f));
    if (!nodata) vs_assume(p.v[k] != -999.0f);
  }
  // 0: not in any fault block, zone
  const int kind = nodata ? 0 : vs_choice("kind", 4);
  p.block = (kind & 1) ? 0 : vs_range("block", -32768, 32767);
  p.zone = (kind & 2) ? 0 : vs_range("zone", -32768, 32767);
  if (!(kind & 1)) vs_assume(p.block != 0);
  if (!(kind & 2)) vs_assume(p.zone != 0);
  p.vol = vs_int("vol");
  p.used = kind == 0;
}
static float si(float v) { return (float) (v * 1.0e3); }

extern "C" void vs_main() {
  MemFile* tmp = mem_file("tmp.etree");
  MemFile* out = mem_file("out.etree");
  static const int level3[] = {9, 15, 3};
  const int level = VS_TIER ? vs_choice("level", 16) : level3[vs_choice("level", 3)];
  const bool few = level != 9 && !VS_TIER;   // other levels: only complete grids
  const double edge = 1638400.0 / (double) (1u << level);
  // header
  const int header = few ? vs_choice("header", 2) : vs_choice("header", 4);
  bool badheader = false;
  if (header == 0) {
    vs_file_num(GRID, edge / 1000.0); vs_file_text(GRID, " "); vs_file_num(GRID, edge / 4000.0);
  } else if (header == 1) {          // any resolutions
    const double e = edge / 1000.0;
    const int off = vs_choice("off", 3);
    double h = e, v = e / 4.0;
    // bands around the tolerance of 1e-6 are left open
    if (off == 0) {
      h = e * (1.0 + 5e-7); v = e / 4.0 * (1.0 - 4e-7);
    } else if (off == 1) {           // not the geometry's vertical exaggeration
      v = vs_fdouble("resVert");
      vs_assume(vs_or(4.0 * v <= h * (1.0 - 1.1e-6), 4.0 * v >= h * (1.0 + 1.1e-6)));
      vs_assume(vs_and(v > 1e-3 * e, v < 1e3 * e));
    } else {                         // not the resolution of a level
      h = vs_fdouble("resHoriz"); v = 0.25 * h;
      vs_assume(vs_or(h <= e * (1.0 - 1.1e-6), h >= e * (1.0 + 1.1e-6)));
      vs_assume(vs_and(h > e * 0.71, h < e * 1.41));
      g_off = h;
    }
    badheader = off != 0;
    vs_file_num(GRID, h); vs_file_text(GRID, "\t"); vs_file_num(GRID, v);
  } else if (header == 2) {          // no usable resolution
    badheader = true;
    static const char* const bad[] = {"0.0 0.0", "0.1 0.0", "0.0 0.1", "-0.4 -0.1", "x 0.1", "0.4 x"};
    vs_file_text(GRID, bad[vs_choice("bad", 6)]);
  } else {                           // header stops early
    badheader = true;
    vs_file_num(GRID, edge / 1000.0);
    const int have = 1 + vs_choice("have", 5);
    if (have > 1) { vs_file_text(GRID, " "); vs_file_num(GRID, edge / 4000.0); }
    for (int k = 2; k < have; ++k) vs_file_text(GRID, " 7");
  }
  int n = 0, total = 0, used = 0, nodata = -1;
  bool baddata = false;
  if (header == 3) {
    vs_file_text(GRID, "\n");
  } else {
    total = header == 0 && !few ? 1 + vs_choice("points", NPTS) : 1;
    vs_file_text(GRID, "  7 7 7 ");
    vs_file_int(GRID, total);
    vs_file_text(GRID, "\n");
    const int data = header || few ? 0 : vs_choice("data", 3);
    nodata = header || few ? -1 : vs_choice("nodata", total + 1) - 1;
    n = data == 0 ? total : total - 1;
    for (int i = 0; i < n; ++i) {
      point(g_pt[i], i == nodata);
      if (g_pt[i].used) ++used;
      writepoint(g_pt[i]);
    }
    if (data == 1) {                 // last line missing or cut short
      baddata = true;
      const int have = vs_choice("have", 12);
      for (int k = 0; k < have; ++k) vs_file_text(GRID, k < 11 ? "1 " : "1");
      if (vs_flip("newline")) vs_file_text(GRID, "\n");
    } else if (data == 2) {          // a word where a number belongs
      baddata = true;
      const int at = vs_choice("at", 12);
      for (int k = 0; k < 12; ++k) vs_file_text(GRID, k == at ? "n/a " : "1 ");
      vs_file_text(GRID, "\n");
    }
  }
  g_outside = !badheader && !baddata && nodata < 0 && vs_flip("mayoutside");
  const bool quiet = total < 2 && vs_flip("quiet");
  // a good grid with one point comes first
  if (g_off != 0.0) { g_level = level; g_res = g_off * 1000.0; }
  vs_file_num("first", edge / 1000.0); vs_file_text("first", " "); vs_file_num("first", edge / 4000.0);
  vs_file_text("first", " 1 1 1 1\n1.0 2.0 3.0 4.0 5.0 6.0 7.0 8.0 9.0 10 11 12\n");
  vs_file_text("params", vs_path("first"));
  vs_file_text("params", "\n");
  vs_file_text("params", vs_path(GRID));
  vs_file_text("params", "\n");

  AnyGeom geom;
  g_ing = new cencalvm::create::GridIngester;
  g_ing->filenameParams(vs_path("params"));
  g_ing->filenameTmp("tmp.etree");
  g_ing->filenameOut("out.etree");
  g_ing->description("a model");
  g_ing->geometry(&geom);
  g_ing->quiet(quiet);
  const int r = vs_call(run, 0);
  vs_assert(r <= 1, "only standard exceptions, no termination");
  bool outside = false;
  for (int i = 0; i < g_nasked; ++i) outside = outside || !g_asked[i].ok;
  if (badheader) vs_assert(r == 1, "unusable header is an error");
  if (baddata) vs_assert(r == 1, "a missing, incomplete or malformed line is an error");
  if (outside) vs_assert(r == 1, "a point outside the model domain is an error");
  if (!badheader && !baddata && !outside) vs_assert(r == 0, "a good grid is ingested");
  vs_assert(tmp->n > 0 && g_nasked > 0 && vs_and(tmp->rec[0].pay.Vp == 4000.0f, tmp->rec[0].pay.Zone == 11), "points of an earlier grid are stored");
  vs_assert(tmp->n - 1 <= used, "nothing but the points of the grid is stored");
  if (badheader) vs_assert(tmp->n == 1, "nothing is stored with an unusable header");
  int k = 1;
  for (int i = 0; i < n && k < tmp->n; ++i) {
    const Point& p = g_pt[i];
    if (!p.used) continue;
    const Rec& rec = tmp->rec[k];
    const Asked& q = g_asked[k];
    ++k;
    vs_assert(q.lon == p.lon, "address of the point's longitude");
    vs_assert(q.lat == p.lat, "address of the point's latitude");
    vs_assert_close(q.elev, p.elev * 1.0e3, 1e-9, 1e-12, "address of the point's elevation in meters");
    vs_assert(q.ok, "a point outside the domain is not stored");
    vs_assert(mem_sameaddr(rec.addr, q.addr), "stored at the address of the point");
    vs_assert(rec.addr.level == level, "stored at the level of the grid's resolution");
    vs_assert(rec.addr.type == ETREE_LEAF, "stored as a leaf");
    const float got[6] = {rec.pay.Vp, rec.pay.Vs, rec.pay.Density, rec.pay.Qp, rec.pay.Qs, rec.pay.DepthFreeSurf};
    static const char* const label[6] = {"Vp in m/s", "Vs in m/s", "density in kg/m^3", "Qp unchanged", "Qs unchanged", "depth in m"};
    for (int j = 0; j < 6; ++j) {
      if (j == 3 || j == 4) vs_assert(got[j] == p.v[j], label[j]);
      else {
        const bool none = vs_split(p.v[j] == -999.0f);
        if (none) vs_assert(got[j] == -999.0f, "no-data value kept");
        else vs_assert_close(got[j], p.v[j] * 1.0e3, 1e-30, 1e-7, label[j]);
      }
    }
    vs_assert(rec.pay.FaultBlock == p.block, "fault block unchanged");
    vs_assert(rec.pay.Zone == p.zone, "zone unchanged");
  }
  if (r == 0) {
    vs_assert(tmp->n == used + 1, "every point of the grid is stored once");
    vs_assert(out->n == used + 1, "every point is in the packed database");
    for (int i = 0; i <= used; ++i)
      vs_assert(vs_and(mem_sameaddr(out->rec[i].addr, tmp->rec[i].addr), mem_same(out->rec[i].pay, tmp->rec[i].pay)), "packed point is the stored point");
    vs_assert(mem_open_handles() == 0, "databases are closed");
    if (!quiet) {
      char line[80];
      snprintf(line, sizeof line, "# points added: %d,  # points ignored: %d", used, n - used);
      vs_assert(vs_out_find("<stdout>", line) == (used == 1 && n == 1 ? 2 : 1), "counts of points are reported");
    } else {
      vs_assert(vs_out_size("<stdout>") == 0, "quiet means no progress reports");
    }
    if (n > used) vs_cover("points ignored");
    vs_cover("ingested");
  } else {
    vs_assert(vs_what() && vs_what()[0], "failure has a message");
    vs_cover("refused");
  }
  if (outside) vs_cover("outside");
  delete g_ing;
}
