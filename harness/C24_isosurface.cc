// C24: cencalvmisosurface finds where Vs reaches the target below the ground
// surface, and fails loudly.
#include "fakequery.h"
#include <math.h>
using cencalvm::query::VMQuery;
// the column at the first location: Vs does not decrease with depth
static double g_topo, g_surf, g_bottom, g_target;
static double g_e[64], g_v[64];
static int g_np = 0, g_open = 0, g_at = 0;
static bool g_shallow = false;   // the target is reached at the ground
static double profile(double e) {
  if (e > g_surf || e < g_bottom) return -999.0;
  for (int i = 0; i < g_np; ++i) if (g_e[i] == e) return g_v[i];
  vs_assert(g_np < 64, "few queries");
  if (g_shallow) return 3.0e38;
  const double v = (double) vs_ffloat("Vs");
  vs_assume(v > 0.0);
  int up = -1, down = -1;      // nearest elevations known
  for (int i = 0; i < g_np; ++i) {
    if (g_e[i] > e && (up < 0 || g_e[i] < g_e[up])) up = i;
    if (g_e[i] < e && (down < 0 || g_e[i] > g_e[down])) down = i;
  }
  if (up >= 0) vs_assume(v >= g_v[up]);
  if (down >= 0) vs_assume(v <= g_v[down]);
  g_e[g_np] = e;
  g_v[g_np++] = v;
  return v;
}
struct Loc { double lon, lat; };
static Loc g_loc[3];
static int g_n = 1, g_errat = -1, g_warned = 0;
static int answer(const int* what, double* vals, int n, double lon, double lat, double elev) {
  vs_assert(n == 1, "one value at a time");
  int i = 0;
  while (i < g_n && !vs_split(vs_and(lon == g_loc[i].lon, lat == g_loc[i].lat))) ++i;
  vs_assert(i < g_n, "only locations of the file are queried");
  vs_assert(i >= g_at, "locations are queried in order");
  if (i > g_at) g_at = i;
  if (fq::queries - 1 == g_errat) { vals[0] = -999.0; return 2; }
  if (what[0] == 8) { vals[0] = i ? 0.0 : g_topo; return 0; }
  vs_assert(what[0] == 1, "Vs or the ground surface is asked for");
  vals[0] = i ? (elev > 0.0 ? -999.0 : 3.0e38) : profile(elev);
  if (vals[0] < 0.0) { ++g_warned; return 1; }
  return 0;
}
static const char* tenth(double v) { char* b = new char[40]; snprintf(b, 40, "%.4f", v); return b; }

extern "C" void vs_main() {
  fq::answer = answer;
  const int mode = vs_choice("mode", 3);
  g_loc[0].lon = -120.0; g_loc[0].lat = 37.5;
  g_topo = 130.0; g_surf = g_topo; g_bottom = -1.0e5; g_target = 500.0;
  double elevmin = g_topo - 60.0;
  bool fail = false, usage = false, help = false;
  bool sopt = false, eopt = false, copt = false;
  double limit = 0.0;
  int cache = 128, wrong = -1;
  bool sq = false;
  if (mode == 0) {
    // squashed: elevations are relative to the ground
    sq = vs_flip("squashed");
    static const double width[] = {20.0, 25.0, 60.0, 800.0, 1600.0, 6000.0};
    const double w = width[vs_choice("width", VS_TIER ? 6 : 4)];
    if (vs_flip("deep")) g_topo = -2500.0;
    else if (sq && vs_flip("low")) g_topo = 100.5;
    elevmin = g_topo - w;
    g_surf = g_topo - 12.5 * vs_choice("stair", VS_TIER ? 4 : 2) + (vs_flip("above") ? 3.0 : 0.0);
    if (vs_flip("bottom")) g_bottom = elevmin + w * 0.375;
    if (sq) { g_surf -= g_topo; if (g_bottom > -1.0e5) g_bottom -= g_topo; }
    g_target = (double) vs_ffloat("target");
    vs_assume(vs_and(g_target > 0.0, g_target < 1.0e38));
  } else if (mode == 1) {
    // locations and options
    g_shallow = true;
    g_n = vs_choice("n", 3);
    for (int i = 0; i < g_n; ++i) {
      g_loc[i].lon = vs_fdouble("lon"); g_loc[i].lat = vs_fdouble("lat");
      vs_assume(vs_and(vs_and(g_loc[i].lon >= -180.0, g_loc[i].lon <= 180.0), vs_and(g_loc[i].lat >= 0.0, g_loc[i].lat <= 90.0)));
    }
    if (g_n == 2) vs_assume(vs_or(g_loc[0].lon != g_loc[1].lon, g_loc[0].lat != g_loc[1].lat));
    sopt = vs_flip("s"); eopt = vs_flip("e"); copt = vs_flip("c");
  } else {
    wrong = vs_choice("wrong", 12);
    help = wrong == 8;
    fail = !help;
    g_shallow = true;
    usage = wrong < 3 || wrong == 6 || wrong == 9 || wrong == 11;
  }
  if (wrong == 10) g_errat = vs_choice("errat", 3);
  for (int i = 0; i < g_n; ++i) {
    vs_file_num("in", g_loc[i].lon); vs_file_text("in", " "); vs_file_num("in", g_loc[i].lat);
    if (i + 1 < g_n || mode != 1 || vs_flip("newline")) vs_file_text("in", "\n");
  }
  if (g_n == 0) vs_file_text("in", "\n");
  if (wrong != 0) { arg("-i"); arg(wrong == 3 ? vs_path("nothere") : vs_path("in")); }
  if (wrong != 1) { arg("-o"); arg(vs_path("out")); }
  if (wrong != 2) { arg("-d"); arg("db.etree"); }
  if (wrong == 4) vs_file_unwritable("out");
  if (wrong == 5) fq::openfails = true;
  if (wrong == 6) arg("surplus");
  if (wrong == 7) fq::closefails = true;
  if (wrong == 8) arg("-h");
  if (wrong == 9) arg("-q");
  if (eopt) { arg("-e"); arg("ext.etree"); }
  if (copt) { cache = vs_range("cache", 1, 4096); arg("-c"); arg(vs_intstr(cache)); }
  if (sopt) { limit = vs_fdouble("limit"); vs_assume(limit != 1.0e6); arg("-s"); arg(vs_numstr(limit)); }
  if (sq) { sopt = true; limit = -1.0e5; arg("-s"); arg("-1.0e5"); }
  arg("-z"); arg(tenth(elevmin));
  if (wrong != 11) { arg("-v"); arg(vs_numstr(g_target)); }
  const int status = run_app();
  if (mode) vs_assert((status != 0) == fail || sopt, "exit status tells failure");
  if (status) vs_assert(vs_out_size("<stderr>") > 0, "failure prints a message");
  if (usage || help) {
    vs_assert(vs_out_find("<stderr>", "usage") > 0, "wrong command lines show the usage");
    vs_assert(fq::opens == 0, "wrong command lines open nothing");
    vs_cover("usage");
    return;
  }
  if (fq::opens) {
    vs_assert(fq::opens == 1, "database opened once");
    vs_assert(0 == strcmp(fq::file, "db.etree"), "-d names the database");
    vs_assert(0 == strcmp(fq::fileext, eopt ? "ext.etree" : ""), "-e names the extended database");
    vs_assert(fq::cache == cache, "-c sets the cache size");
    if (eopt) vs_assert(fq::cacheext == cache, "-c sets the cache size of the extended database");
  }
  if (fq::queries) {
    vs_assert(fq::type == VMQuery::MAXRES, "highest resolution");
    vs_assert(fq::squash == sopt, "-s turns squashing on");
    if (sopt) vs_assert(fq::limit == limit, "-s sets the limit");
  }
  const double low = sq ? elevmin - g_topo : elevmin;
  if (status || (sopt && !sq)) {
    if (mode == 0) {
      // never reached although the column is defined down to the limit
      vs_assert(vs_and(profile(low) < g_target, profile(low) > 0.0), "only a target that is not reached is an error");
      vs_cover("not reached");
    }
    return;
  }
  vs_assert(fq::opens == fq::closes, "the database is closed");
  vs_out_rewind("out");
  for (int i = 0; i < g_n; ++i) {
    double lon = 0.0, lat = 0.0, d = 0.0;
    int p1 = 0, p2 = 0, p3 = 0;
    bool ok = vs_out_num("out", &lon, &p1);
    ok = ok && vs_out_num("out", &lat, &p2);
    ok = ok && vs_out_num("out", &d, &p3);
    vs_assert(ok, "three numbers per location");
    vs_assert(p1 == 5 && p2 == 5 && p3 == 1, "decimals of the columns");
    vs_assert(vs_printed(lon, g_loc[i].lon, 5), "longitude of the location");
    vs_assert(vs_printed(lat, g_loc[i].lat, 5), "latitude of the location");
    vs_assert(vs_out_eol("out"), "one line per location");
    if (i > 0) { vs_assert(d == 0.0, "each location has its own depth"); vs_cover("second location"); continue; }
    if (mode != 0) continue;
    // ground: highest elevation of the stairs with data
    const double top = sq ? 0.0 : g_topo;
    double ground = top;
    while (ground > top - 120.0 && (ground > g_surf || ground < g_bottom)) ground -= 12.5;
    if (vs_split(d == -999.0)) {
      vs_assert(profile(low) < 0.0, "no depth only without data at the lower limit");
      vs_cover("no data below");
      continue;
    }
    // printed with one decimal: natively d is rounded
    const double e = ground - d;
    const double slack = 0.051;
    vs_assert(d >= -slack && d <= ground - low + slack, "depth is within the range searched");
    if (vs_split(d == 0.0)) {
      vs_assert(profile(ground) >= g_target, "depth 0 only when the target is reached at the ground");
      vs_cover("at the ground");
    } else {
      bool reached = false, below = false;
      for (int k = 0; k < g_np; ++k) {
        if (fabs(g_e[k] - e) <= slack) reached = vs_or(reached, g_v[k] >= g_target);
        if (g_e[k] > e + slack && g_e[k] <= e + 25.0 + slack) below = vs_or(below, g_v[k] < g_target);
      }
      vs_assert(reached, "Vs at the depth reaches the target");
      vs_assert(below, "the target is not reached 25 m higher");
      vs_cover("found");
    }
  }
  vs_assert(vs_out_eof("out"), "nothing else is written");
  if (g_warned) vs_assert(vs_out_find("<stderr>", "no data here") > 0, "warnings are shown");
}
