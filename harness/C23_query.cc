// C23: cencalvmquery writes one line per location with the values of that
// location, as its options say, and fails loudly.
#include "fakequery.h"
using cencalvm::query::VMQuery;
#define NLOC (VS_TIER ? 4 : 3)
struct Loc { double lon, lat, elev, val[9]; int outcome; };
static Loc g_loc[NLOC + 1];
static int g_asked = 0, g_n = 0;
static bool g_repeatfail = false;

static int answer(const int* what, double* vals, int n, double lon, double lat, double elev) {
  vs_assert(n == 9, "all values are asked for");
  vs_assert(g_asked < g_n, "one query per location");
  Loc& l = g_loc[g_asked++];
  vs_assert(vs_and(lon == l.lon, vs_and(lat == l.lat, elev == l.elev)), "locations are queried in order");
  for (int i = 0; i < 9; ++i) {
    vs_assert(what[i] == i, "values in the documented order");
    vals[i] = l.val[i];
  }
  return l.outcome;
}
static void location(Loc& l, bool any) {
  l.outcome = 0;
  l.lon = -120.0; l.lat = 37.5; l.elev = -100.0;
  for (int i = 0; i < 9; ++i) l.val[i] = 10.0 * i + 1.0;
  if (!any) return;
  l.lon = vs_fdouble("lon"); l.lat = vs_fdouble("lat"); l.elev = vs_fdouble("elev");
  // columns stay apart in the output
  vs_assume(vs_and(l.lon >= -180.0, l.lon <= 180.0));
  vs_assume(vs_and(l.lat >= 0.0, l.lat <= 90.0));
  vs_assume(vs_and(l.elev >= -99000.0, l.elev <= 99000.0));
  for (int i = 0; i < 9; ++i) {
    if (i == 6 || i == 7) { l.val[i] = (double) vs_range(i == 6 ? "block" : "zone", -999, 9999); continue; }
    l.val[i] = (double) vs_ffloat("value");
    vs_assume(vs_and(l.val[i] >= -999.0, l.val[i] <= 99999.0));
  }
}
static void number(double want, int prec, const char* label) {
  double v = 0.0;
  int p = 0;
  vs_assert(vs_out_num("out", &v, &p), "a number in every column");
  vs_assert(p == prec, "decimals of the column");
  vs_assert(vs_printed(v, want, prec), label);
}
static void expect(const Loc& l) {
  number(l.lon, 5, "longitude of the location");
  number(l.lat, 5, "latitude of the location");
  number(l.elev, 1, "elevation of the location");
  static const char* const name[9] = {"Vp of the location", "Vs of the location", "density of the location", "Qp of the location", "Qs of the location", "depth of the location", "fault block of the location", "zone of the location", "ground surface of the location"};
  for (int i = 0; i < 9; ++i) number(l.val[i], i == 6 || i == 7 ? 0 : 1, name[i]);
  vs_assert(vs_out_eol("out"), "one line per location");
}
static void writeloc(const Loc& l, int sep) {
  static const char* const seps[] = {" ", "\t", "   "};
  vs_file_num("in", l.lon); vs_file_text("in", seps[sep]);
  vs_file_num("in", l.lat); vs_file_text("in", seps[sep]);
  vs_file_num("in", l.elev);
}

extern "C" void vs_main() {
  fq::answer = answer;
  const int mode = vs_choice("mode", 3);
  bool fail = false, usage = false, noinput = false, help = false;
  int failtype = 0;
  bool eopt = false, sopt = false, copt = false, lopt = false;
  int type = 0;
  double res = 0.0, limit = 0.0;
  int cache = 128;
  int done = 0;          // locations with an output line
  if (mode == 0) {
    // any locations, any outcome of the queries
    g_n = vs_choice("n", NLOC + 1);
    const int sep = vs_choice("sep", 3);
    for (int i = 0; i < g_n; ++i) {
      location(g_loc[i], true);
      writeloc(g_loc[i], sep);
      if (i + 1 < g_n || vs_flip("newline")) vs_file_text("in", sep == 2 ? " \n\n" : "\n");
      if (!fail) g_loc[i].outcome = vs_choice("outcome", 3);
      if (g_loc[i].outcome == 2) fail = true;
      if (!fail) ++done;
    }
    if (g_n == 0) vs_file_text("in", "\n");
    arg("-i"); arg(vs_path("in")); arg("-o"); arg(vs_path("out")); arg("-d"); arg("db.etree");
  } else if (mode == 1) {
    // any combination and order of options
    g_n = 1; done = 1;
    location(g_loc[0], false);
    writeloc(g_loc[0], 0);
    vs_file_text("in", "\n");
    eopt = vs_flip("e"); sopt = vs_flip("s"); copt = vs_flip("c"); lopt = vs_flip("l");
    type = vs_choice("type", 5);      // default, maxres, fixedres, waveres, junk
    const bool ropt = vs_flip("r");
    const bool late = vs_flip("late");
    if (!late) { arg("-o"); arg(vs_path("out")); arg("-d"); arg("db.etree"); arg("-i"); arg(vs_path("in")); }
    if (eopt) { arg("-e"); arg("ext.etree"); }
    if (sopt) { limit = vs_fdouble("limit"); vs_assume(limit != 1.0e6); arg("-s"); arg(vs_numstr(limit)); }
    if (copt) { cache = vs_range("cache", -10, 4096); arg("-c"); arg(vs_intstr(cache)); }
    if (lopt) { arg("-l"); arg(vs_path("log")); }
    static const char* const types[5][2] = {{"", ""}, {"maxres", "MAXRES"}, {"fixedres", "FixedRes"}, {"waveres", "WaveRes"}, {"maxre", "fixedress"}};
    if (type) { arg("-t"); arg(types[type][late]); }
    if (ropt) { res = vs_fdouble("res"); arg("-r"); arg(vs_numstr(res)); }
    if (late) { arg("-i"); arg(vs_path("in")); arg("-d"); arg("db.etree"); arg("-o"); arg(vs_path("out")); }
    if (type == 4) fail = true;
    if ((type == 2 || type == 3) && !vs_split(res > 0.0)) fail = true;
    if (fail) { done = 0; g_n = 0; }
  } else {
    // things that go wrong
    failtype = vs_choice("wrong", 11);
    fail = failtype != 8;
    g_n = failtype == 7 || failtype == 10 ? 1 : 0;
    location(g_loc[0], false);
    writeloc(g_loc[0], 0);
    vs_file_text("in", "\n");
    noinput = failtype == 3;
    if (failtype != 0) { arg("-i"); arg(noinput ? vs_path("nothere") : vs_path("in")); }
    if (failtype != 1) { arg("-o"); arg(vs_path("out")); }
    if (failtype != 2) { arg("-d"); arg("db.etree"); }
    if (failtype == 4) vs_file_unwritable("out");
    if (failtype == 5) fq::openfails = true;
    if (failtype == 6) arg("surplus");
    if (failtype == 7) { fq::closefails = true; done = 1; }
    if (failtype == 8) { arg("-h"); help = true; }
    if (failtype == 9) { arg("-q"); }
    if (failtype == 10) { g_loc[0].outcome = 2; }
    usage = failtype < 3 || failtype == 6 || failtype == 9;
  }
  const int status = run_app();
  vs_assert((status != 0) == fail, "exit status tells failure");
  if (fail || help) vs_assert(vs_out_size("<stderr>") > 0, "failure and help print a message");
  if (usage || help) {
    vs_assert(vs_out_find("<stderr>", "usage") > 0, "wrong command lines show the usage");
    vs_assert(fq::opens == 0, "wrong command lines open nothing");
    vs_cover("usage");
  }
  vs_assert(fq::closes == (fq::opens && !fq::openfails), "the database is closed");
  if (!usage && !help) {
    if (fq::opens) {
      vs_assert(fq::opens == 1, "database opened once");
      vs_assert(0 == strcmp(fq::file, "db.etree"), "-d names the database");
      vs_assert(0 == strcmp(fq::fileext, eopt ? "ext.etree" : ""), "-e names the extended database");
      vs_assert(fq::cache == vs_ite_i(cache > 0, cache, 128), "-c sets the cache size");
      if (eopt) vs_assert(fq::cacheext == vs_ite_i(cache > 0, cache, 128), "-c sets the cache size of the extended database");
    }
    vs_assert(g_asked == g_n || (mode == 0 && fail), "every location is queried once");
    if (fq::queries) {
      static const int want[5] = {VMQuery::MAXRES, VMQuery::MAXRES, VMQuery::FIXEDRES, VMQuery::WAVERES, -1};
      vs_assert(fq::type == want[type], "-t selects the type of query");
      if (type >= 2) vs_assert(fq::res == res, "-r sets the resolution");
      vs_assert(fq::squash == sopt, "-s turns squashing on");
      if (sopt) vs_assert(fq::limit == limit, "-s sets the limit");
      if (lopt) { vs_assert(vs_file_exists("log"), "-l names the log"); vs_cover("log"); }
      vs_cover("queried");
    }
    if (vs_file_exists("out")) {
      vs_out_rewind("out");
      for (int i = 0; i < done; ++i) expect(g_loc[i]);
      vs_assert(vs_out_eof("out"), "nothing else is written");
    } else {
      vs_assert(fail, "an output file is written");
    }
    for (int i = 0; i < done; ++i)
      if (g_loc[i].outcome == 1) { vs_assert(vs_out_find("<stderr>", "no data here") > 0, "warnings are shown"); vs_cover("warning"); }
  }
  if (fail) vs_cover("failed");
}
