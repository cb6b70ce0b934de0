// C22: an ingest processes every grid file of the parameter file once, in
// order, into one database, and reports every failure.
#define MEMDB_MAX 80
#include "ingest.h"
#define NGRID (VS_TIER ? 4 : 3)
static void grid(const char* name, const char* first, int k, int pts) {
  static const char* const res[] = {"0.8 0.2 ", "0.4 0.1 ", "1.6 0.4 ", "0.2 0.05 "};
  vs_file_text(name, res[k]);
  vs_file_text(name, "1 1 1 ");
  vs_file_int(name, pts);
  vs_file_text(name, "\n");
  for (int i = 0; i < pts; ++i) {
    vs_file_text(name, first);
    vs_file_text(name, " 2.0 0.5 5 3 2 100 50 0 ");
    vs_file_int(name, 100 * (k + 1) + i);
    vs_file_text(name, " 7 1\n");
  }
}
static const int g_gridlevel[] = {11, 12, 10, 13};
extern "C" void vs_main() {
  static const char* const names[] = {"grid0", "grid1", "grid2", "grid3"};
  static const char* const lons[] = {"-120.5", "-121.5", "-122.5", "-123.5"};
  static const char* const seps[] = {"\n", " ", "\n\n", "\t", "\r\n"};
  MemFile* tmp = mem_file("tmp.etree");
  MemFile* out = mem_file("out.etree");
  const bool noparams = vs_flip("noparams");
  int want[MEMDB_MAX], points = 0;
  bool bad = noparams;
  const char* badname = noparams ? vs_path("params") : 0;
  const int mode = noparams ? 0 : vs_choice("mode", 3);
  int n = 0;
  if (mode == 0) {
    // any list of a few files
    n = noparams ? 0 : vs_choice("grids", NGRID + 1);
    if (!noparams) vs_file_text("params", vs_flip("lead") ? "\n  " : "");
    int missing = -1, broken = -1;
    if (n > 0) missing = vs_choice("missing", n + 1) - 1;
    if (n > 0 && missing < 0) broken = vs_choice("broken", n + 1) - 1;
    const int sep = n > 1 ? vs_choice("sep", 5) : 0;
    for (int i = 0; i < n; ++i) {
      vs_file_text("params", vs_path(names[i]));
      if (i + 1 < n) vs_file_text("params", seps[sep]);
      if (i == missing) { bad = true; badname = vs_path(names[i]); continue; }
      const int pts = 1 + (i == 0 && vs_flip("two"));
      if (i == broken) { vs_file_text(names[i], "0.8 0.3 1 1 1 1\n"); bad = true; continue; }
      grid(names[i], lons[i], i, pts);
      if (!bad) for (int k = 0; k < pts; ++k) want[points++] = 100 * (i + 1) + k;
    }
    if (n > 0 && vs_flip("newline")) vs_file_text("params", seps[n > 1 ? sep : 0]);
    if (n == 0) bad = true;            // nothing to pack
  } else if (mode == 1) {
    // long lists, the same file may be listed again
    n = 15 + vs_choice("many", VS_TIER ? 50 : 20);
    grid("grid0", "-120.5", 0, 1);
    grid("grid1", "-121.5", 1, 1);
    for (int i = 0; i < n; ++i) {
      vs_file_text("params", vs_path(names[i % 2]));
      vs_file_text("params", "\n");
      want[points++] = 100 * (i % 2 + 1);
    }
    vs_cover("long list");
  } else {
    // failing database library
    n = 2;
    grid("grid0", "-120.5", 0, 1);
    grid("grid1", "-121.5", 1, 1);
    vs_file_text("params", vs_path("grid0"));
    vs_file_text("params", "\n");
    vs_file_text("params", vs_path("grid1"));
    vs_file_text("params", "\n");
    want[0] = 100; want[1] = 200; points = 2;
    g_failat = vs_choice("failcall", 24);
  }
  const bool quiet = vs_flip("quiet");
  const int cache = vs_range("cache", 1, 1000);
  AnyGeom geom;
  g_ing = new cencalvm::create::GridIngester;
  g_ing->filenameParams(vs_path("params"));
  g_ing->filenameTmp("tmp.etree");
  g_ing->filenameOut("out.etree");
  g_ing->description("what this is");
  g_ing->geometry(&geom);
  g_ing->cacheSize(cache);
  g_ing->quiet(quiet);
  const int r = vs_call(run, 0);
  vs_assert(r <= 1, "only standard exceptions, no termination");
  if (mode < 2) vs_assert((r == 1) == bad, "missing, empty or malformed input is an error, anything else is not");
  else vs_assert((r == 1) == (g_failed != 0), "every failure of the database library is reported");
  if (r == 0) {
    vs_assert(tmp->n == points, "every listed grid is ingested once");
    vs_assert(out->n == points, "every point is in the packed database");
    for (int i = 0; i < points; ++i) {
      vs_assert(out->rec[i].pay.FaultBlock == want[i], "grids are ingested in the order listed");
      vs_assert(mem_sameaddr(out->rec[i].addr, tmp->rec[i].addr), "packed as ingested");
      vs_assert(out->rec[i].addr.level == g_gridlevel[want[i] / 100 - 1], "each grid at its own resolution");
    }
    vs_assert(out->schema && 0 == strcmp(out->schema, Payload::SCHEMA), "packed database has the schema");
    vs_assert(out->meta && 0 == strncmp(out->meta, "what this is", 12), "packed database has the description");
    vs_assert(g_nhandle == 3, "one database is filled and then packed");
    for (int i = 0; i < 3; ++i) vs_assert(g_handle[i].cache == cache, "cache size is passed on");
    vs_assert(mem_open_handles() == 0, "databases are closed");
    vs_cover("ingested");
  } else {
    const char* what = vs_what();
    vs_assert(what && what[0], "failure has a message");
    if (badname) vs_assert(strstr(what, badname) != 0, "message names the missing file");
    if (bad && n > 0) vs_assert(!out->exists, "nothing is packed when a grid is bad");
    if (bad && n > 0) vs_assert(tmp->n == points, "grids before the bad one were ingested");
    vs_cover("refused");
  }
  if (quiet) vs_assert(vs_out_size("<stdout>") == 0, "quiet means no progress reports");
  delete g_ing;
}
