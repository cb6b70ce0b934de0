// C08: databases are opened once, read-only, used while open and closed once.
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;
#if VS_TIER
#define STEPS 4
#else
#define STEPS 3
#endif
static const char* FIRST[2] = { "detailed.etree", "regional.etree" };
static const char* SECOND[2] = { "other.etree", "wider.etree" };

static bool g_isopen[2];
static int g_opens[2], g_closes[2];
static VMQuery* g_q;
static SymGeom* g_geom;
static bool g_ext;
static int g_cache[2];

// the database library fails or not
static void faults(bool opening, bool* failed) {
  for (int w = 0; w < 2; ++w) {
    failed[w] = false;
    if (w && !g_ext && !g_isopen[1]) continue;
    if (opening == g_isopen[w]) continue;
    failed[w] = vs_flip(opening ? "open_fails" : "close_fails");
    (opening ? g_openfail : g_closefail)[w] = failed[w];
  }
}
static void status_after(const bool* failed, const bool* involved) {
  const ErrorHandler* h = g_q->errorHandler();
  if (!failed[0] && !failed[1]) return;
  vs_assert(h->status() == ErrorHandler::ERROR, "a failure of the database library is an ERROR");
  const std::string m = h->message();
  bool named = false;
  for (int w = 0; w < 2; ++w) {
    const bool in = m.find(g_name[w]) != std::string::npos;
    if (failed[w] && in) named = true;
    vs_assert(!in || failed[w], "the message names no database that is fine");
  }
  vs_assert(named, "the message names the database that failed");
}
static void counts() {
  for (int w = 0; w < 2; ++w) {
    vs_assert(g_opened[w] == g_opens[w], "each database opened when due and only then");
    vs_assert(g_closed[w] == g_closes[w], "each database closed when due and only then");
    vs_assert(g_db[w].open == g_isopen[w], "open exactly as requested");
  }
}

extern "C" void vs_main() {
  const long live = vs_heap_live();
  for (int w = 0; w < 2; ++w) { g_name[w] = FIRST[w]; g_cache[w] = 128; }
  g_q = new VMQuery;
  g_geom = new SymGeom;
  g_empty = true;
  const int n = vs_choice("steps", STEPS + 1);
  const int geo = n <= 2 ? vs_choice("geometry", 3) : 2;
  if (geo == 1) g_q->geometry(0);
  if (geo) g_q->geometry(g_geom);
  if (geo == 2) g_q->geometry(g_geom);
  g_q->filename(g_name[0]);
  g_ext = vs_flip("ext");
  if (g_ext) g_q->filenameExt(g_name[1]);
  bool failed[2], all[2] = { true, true };
  for (int i = 0; i < n; ++i) {
    // querying needs the detailed database open
    const int nops = g_isopen[0] && geo ? 4 : 3;
    switch (vs_choice("op", nops)) {
    case 0:
      faults(true, failed);
      g_q->open();
      for (int w = 0; w < (g_ext ? 2 : 1); ++w)
        if (!g_isopen[w] && !failed[w]) {
          g_isopen[w] = true;
          ++g_opens[w];
          vs_assert(g_opensize[w] == g_cache[w], "each database opened with its own cache size");
        }
      status_after(failed, all);
      counts();
      if (failed[0] || failed[1]) vs_cover("open failed");
      break;
    case 1:
      faults(false, failed);
      g_q->close();
      for (int w = 0; w < 2; ++w)
        if (g_isopen[w]) { g_isopen[w] = false; ++g_closes[w]; }
      status_after(failed, all);
      counts();
      if (failed[0] || failed[1]) vs_cover("close failed");
      break;
    case 2:
      // configuration while open must not disturb the open databases
      if (!g_isopen[0] && !g_isopen[1]) {
        const bool ext = vs_flip("rename_ext");
        if (ext) { g_name[1] = SECOND[1]; g_ext = true; g_q->filenameExt(g_name[1]); }
        else { g_name[0] = SECOND[0]; g_q->filename(g_name[0]); }
      }
      {
        const int w = vs_choice("which_cache", 2), c = vs_int("cache");
        if (w) g_q->cacheSizeExt(c); else g_q->cacheSize(c);
        g_cache[w] = vs_ite_i(c > 0, c, g_cache[w]);
      }
      counts();
      break;
    case 3: {
      double vals[9];
      double* pv = vals;
      g_q->query(&pv, 9, -122.0, 37.0, -100.0);
      vs_cover("queried");
      counts();
      break;
    }
    }
  }
  faults(false, failed);
  delete g_q;
  for (int w = 0; w < 2; ++w)
    if (g_isopen[w]) { g_isopen[w] = false; ++g_closes[w]; }
  counts();
  delete g_geom;
  vs_assert(g_pj_live == 0, "no projection left behind");
  vs_observe_i("opened", g_opened[0] + 10 * g_opened[1]);
}
