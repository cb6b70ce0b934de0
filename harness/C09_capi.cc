// C09: the C interface does what the C++ interface does and returns its status.
#define VMDB_PHYSICAL
#define VMDB_VERTEXAG 4.0
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
extern "C" {
#include "cencalvm/query/cvmquery.h"
#include "cencalvm/query/cvmerror.h"
}
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;
#if VS_TIER
#define STEPS 3
#else
#define STEPS 2
#endif
enum { OPEN, CLOSE, QTYPE, QRES, QVALS, FNAME, CACHE, FNAMEX, CACHEX, SQUASH, RESET, LOGON, NCONF };
struct Call { int kind, i, n; double d; const char* s; const char* names[2]; };
struct Seen {
  int status[STEPS + 2], n;
  int opened[2], closed[2], size[2], flags;
  std::string message, log;
  double vals[9];
  int querySize;
};
static Seen* g_seen;
static Call g_calls[STEPS];
static int g_ncalls;
static double g_lon, g_lat, g_elev;
static bool g_log;

static int step(bool c, VMQuery* q, Call& k, int* size) {
  switch (k.kind) {
  case OPEN:   if (c) return cencalvm_open(q); q->open(); break;
  case CLOSE:  if (c) return cencalvm_close(q); q->close(); break;
  case QTYPE:  if (c) return cencalvm_queryType(q, k.i); q->queryType(VMQuery::QueryEnum(k.i)); break;
  case QRES:   if (c) return cencalvm_queryRes(q, k.d); q->queryRes(k.d); break;
  case QVALS:
    if (k.n > 0) *size = k.n;
    if (c) return cencalvm_queryVals(q, k.names, k.n); q->queryVals(k.names, k.n); break;
  case FNAME:  if (c) return cencalvm_filename(q, k.s); q->filename(k.s); break;
  case CACHE:  if (c) return cencalvm_cacheSize(q, k.i); q->cacheSize(k.i); break;
  case FNAMEX: if (c) return cencalvm_filenameExt(q, k.s); q->filenameExt(k.s); break;
  case CACHEX: if (c) return cencalvm_cacheSizeExt(q, k.i); q->cacheSizeExt(k.i); break;
  case SQUASH: if (c) return cencalvm_squash(q, k.i, k.d); q->squash(k.i, k.d); break;
  case RESET:
    if (c) vs_assert(cencalvm_error_resetStatus(cencalvm_errorHandler(q)) == 0, "resetting the status succeeds");
    else q->errorHandler()->resetStatus();
    break;
  case LOGON:
    if (c) vs_assert(cencalvm_error_loggingOn(cencalvm_errorHandler(q), k.i) == 0, "switching the log succeeds");
    else q->errorHandler()->loggingOn(k.i);
    break;
  }
  return q->errorHandler()->status();
}
static void run(bool c) {
  Seen& s = g_seen[c];
  for (int w = 0; w < 2; ++w) {
    g_opened[w] = g_closed[w] = 0;
    g_opensize[w] = 0;
    g_db[w].open = false;
  }
  VMQuery* q = c ? (VMQuery*) cencalvm_createQuery() : new VMQuery;
  vs_assert(q != 0, "a query object is created");
  SymGeom geom;
  q->geometry(&geom);
  q->filename(g_name[0]);
  if (c) {
    vs_assert(cencalvm_errorHandler(q) == (void*) q->errorHandler(), "the query's own error handler");
    if (g_log) cencalvm_error_logFilename(cencalvm_errorHandler(q), (char*) vs_path("c.log"));
  } else if (g_log)
    q->errorHandler()->logFilename(vs_path("cpp.log"));
  s.n = 0;
  s.querySize = 9;
  if (g_ncalls == STEPS) {
    const char* names[1] = { "Vs" };
    s.querySize = 1;
    q->queryVals(names, 1);
  }
  for (int i = 0; i < g_ncalls; ++i) {
    s.status[s.n] = step(c, q, g_calls[i], &s.querySize);
    vs_assert(s.status[s.n] == (int) q->errorHandler()->status(), "returns the status");
    if (c) vs_assert(cencalvm_error_status(cencalvm_errorHandler(q)) == s.status[s.n], "the handler's status through C");
    ++s.n;
  }
  Call o;
  o.kind = OPEN;
  s.status[s.n++] = step(c, q, o, &s.querySize);
  for (int i = 0; i < 9; ++i) s.vals[i] = 12345.0;
  double* pv = s.vals;
  if (g_db[0].open) {
    if (c) s.status[s.n] = cencalvm_query(q, &pv, s.querySize, g_lon, g_lat, g_elev);
    else {
      q->query(&pv, s.querySize, g_lon, g_lat, g_elev);
      s.status[s.n] = q->errorHandler()->status();
    }
    vs_assert(s.status[s.n] == (int) q->errorHandler()->status(), "returns the query's status");
    ++s.n;
    vs_cover("queried");
  }
  s.message = c ? cencalvm_error_message(q->errorHandler()) : q->errorHandler()->message();
  if (c) vs_assert(cencalvm_destroyQuery(q) == 0, "destroying succeeds"); else delete q;
  for (int w = 0; w < 2; ++w) {
    s.opened[w] = g_opened[w];
    s.closed[w] = g_closed[w];
    s.size[w] = g_opensize[w];
  }
}
static int null_call(int f) {
  const char* names[1] = { "Vp" };
  double v = 7.0;
  double* pv = &v;
  switch (f) {
  case 0: return cencalvm_open(0);
  case 1: return cencalvm_close(0);
  case 2: return cencalvm_queryType(0, 1);
  case 3: return cencalvm_queryRes(0, 100.0);
  case 4: return cencalvm_queryVals(0, names, 1);
  case 5: return cencalvm_filename(0, "x");
  case 6: return cencalvm_cacheSize(0, 64);
  case 7: return cencalvm_filenameExt(0, "x");
  case 8: return cencalvm_cacheSizeExt(0, 64);
  case 9: return cencalvm_squash(0, 1, 0.0);
  case 10: {
    const int r = cencalvm_query(0, &pv, 1, -120.0, 36.0, 0.0);
    vs_assert(v == 7.0, "nothing returned for a null handle");
    return r;
  }
  case 11: return cencalvm_errorHandler(0) == 0 ? 2 : 0;
  case 12: return cencalvm_error_logFilename(0, (char*) "x") == 1 ? 2 : 0;
  case 13: return cencalvm_error_loggingOn(0, 1) == 1 ? 2 : 0;
  case 14: return cencalvm_error_resetStatus(0) == 1 ? 2 : 0;
  case 15: return cencalvm_error_status(0);
  case 16: return cencalvm_error_message(0) == 0 ? 2 : 0;
  }
  return -1;
}

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const int what = vs_choice("null", 18);
  if (what < 17) {
    vs_assert(null_call(what) == ErrorHandler::ERROR, "null handle: ERROR or null");
    vs_assert(vs_out_size("<stderr>") > 0, "null handle: a message is printed");
    return;
  }
  g_seen = new Seen[2];
  g_inside = true;
  g_ncalls = vs_choice("calls", STEPS + 1);
  g_log = g_ncalls < 2 ? vs_flip("log") : false;
  int opens = 0;
  for (int i = 0; i < g_ncalls; ++i) {
    Call& k = g_calls[i];
    k.kind = vs_choice("call", NCONF);
    switch (k.kind) {
    case OPEN: ++opens; break;
    case QTYPE: k.i = vs_choice("type", 3); if (k.i == 2) k.i = 99; break;
    case QRES: k.d = vs_fdouble("res"); break;
    case QVALS:
      k.n = vs_choice("nvals", 3);
      k.names[0] = k.n == 1 ? "nothing" : "Zone";
      k.names[1] = "elevation";
      break;
    case FNAME: k.s = g_name[0]; break;
    case FNAMEX: k.s = g_name[1]; break;
    case CACHE: case CACHEX: k.i = vs_int("size"); break;
    case RESET: break;
    case LOGON: k.i = vs_flip("flag") ? 2 : 0; break;
    case CLOSE: if (opens && vs_flip("closefail")) g_closefail[0] = true; break;
    case SQUASH: k.i = vs_flip("flag") ? 2 : 0; k.d = vs_fdouble("limit"); break;
    }
  }
  if (g_ncalls < 2 && vs_flip("openfail")) g_openfail[0] = true;
  g_lon = -121.0;
  g_lat = 36.0;
  g_elev = vs_fdouble("elev");
  run(false);
  run(true);
  const Seen& a = g_seen[0];
  const Seen& b = g_seen[1];
  vs_assert(a.n == b.n, "same calls possible");
  for (int i = 0; i < a.n; ++i)
    vs_assert(a.status[i] == b.status[i], "same status as the C++ call");
  vs_assert(a.message == b.message, "same message");
  if (g_log) vs_assert(vs_out_size("c.log") == vs_out_size("cpp.log"), "logs as much");
  for (int i = 0; i < 9; ++i) {
    vs_observe_d("value", b.vals[i]);
    vs_assert(vs_same_d(a.vals[i], b.vals[i]), "same values");
  }
  for (int w = 0; w < 2; ++w)
    vs_assert(a.opened[w] == b.opened[w] && a.closed[w] == b.closed[w] && vs_known(a.size[w] == b.size[w]),
              "same databases opened and closed");
}
