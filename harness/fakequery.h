// Environment: the query library behind its interface.  Records how it is set
// up; results of queries come from g_answer.
#ifndef FAKEQUERY_H
#define FAKEQUERY_H
#include "vs.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
#include <string>
#include <string.h>
#include <strings.h>
#include <stdio.h>
namespace fq {
static bool opened = false, squash = false;
static int opens = 0, closes = 0, type = 0, cache = 0, cacheext = 0, queries = 0;
static double res = 0.0, limit = 0.0;
static char file[256], fileext[256], logfile[256];
static bool openfails = false, closefails = false;
// outcome: 0 fine, 1 warning, 2 error
static int (*answer)(const int* what, double* vals, int n, double lon, double lat, double elev) = 0;
}
namespace cencalvm { namespace query {
VMQuery::VMQuery(void) : _queryRes(0), _squashLimit(-2000.0), _db(0), _dbExt(0), _pQueryVals(new int[9]), _pGeom(0),
  _pErrHandler(new storage::ErrorHandler), _queryFn(0), _querySize(9), _cacheSize(128), _cacheSizeExt(128), _squashTopo(false) {
  for (int i = 0; i < 9; ++i) _pQueryVals[i] = i;
}
VMQuery::~VMQuery(void) {
  if (fq::opened) close();
  delete[] _pQueryVals;
  delete _pErrHandler;
}
void VMQuery::open(void) {
  ++fq::opens;
  strncpy(fq::file, _filename.c_str(), 255);
  strncpy(fq::fileext, _filenameExt.c_str(), 255);
  fq::cache = _cacheSize; fq::cacheext = _cacheSizeExt;
  if (fq::openfails) { _pErrHandler->error("cannot open"); return; }
  fq::opened = true;
}
void VMQuery::close(void) {
  if (!fq::opened) return;
  fq::opened = false;
  ++fq::closes;
  if (fq::closefails) _pErrHandler->error("cannot close");
}
void VMQuery::queryType(const QueryEnum t) { fq::type = t; }
void VMQuery::queryVals(const char* const* names, const int n) {
  static const char* const all[9] = {"Vp", "Vs", "Density", "Qp", "Qs", "DepthFreeSurf", "FaultBlock", "Zone", "elevation"};
  vs_assert(n >= 1 && n <= 9, "number of values asked for");
  _querySize = n;
  for (int i = 0; i < n; ++i) {
    int k = 0;
    while (k < 9 && strcasecmp(all[k], names[i])) ++k;
    vs_assert(k < 9, "a known value is asked for");
    _pQueryVals[i] = k;
  }
}
void VMQuery::query(double** vals, const int n, const double lon, const double lat, const double elev) {
  vs_assert(fq::opened, "query of an open database");
  vs_assert(n == _querySize, "array for the values asked for");
  ++fq::queries;
  fq::res = _queryRes; fq::squash = _squashTopo; fq::limit = _squashLimit;
  const int r = fq::answer(_pQueryVals, *vals, n, lon, lat, elev);
  if (r == 1) _pErrHandler->warning("no data here");
  if (r == 2) _pErrHandler->error("query failed");
}
}}
int app_main(int argc, char* argv[]);
static char* g_argv[32];
static int g_argc = 0, g_status = -1;
static void arg(const char* a) { if (!g_argc) { g_argv[g_argc++] = strdup("tool"); } g_argv[g_argc++] = strdup(a); g_argv[g_argc] = 0; }
static void app(void*) { g_status = app_main(g_argc, g_argv); }
// exit status of the tool
static int run_app(void) {
  if (!g_argc) { g_argv[g_argc++] = strdup("tool"); g_argv[1] = 0; }
  const int r = vs_call(app, 0);
  vs_assert(r == 0 || r == 3, "the tool does not end by an exception");
  return r == 3 ? vs_exit_code() : g_status;
}
#endif
