// C05: a query returns exactly the requested quantities, in order.
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;
#if VS_TIER
#define MAXN 3
#else
#define MAXN 2
#endif
static const int NUNKNOWN = 13;
static const char* UNKNOWN[NUNKNOWN] = { "Vpp", "V", "", "rho", "elev", "Vs30", "Densities", "Qp2", "Qss", "DepthFreeSurface", "FaultBlocks", "Zones", "elevation " };

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  q.filename(g_name[0]);
  q.open();
  vs_assert(q.errorHandler()->status() == ErrorHandler::OK, "set-up leaves no error");

  int want[10], n, bad = -1;
  char text[MAXN][24];
  const char* names[10];
  const int mode = vs_choice("mode", 4);    // default, set, set twice, ten names
  if (mode == 0) {
    n = 9;
    for (int i = 0; i < 9; ++i) want[i] = i;
  } else if (mode == 3) {
    // every quantity once, in rotated order, and one of them again
    n = 10;
    const int r = vs_choice("rotation", 9);
    for (int i = 0; i < 10; ++i) { want[i] = (i + r) % 9; names[i] = VM_NAMES[want[i]]; }
    q.queryVals(names, n);
  } else {
    if (mode == 2) {
      const char* first[3] = { "Zone", "elevation", "Zone" };
      q.queryVals(first, 3);
      q.queryVals(first, 0);
    }
    n = mode == 2 ? 1 : 1 + vs_choice("n", MAXN);
    for (int i = 0; i < n; ++i) {
      want[i] = vs_choice("name", 10);
      const char* s = want[i] < 9 ? VM_NAMES[want[i]] : UNKNOWN[n == 1 ? vs_choice("unknown", NUNKNOWN) : 4];
      if (want[i] == 9) bad = i;
      size_t k = 0;
      for (; s[k]; ++k) {
        // any mixture of upper and lower case
        const char c = s[k];
        text[i][k] = want[i] == 9 ? c : (char) vs_ite_i(vs_bool("case"), c & ~32, c | 32);
      }
      text[i][k] = 0;
      names[i] = text[i];
    }
    q.queryVals(names, n);
  }
  if (bad >= 0) {
    vs_assert(q.errorHandler()->status() == ErrorHandler::ERROR, "an unknown name is an error");
    vs_assert(std::string(q.errorHandler()->message()).find(text[bad]) != std::string::npos, "the error names the unknown name");
    if (vs_flip("reset")) q.errorHandler()->resetStatus();
  } else {
    vs_assert(q.errorHandler()->status() == ErrorHandler::OK, "known names are accepted in any case");
  }

  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[11];
  for (int i = 0; i < 11; ++i) vals[i] = 12345.0;
  double* pv = vals;
  q.query(&pv, n, lon, lat, elev);
  vs_assert(pv == vals, "the array of the caller is filled, not replaced");
  const int status = q.errorHandler()->status();

  etree_addr_t a;
  a.level = ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  PayloadStruct p;
  p.Vp = p.Vs = p.Density = p.Qp = p.Qs = p.DepthFreeSurf = -999.0f;
  p.FaultBlock = p.Zone = 0;
  double surface = -999.0;
  bool data = false;
  if (!geom.lonLatElevToAddr(&a, lon, lat, elev)) {
    const DbRecord& r = vm_lookup(&g_db[0], a);
    if (r.found && vs_split(r.hit.type == ETREE_LEAF)) {
      data = true;
      p = r.payload;
      double x, y, z;
      etree_addr_t h = r.hit;
      geom.addrToLonLatElev(&x, &y, &z, &h);
      surface = z + p.DepthFreeSurf;
    }
  }
  for (int i = 0; i < n; ++i) {
    if (want[i] == 9) continue;
    vs_observe_d("value", vals[i]);
    const double e[9] = { p.Vp, p.Vs, p.Density, p.Qp, p.Qs, p.DepthFreeSurf, (double) p.FaultBlock, (double) p.Zone, surface };
    vs_assert(vs_same_d(vals[i], e[want[i]]), "value i is the i-th requested quantity");
  }
  for (int i = n; i < 11; ++i)
    vs_assert(vals[i] == 12345.0, "nothing written past the requested values");
  vs_observe_i("status", status);
  if (bad >= 0)
  {
    vs_assert(status == ErrorHandler::ERROR, "querying an unknown quantity is an error");
    q.errorHandler()->resetStatus();
    q.query(&pv, n, lon, lat, elev);
    vs_assert(q.errorHandler()->status() == ErrorHandler::ERROR, "every query of an unknown quantity is an error");
  }
  else
    vs_assert(status == (data ? ErrorHandler::OK : ErrorHandler::WARNING), "otherwise the status depends on the data only");
}
