// C04: which model answers a query, what a query without data returns and
// reports, and that earlier queries do not influence later ones.
#define VMDB_VERTEXAG 4.0
#define VMDB_PHYSICAL
// octants with negative Vs: a wavelength query neither climbs nor rejects (see C03)
#define VMDB_EXTRA(r) if (g_wave) vs_assume(r.payload.Vs < 0.0f)
static bool g_wave;
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

static const DbRecord* answer(int type, etree_t* db, const etree_addr_t& a, SymGeom& g, double res) {
  const DbRecord& r = vm_lookup(db, a);
  if (!r.found) return 0;
  if (!vs_split(r.hit.type == ETREE_INTERIOR)) return &r;
  if (type == 0) return 0;
  if (type == 1) return vs_split(r.hit.level == a.level) ? &r : 0;
  return &r;
}

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const int type = vs_choice("type", 3);
  g_wave = type == 2;
  const bool ext = vs_flip("ext");
  const bool logged = vs_flip("log");
  const bool reset = vs_flip("reset");
  double lon[2], lat[2], elev[2];
  bool nodata[2];
  {
    VMQuery q;
    SymGeom geom;
    q.geometry(&geom);
    q.queryVals(VM_NAMES, 8);
    q.queryType(VMQuery::QueryEnum(type));
    q.filename(g_name[0]);
    if (ext) q.filenameExt(g_name[1]);
    const double res = vs_fdouble("res");
    vs_assume(res > 0.0);
    q.queryRes(res);
    if (logged) q.errorHandler()->logFilename(vs_path("query.log"));
    q.open();
    int expect = ErrorHandler::OK;
    vs_assert(q.errorHandler()->status() == expect, "set-up leaves no error");
    // the second query may be of another type
    const bool other = !ext && !logged && !reset && vs_flip("other");
    int type2 = type;
    for (int n = 0; n < 2; ++n) {
      if (n && other) {
        type2 = (type + 1) % 3;
        g_wave = type2 == 2;
        q.queryType(VMQuery::QueryEnum(type2));
      }
      const int type = type2;
      lon[n] = vs_fdouble("lon"); lat[n] = vs_fdouble("lat"); elev[n] = vs_fdouble("elev");
      double vals[9];
      for (int i = 0; i < 9; ++i) vals[i] = 12345.0;
      double* pv = vals;
      q.query(&pv, 8, lon[n], lat[n], elev[n]);

      etree_addr_t a;
      a.level = type == 1 ? geom.level(geom.vertExag() * res) : ETREE_MAXLEVEL;
      a.type = ETREE_LEAF;
      const DbRecord* r = 0;
      if (!geom.lonLatElevToAddr(&a, lon[n], lat[n], elev[n])) {
        r = answer(type, &g_db[0], a, geom, res);
        if (!r && ext) r = answer(type, &g_db[1], a, geom, res);
      }
      for (int i = 0; i < 8; ++i) vs_observe_d(VM_NAMES[i], vals[i]);
      nodata[n] = r == 0;
      if (r) {
        vs_assert(vm_ispayload(vals, r->payload), "values of the preferred model that has data");
      } else {
        vs_assert(vm_isnodata(vals), "no data anywhere: -999 and block/zone 0");
        expect = ErrorHandler::WARNING;
        vs_out_load(q.errorHandler()->message());
        double v = 0.0; int prec = 0;
        bool ok = vs_out_nextnum("<mem>", &v, &prec);
        ok = vs_and(ok, vs_printed(v, lon[n], prec));
        ok = vs_and(ok, vs_out_nextnum("<mem>", &v, &prec));
        ok = vs_and(ok, vs_printed(v, lat[n], prec));
        ok = vs_and(ok, vs_out_nextnum("<mem>", &v, &prec));
        ok = vs_and(ok, vs_printed(v, elev[n], prec));
        vs_assert(ok, "the warning names the location");
      }
      vs_assert(q.errorHandler()->status() == expect, "a warning exactly for lack of data");
      vs_assert(vals[8] == 12345.0, "nothing written past the requested values");
      if (reset) {
        q.errorHandler()->resetStatus();
        expect = ErrorHandler::OK;
      }
    }
  }
  const char* log = logged ? "query.log" : 0;
  if (logged) {
    int lines = 0;
    bool ok = true;
    for (int n = 0; n < 2; ++n)
      if (nodata[n]) {
        double v = 0.0; int prec = 0;
        ok = vs_and(ok, vs_out_nextnum(log, &v, &prec));
        ok = vs_and(ok, vs_printed(v, lon[n], prec));
        ok = vs_and(ok, vs_out_nextnum(log, &v, &prec));
        ok = vs_and(ok, vs_printed(v, lat[n], prec));
        ok = vs_and(ok, vs_out_nextnum(log, &v, &prec));
        ok = vs_and(ok, vs_printed(v, elev[n], prec));
        ok = vs_and(ok, vs_out_text(log, ", No data\n"));
        ++lines;
      }
    vs_assert(ok, "the log names every location without data, in order");
    vs_assert(vs_out_eof(log) && vs_out_find(log, "\n") == lines, "the log holds nothing else");
  }
}
