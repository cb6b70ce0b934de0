// C10: a failing step of a query ends as an ERROR with no-data values.
#define VMDB_PHYSICAL
#define VMDB_VERTEXAG 4.0
#include <string>
#include <stdexcept>
static int g_type = 0;
// wavelength queries: octants too coarse or without shear waves (the climb is checked in C03)
#define VMDB_EXTRA(r) if (g_type == 2) r.payload.Vs = vs_flip("solid") ? 1000.0f : -999.0f
#include "vmdb.h"
#include "proj_mock.h"
#include "surface.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

static bool g_fail = true;       // geometry calls may fail
static int g_thrown = 0;
static int g_kind = 0;
static bool fails_at(double lon, double lat, double elev) { return g_fail && vs_split(vs_uf_b("fails_at", lon, lat, elev)); }
static bool fails_for(const etree_addr_t& a) { return g_fail && vs_split(vs_uf_b("fails_for", a.x, a.z, a.level)); }
static void blow() {
  ++g_thrown;
  if (g_kind) throw 17;
  throw std::runtime_error("cannot project this location");
}
class FailGeom : public SymGeom {
public:
  Geometry* clone(void) const { return new FailGeom; }
  int lonLatElevToAddr(etree_addr_t* a, const double lon, const double lat, const double elev) {
    if (fails_at(lon, lat, elev)) blow();
    return SymGeom::lonLatElevToAddr(a, lon, lat, elev);
  }
  void addrToLonLatElev(double* lon, double* lat, double* elev, etree_addr_t* a) {
    if (fails_for(*a)) blow();
    SymGeom::addrToLonLatElev(lon, lat, elev, a);
  }
  double edgeLen(const etree_tick_t level) { return g_type == 2 ? 1e9 : SymGeom::edgeLen(level); }
};
static void run(void* p) {
  double** v = (double**) p;
  VMQuery* q = (VMQuery*) v[2];
  q->query(&v[0], (int) v[1][0], v[1][1], v[1][2], v[1][3]);
}

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  g_inside = true;
  const bool ext = vs_flip("ext");
  const int type = vs_choice("type", 3);
  g_type = type;
  const bool squash = vs_flip("squash");
  const bool elevation = vs_flip("elevation");
  g_kind = ext ? 0 : vs_choice("kind", 2);
  VMQuery q;
  FailGeom geom;
  q.geometry(&geom);
  const char* names[5] = { "Vs", "Zone", "FaultBlock", "Elevation", "Density" };
  const int n = elevation ? 5 : 3;
  q.queryVals(names, n);
  q.queryType(VMQuery::QueryEnum(type));
  q.queryRes(100.0);
  q.squash(squash, -1e30);
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  q.open();
  const double elev = vs_fdouble("elev");
  vs_assume(elev > -1e7);
  vs_assume(elev < 1e7);
  double vals[6] = { 12345.0, 12345.0, 12345.0, 12345.0, 12345.0, 12345.0 };
  double args[4] = { (double) n, -121.0, 36.0, elev };
  double* pack[3] = { vals, args, (double*) &q };
  const int r = vs_call(run, pack);
  vs_assert(r == 0, "no failure escapes a query");
  const ErrorHandler* h = q.errorHandler();
  for (int i = 0; i < n; ++i) vs_observe_d(names[i], vals[i]);
  vs_observe_i("status", h->status());
  vs_assert(vals[n] == 12345.0, "nothing written past the requested values");
  if (g_thrown) {
    vs_cover("failed");
    vs_assert(h->status() == ErrorHandler::ERROR, "a failure is an ERROR");
    const std::string m = h->message();
    vs_assert(m.size() > 0, "a failure leaves a message");
    if (!g_kind) vs_assert(m.find("cannot project this location") != std::string::npos, "the message is the cause");
  } else
    vs_assert(h->status() != ErrorHandler::ERROR, "no failure: no ERROR");

  // no-data values for what could not be determined
  const bool nodata = vs_and(vals[0] == -999.0, vs_and(vals[1] == 0.0, vals[2] == 0.0));
  if (fails_at(-121.0, 36.0, elev)) {
    vs_assert(nodata, "failing location: no data");
    if (elevation) vs_assert(vs_and(vals[3] == -999.0, vals[4] == -999.0), "failing location: no elevation");
  } else if (g_thrown && !elevation)
    vs_assert(nodata, "failing step: no data");
  else if (g_thrown && !squash)
    vs_assert(vals[3] == -999.0, "failing step: no elevation");

  // afterwards all is well
  if (squash) return;
  g_db[0].n = g_db[1].n = 0;
  g_type = 0;
  g_fail = false;
  g_thrown = 0;
  q.errorHandler()->resetStatus();
  q.squash(false);
  q.queryType(VMQuery::MAXRES);
  const char* again[1] = { "Vs" };
  q.queryVals(again, 1);
  vals[0] = 12345.0;
  double* pv = vals;
  q.query(&pv, 1, -120.0, 36.0, 10.0);
  etree_addr_t a;
  a.level = ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  geom.lonLatElevToAddr(&a, -120.0, 36.0, 10.0);
  const DbRecord* d = 0;
  for (int w = 0; w < (ext ? 2 : 1) && !d; ++w) {
    const DbRecord& t = vm_lookup(&g_db[w], a);
    if (t.found && vs_split(t.hit.type == ETREE_LEAF)) d = &t;
  }
  if (d) vs_assert(vs_same_d(vals[0], d->payload.Vs), "a later query gives the stored value");
  else vs_assert(vals[0] == -999.0, "a later query without data");
  vs_assert(h->status() == (d ? ErrorHandler::OK : ErrorHandler::WARNING), "a later query is not an ERROR");
}
