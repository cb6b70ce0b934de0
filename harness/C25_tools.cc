// C25: the database tools hand their options on and report failure.
#define MEMDB_ANYOPEN
#include "memdb.h"
static void at_origin(double, double, double* x, double* y) { *x = -74937.817; *y = 380186.124; }
#define PROJ_FWD at_origin
#define PROJ_INV at_origin
#include "proj_mock.h"
#include <math.h>
int gen_main(int, char**);
int pack_main(int, char**);
int avg_main(int, char**);
int info_main(int, char**);
static char* g_argv[16];
static int g_argc = 0, g_status = -1, g_tool = 0;
static void arg(const char* a) { g_argv[g_argc++] = strdup(a); g_argv[g_argc] = 0; }
static void app(void*) {
  g_status = g_tool == 0 ? gen_main(g_argc, g_argv) : g_tool == 1 ? pack_main(g_argc, g_argv) : g_tool == 2 ? avg_main(g_argc, g_argv) : info_main(g_argc, g_argv);
}
static void leaf(MemFile* f, int level, unsigned x, float v) {
  Rec& r = f->rec[f->n++];
  r.addr.x = x; r.addr.y = r.addr.z = r.addr.t = 0; r.addr.level = level; r.addr.type = ETREE_LEAF; r.updates = 0;
  r.pay = mem_payload();
  r.pay.Vs = v;
}
extern "C" void vs_main() {
  g_pj_failing = false;
  g_tool = vs_choice("tool", 4);
  MemFile* in = mem_file("in.etree");
  MemFile* out = mem_file("out.etree");
  MemFile* tmp = mem_file("tmp.etree");
  // options of the tool: 0 gen -i -t -o, 1 pack -i -o, 2 avg -i -o, 3 info file
  const char* opt[3] = {"-i", "-o", "-t"};
  const char* val[3] = {g_tool == 0 ? vs_path("params") : "in.etree", "out.etree", "tmp.etree"};
  const int nopt = g_tool == 0 ? 3 : g_tool == 3 ? 1 : 2;
  const int mode = vs_choice("mode", 3);      // good, bad command line, failing operation
  int wrong = -1, without = -1;
  if (mode == 1) {
    wrong = vs_choice("wrong", g_tool == 3 ? 3 : 4);       // an option missing, a surplus argument, nothing at all, an unknown option
    if (wrong == 0) without = vs_choice("without", nopt);
  }
  int cache = g_tool == 0 ? 512 : 64;
  bool copt = false;
  arg("tool");
  if (g_tool == 3) {
    if (wrong == 1) { arg("in.etree"); arg("surplus"); }
    else if (wrong < 0) arg("in.etree");
  } else if (wrong != 2) {
    const bool swap = vs_flip("swap");
    copt = g_tool < 2 && vs_flip("c");
    if (copt) { cache = vs_range("cache", 1, 4096); arg("-c"); arg(vs_intstr(cache)); }
    for (int k = 0; k < nopt; ++k) {
      const int i = swap ? nopt - 1 - k : k;
      if (i != without) { arg(opt[i]); arg(val[i]); }
    }
    if (wrong == 1) arg("surplus");
    if (wrong == 3) arg("-q");
  }
  // what the tools work on
  in->exists = true; in->schema = Payload::SCHEMA; in->meta = "some metadata";
  leaf(in, 1, 0, 400.0f);
  leaf(in, 1, 0x40000000u, 800.0f);
  int bad = -1;
  if (mode == 2) {
    bad = vs_choice("bad", 2);
    if (bad == 0) in->exists = false;
    else g_failat = vs_choice("failcall", 20);
  }
  if (g_tool == 0 && bad != 0) {
    vs_file_text("params", vs_path("grid"));
    vs_file_text("params", "\n");
    // 0.1 x 0.025 km at the middle of the root octant
    vs_file_text("grid", "0.8 0.2 1 1 1 1\n-121.0 37.0 -1.0 5.0 2.5 2.0 100.0 50.0 1.5 3 4 1\n");
  }
  if (g_tool == 3 && bad == 1 && vs_flip("incomplete")) {
    g_failat = -1;
    if (vs_flip("noschema")) in->schema = 0; else in->meta = 0;
    g_failed = "incomplete";
  }
  const int r = vs_call(app, 0);
  vs_assert(r == 0 || r == 3, "the tool does not end by an exception");
  const int status = r == 3 ? vs_exit_code() : g_status;
  if (mode == 0) vs_assert(status == 0, "a good command line succeeds");
  if (mode == 1) {
    vs_assert(status != 0, "a wrong command line fails");
    vs_assert(vs_out_find("<stderr>", "usage") > 0, "a wrong command line shows the usage");
    vs_assert(g_nhandle == 0, "a wrong command line touches no database");
    vs_cover("usage");
  }
  if (mode == 2) {
    vs_assert((status != 0) == (bad == 0 || g_failed != 0), "failure of the operation is failure of the tool");
    if (status) { vs_assert(vs_out_size("<stderr>") > 0, "failure prints a message"); vs_cover("failed"); }
  }
  if (status) return;
  vs_assert(mem_open_handles() == 0, "databases are closed");
  if (copt || g_tool < 2)
    for (int i = 0; i < g_nhandle; ++i) vs_assert(g_handle[i].cache == cache, "-c sets the cache size");
  if (g_tool == 0) {
    vs_assert(tmp->exists && tmp->n == 1, "-t names the scratch database");
    vs_assert(out->exists && out->n == 1, "-o names the database created");
    vs_assert(mem_sameaddr(out->rec[0].addr, tmp->rec[0].addr) && out->rec[0].pay.Vp == 5000.0f && out->rec[0].pay.Zone == 4, "the grid of the parameter file is ingested");
    vs_assert(out->rec[0].addr.level == 11, "grid ingested at the level of its resolution");
    vs_assert(out->meta && strstr(out->meta, "U.S. Geological Survey"), "database has the description");
    vs_cover("generated");
  } else if (g_tool == 1) {
    vs_assert(out->exists && out->n == 2, "-i is packed into -o");
    for (int i = 0; i < 2; ++i) vs_assert(vs_and(mem_sameaddr(out->rec[i].addr, in->rec[i].addr), mem_same(out->rec[i].pay, in->rec[i].pay)), "octants are packed unchanged");
    vs_cover("packed");
  } else if (g_tool == 2) {
    vs_assert(out->exists && out->n == 3, "-i is averaged into -o");
    vs_assert(out->rec[0].addr.level == 0 && out->rec[0].pay.Vs == 600.0f, "-o holds the averages");
    vs_assert(vs_out_find("<stdout>", "  IN: 2\n") == 1, "summary of the averaging");
    vs_cover("averaged");
  } else {
    vs_assert(vs_out_find("<stdout>", "some metadata") == 1, "metadata is shown");
    vs_assert(vs_out_find("<stdout>", Payload::SCHEMA) == 1, "schema is shown");
    vs_assert(vs_out_find("<stdout>", "Number of octants: 2") == 1, "number of octants is shown");
    vs_cover("info");
  }
  vs_assert(in->n == 2, "input is unchanged");
}
