// C19: the averager checks its input, reports every failure of the database
// library, carries schema and metadata over, and leaves no database open.
#include "vs.h"
#include "memdb.h"
#include "cencalvm/average/Averager.h"
#include <stdio.h>

static cencalvm::average::Averager* g_avg;
static void run(void*) { g_avg->average(); }

static void leaf(MemFile* f, int level, unsigned x, unsigned y, unsigned z) {
  Rec& r = f->rec[f->n++];
  r.addr.x = x; r.addr.y = y; r.addr.z = z; r.addr.t = 0; r.addr.level = level; r.addr.type = ETREE_LEAF;
  r.pay = mem_payload(); r.updates = 0;
}

extern "C" void vs_main() {
  MemFile* in = mem_file("input.etree");
  MemFile* out = mem_file("output.etree");
  const int n = 1 + vs_choice("leaves", VS_TIER ? 3 : 2);
  Rec before[3];
  in->exists = !vs_flip("missing");
  leaf(in, 1, 0, 0, 0);
  if (n > 1) leaf(in, 1, 0x40000000u, 0, 0);
  if (n > 2) leaf(in, 2, 0, 0x40000000u, 0);
  for (int i = 0; i < n; ++i) before[i] = in->rec[i];
  const int schema = in->exists ? vs_choice("schema", 3) : 0;
  in->schema = schema == 0 ? Payload::SCHEMA : schema == 1 ? 0 : "float Vp; float Vs;";
  const bool size = in->exists && vs_flip("othersize");
  if (size) {
    const int s = vs_range("paysize", 1, 1000);
    vs_assume(s != (int) sizeof(PayloadStruct));
    in->payloadsize = s;
  }
  const bool meta = vs_flip("metadata");
  if (meta) in->meta = "made by hand";
  const bool old = vs_flip("oldoutput");
  if (old) {
    out->exists = true;
    leaf(out, 3, 0, 0, 0);
    out->schema = Payload::SCHEMA;
    out->meta = "old metadata";
  }
  const bool quiet = vs_flip("quiet");
  const bool compatible = in->exists && schema == 0 && !size;
  g_failat = compatible ? vs_choice("failcall", VS_TIER ? 24 : 18) - 1 : vs_choice("failcall", 3) - 1;

  g_avg = new cencalvm::average::Averager;
  g_avg->filenameIn("input.etree");
  g_avg->filenameOut("output.etree");
  g_avg->quiet(quiet);
  const int r = vs_call(run, 0);
  vs_assert(r <= 1, "only standard exceptions, no termination");
  if (r == 0) {
    vs_assert(compatible, "an incompatible or missing input is reported");
    vs_assert(g_failed == 0, "every failure of the database library is reported");
    vs_assert(mem_open_handles() == 0, "both databases are closed");
    vs_assert(out->exists && out->schema && 0 == strcmp(out->schema, Payload::SCHEMA), "output has the schema of the payload");
    if (meta) {
      vs_assert(out->meta != 0 && 0 == strncmp(out->meta, "made by hand", 12), "metadata of the input is carried over");
      vs_cover("with metadata");
    } else {
      vs_assert(out->meta == 0, "no metadata is made up");
    }
    int leaves = 0;
    for (int i = 0; i < out->n; ++i)
      if (out->rec[i].addr.type == ETREE_LEAF) {
        vs_assert(leaves < n, "output holds only octants of this run");
        vs_assert(mem_sameaddr(out->rec[i].addr, before[leaves].addr), "leaf address kept");
        vs_assert(mem_same(out->rec[i].pay, before[leaves].pay), "leaf values kept");
        ++leaves;
      }
    vs_assert(leaves == n, "every leaf is in the output");
    if (quiet)
      vs_assert(vs_out_size("<stdout>") == 0, "quiet means no output");
    else {
      char line[64];
      snprintf(line, sizeof line, "  IN: %d\n", n);
      vs_assert(vs_out_find("<stdout>", line) == 1, "summary gives the number of octants read");
      snprintf(line, sizeof line, "  OUT total: %d, interior: %d\n", out->n, out->n - n);
      vs_assert(vs_out_find("<stdout>", line) == 1, "summary gives the numbers of octants written");
      vs_cover("summary");
    }
    vs_cover("averaged");
  } else {
    vs_assert(!compatible || g_failed != 0, "a good input is averaged");
    const char* what = vs_what();
    vs_assert(what && what[0], "failure has a message");
    if (!in->exists || (!compatible && g_failed == 0)) {
      vs_assert(strstr(what, "input.etree") != 0, "message names the input file");
      vs_cover("bad input");
    }
    if (compatible && g_failat == 0) vs_assert(strstr(what, "input.etree") != 0, "message names the input file that cannot be opened");
    if (compatible && g_failat == 1) vs_assert(strstr(what, "output.etree") != 0, "message names the output file that cannot be opened");
    if (!compatible && old) {
      vs_assert(out->exists && out->n == 1 && out->meta && 0 == strcmp(out->meta, "old metadata"), "an unusable input leaves an existing output alone");
      vs_cover("old output kept");
    }
    vs_cover("failed");
  }
  // the input is never changed
  vs_assert(in->n == n, "input is unchanged");
  for (int i = 0; i < n; ++i)
    vs_assert(vs_and(mem_sameaddr(in->rec[i].addr, before[i].addr), mem_same(in->rec[i].pay, before[i].pay)), "input octants are unchanged");
  delete g_avg;
  vs_assert(mem_open_handles() == 0, "nothing stays open after the averager is gone");
}
