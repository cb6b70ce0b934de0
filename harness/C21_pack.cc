// C21: creating a database and packing one: contents, schema and metadata are
// carried over in order, and every failure of the library is reported.
#include "vs.h"
#include "memdb.h"
#include "cencalvm/create/VMCreator.h"
#include "cencalvm/storage/Geometry.h"
#include "cencalvm/storage/Payload.h"

#define NREC (VS_TIER ? 6 : 4)
static cencalvm::create::VMCreator* g_c;
static int g_cache;
static void pack(void*) { g_c->packDB("packed.etree", "unpacked.etree", g_cache); }
static void opendb(void*) { g_c->openDB("new.etree", g_cache, "what this is"); }
static void closedb(void*) { g_c->closeDB(); }

static void packing(void) {
  MemFile* in = mem_file("unpacked.etree");
  MemFile* out = mem_file("packed.etree");
  const int n = vs_choice("octants", NREC + 1);
  Rec before[NREC + 1];
  in->exists = !vs_flip("missing");
  for (int i = 0; i < n; ++i) {
    Rec& r = in->rec[in->n++];
    r.addr.x = vs_uint("x"); r.addr.y = vs_uint("y"); r.addr.z = vs_uint("z"); r.addr.t = 0;
    r.addr.level = vs_range("level", 0, 31);
    r.addr.type = vs_bool("leaf") ? ETREE_LEAF : ETREE_INTERIOR;
    r.pay = mem_payload();
    r.updates = 0;
    before[i] = r;
  }
  in->schema = Payload::SCHEMA;
  const bool meta = vs_flip("metadata");
  if (meta) in->meta = "made by hand\nhost: here";
  const bool old = vs_flip("oldoutput");
  if (old) {
    out->exists = true; out->n = 1; out->rec[0].addr.level = 3; out->meta = "old"; out->schema = Payload::SCHEMA;
  }
  g_failat = vs_choice("failcall", 10 + 2 * n) - 1;
  const int r = vs_call(pack, 0);
  vs_assert(r <= 1, "only standard exceptions, no termination");
  if (r == 0) {
    vs_assert(g_failed == 0, "every failure of the database library is reported");
    vs_assert(in->exists && n > 0, "a missing or empty database is reported");
    vs_assert(mem_open_handles() == 0, "both databases are closed");
    vs_assert(out->schema && 0 == strcmp(out->schema, Payload::SCHEMA), "packed database has the schema");
    if (meta) vs_assert(out->meta && 0 == strcmp(out->meta, in->meta), "metadata is carried over unchanged");
    else vs_assert(out->meta == 0, "no metadata is made up");
    vs_assert(out->n == n, "packed database has as many octants");
    for (int i = 0; i < n; ++i) {
      vs_assert(mem_sameaddr(out->rec[i].addr, before[i].addr), "octants are in the same order");
      vs_assert(out->rec[i].addr.type == before[i].addr.type, "octants keep their type");
      vs_assert(mem_same(out->rec[i].pay, before[i].pay), "octants keep their values");
      vs_assert(out->rec[i].updates == 0, "octants are written once");
    }
    for (int i = 0; i < g_nhandle; ++i) vs_assert(g_handle[i].cache == g_cache, "cache size is passed on");
    vs_cover("packed");
  } else {
    vs_assert(g_failed != 0, "a good database is packed");
    vs_assert(vs_what() && vs_what()[0], "failure has a message");
    if (g_failat < 0 && in->exists) vs_cover("empty database");
    vs_cover("pack failed");
  }
  vs_assert(in->n == n, "unpacked database is unchanged");
  for (int i = 0; i < n; ++i)
    vs_assert(vs_and(mem_sameaddr(in->rec[i].addr, before[i].addr), mem_same(in->rec[i].pay, before[i].pay)), "unpacked octants are unchanged");
}

static void creating(void) {
  MemFile* f = mem_file("new.etree");
  const bool old = vs_flip("oldfile");
  if (old) { f->exists = true; f->n = 1; f->meta = "old"; f->payloadsize = 8; }
  g_failat = vs_choice("failcall", 6) - 1;
  int r = vs_call(opendb, 0);
  vs_assert(r <= 1, "only standard exceptions, no termination");
  if (r == 0) {
    vs_assert(g_failed == 0, "every failure while creating is reported");
    vs_assert(f->exists && f->n == 0, "a new database is empty");
    vs_assert(f->schema && 0 == strcmp(f->schema, Payload::SCHEMA), "a new database has the schema");
    vs_assert(f->meta && 0 == strncmp(f->meta, "what this is", 12), "a new database has the description");
    vs_assert(mem_open_handles() == 1, "a new database is open");
    vs_assert(g_handle[0].cache == g_cache, "cache size of a new database");
    if (vs_flip("close")) {
      r = vs_call(closedb, 0);
      vs_assert(r <= 1, "only standard exceptions, no termination");
      vs_assert((r == 1) == (g_failed != 0), "a failure to close is reported");
      vs_assert(mem_open_handles() == 0, "closing closes");
      if (r == 0) {
        vs_assert(vs_call(closedb, 0) == 0, "closing twice is harmless");
        vs_cover("closed");
      }
    }
    vs_cover("created");
  } else {
    vs_assert(g_failed != 0, "creating works");
    vs_assert(vs_what() && vs_what()[0], "failure to create has a message");
    vs_cover("not created");
  }
}

extern "C" void vs_main() {
  g_cache = vs_range("cache", 1, 4096);
  g_c = new cencalvm::create::VMCreator;
  const bool quiet = vs_flip("quiet");
  g_c->quiet(quiet);
  if (vs_flip("pack")) packing(); else creating();
  if (quiet) vs_assert(vs_out_size("<stdout>") == 0, "quiet means no output");
  const int open = mem_open_handles();
  delete g_c;
  if (open) vs_assert(mem_open_handles() <= open, "destruction opens nothing");
}
