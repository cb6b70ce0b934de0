// C16: error status, message and log file against every bounded call history.
#include "vs.h"
#include "cencalvm/storage/ErrorHandler.h"
extern "C" {
#include "cencalvm/query/cvmerror.h"
}
#include <string>
#include <string.h>
using cencalvm::storage::ErrorHandler;
#if VS_TIER
#define STEPS 5
#else
#define STEPS 4
#endif
static const char* FILES[2] = { "a.log", "b.log" };
static const char* LINES[3] = { "alpha\n", "beta 12 %s%d\n", "gamma,delta" };

static bool same_text(const char* a, const char* b, int n) {
  bool ok = true;
  for (int i = 0; i < n; ++i) ok = vs_and(ok, a[i] == b[i]);
  return ok;
}

struct Model {
  int status;
  std::string message;
  int file;          // -1 none chosen
  bool on;
  std::string text[2];
  bool exists[2];
};

static void check(const ErrorHandler& h, const Model& m) {
  vs_assert(int(h.status()) == m.status, "status matches the history");
  vs_assert(m.message == h.message(), "message matches the history");
}


static void histories() {
  Model m = { 0, "", -1, false, { "", "" }, { false, false } };
  {
    ErrorHandler h;
    check(h, m);
    for (int i = 0; i < STEPS; ++i) {
      switch (vs_choice("op", 8)) {
        case 0: h.error("bad thing"); m.status = 2; m.message = "bad thing"; break;
        case 1: h.warning("odd thing"); m.status = 1; m.message = "odd thing"; break;
        case 2: h.resetStatus(); m.status = 0; m.message = ""; break;
        case 3: case 4: {
          h.log(LINES[i % 3]);
          if (m.on && m.file >= 0) m.text[m.file] += LINES[i % 3];
          // a log entry never changes the status
          break; }
        case 5: {
          int f = vs_choice("file", 2);
          h.logFilename(vs_path(FILES[f]));
          m.file = f; m.on = true; m.text[f] = ""; m.exists[f] = true;
          break; }
        case 6: h.loggingOn(false); m.on = false; break;
        default: h.loggingOn(true); m.on = true; break;
      }
      check(h, m);
    }
  }
  // the handler is gone: everything logged is in the file, nothing else is
  for (int f = 0; f < 2; ++f) {
    vs_assert(vs_file_exists(FILES[f]) == m.exists[f], "log files exist exactly when named");
    if (m.exists[f])
      vs_assert(vs_file_is(FILES[f], m.text[f].c_str()), "log file holds exactly the lines logged while it was active");
    vs_observe_i("size", m.text[f].size());
  }
}

// any message text of up to 3 characters is stored and returned unchanged
static void texts() {
  char b[4];
  for (int i = 0; i < 3; ++i) b[i] = (char) vs_range("ch", 0, 127);
  b[3] = 0;
  char keep[4];
  memcpy(keep, b, 4);
  ErrorHandler h;
  bool c_api = vs_flip("c_api");
  if (c_api)
    vs_assert(cencalvm_error_status(&h) == 0, "C status of a new handler");
  bool warn = vs_flip("warn");
  if (warn) h.warning(b); else h.error(b);
  for (int i = 0; i < 3; ++i) b[i] = '#';       // the handler keeps its own copy
  int n = strlen(keep);
  const char* got = c_api ? cencalvm_error_message(&h) : h.message();
  vs_assert((int) strlen(got) == n, "message length kept");
  vs_assert(same_text(got, keep, n), "message text kept");
  int st = c_api ? cencalvm_error_status(&h) : int(h.status());
  vs_assert(st == (warn ? 1 : 2), "warning and error statuses");
  // and of any length
  std::string lots(100 + 1000 * vs_choice("long", 3), 'x');
  lots += keep;
  if (warn) h.warning(lots.c_str()); else h.error(lots.c_str());
  vs_assert(strlen(h.message()) == lots.size() && !strncmp(h.message(), lots.c_str(), lots.size() - n), "long messages are kept");
  if (c_api) cencalvm_error_resetStatus(&h); else h.resetStatus();
  vs_assert(h.status() == ErrorHandler::OK && h.message()[0] == 0, "reset clears status and message");
}

// a log file that cannot be opened: logging does nothing, status untouched
static void faults() {
  vs_file_unwritable("a.log");
  ErrorHandler h;
  h.warning("w");
  h.logFilename(vs_path("a.log"));
  h.log("lost\n");
  vs_assert(h.status() == ErrorHandler::WARNING && !strcmp(h.message(), "w"), "failing log file leaves the status alone");
  h.logFilename(vs_path("b.log"));
  h.log("kept\n");
  h.loggingOn(false);
  vs_assert(vs_file_is("b.log", "kept\n"), "logging recovers with a usable file");
}

extern "C" void vs_main() {
  switch (vs_choice("part", 3)) {
    case 0: histories(); break;
    case 1: texts(); break;
    default: faults(); break;
  }
}
