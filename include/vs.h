// Harness API: every function has a symbolic meaning in /verif/engine and a
// native meaning (replay of recorded values) in /verif/include/vs_native.cc.
#ifndef VS_H
#define VS_H
#include <stdint.h>
extern "C" {
// --- symbolic inputs -------------------------------------------------------
double vs_double(const char* name);            // any double, NaN/inf included
double vs_fdouble(const char* name);           // any finite double
float vs_float(const char* name);
float vs_ffloat(const char* name);             // any finite float
int vs_int(const char* name);
int vs_range(const char* name, int lo, int hi); // lo..hi inclusive, symbolic
int vs_choice(const char* name, int n);         // 0..n-1, one path per value
unsigned vs_uint(const char* name);
short vs_short(const char* name);
bool vs_bool(const char* name);                 // symbolic
bool vs_flip(const char* name);                 // one path per value
// uninterpreted (functionally consistent, otherwise arbitrary) functions
double vs_uf_d(const char* name, double a, double b, double c);
unsigned vs_uf_u(const char* name, double a, double b, double c);
bool vs_uf_b(const char* name, double a, double b, double c);
// --- logic without branching ----------------------------------------------
bool vs_and(bool a, bool b);
bool vs_or(bool a, bool b);
bool vs_not(bool a);
bool vs_implies(bool a, bool b);
bool vs_same_d(double a, double b);             // same value; NaN equals NaN, -0 differs from 0
bool vs_same_f(float a, float b);
double vs_ite_d(bool c, double a, double b);
int vs_ite_i(bool c, int a, int b);
unsigned vs_ite_u(bool c, unsigned a, unsigned b);
// |a-b| <= abs + rel*max(|a|,|b|), decided over the reals with rounding bounds
bool vs_known(bool c);                           // syntactically true (natively: true)
bool vs_split(bool c);                          // branch explicitly
long vs_concrete(long v);                       // one path per value
// --- verdicts --------------------------------------------------------------
void vs_assume(bool c);
void vs_assert(bool c, const char* label);
// |got-want| <= atol + rtol*max(|got|,|want|), or identical
void vs_assert_close(double got, double want, double atol, double rtol, const char* label);
void vs_fail(const char* label);                // reaching here violates the property
void vs_cover(const char* label);
void vs_observe_d(const char* name, double v);
void vs_observe_i(const char* name, long v);
// --- control ---------------------------------------------------------------
// run f(arg): 0 returned, 1 std::exception, 2 other exception, 3 exit() called
int vs_call(void (*f)(void*), void* arg);
int vs_exit_code(void);
const char* vs_what(void);                      // message of the last std::exception
void vs_exit(int code) __attribute__((noreturn));
// --- files -----------------------------------------------------------------
const char* vs_path(const char* name);          // scratch path for a file name
void vs_file_text(const char* name, const char* text);  // append to input file
void vs_file_num(const char* name, double v);
void vs_file_numf(const char* name, float v);
void vs_file_int(const char* name, int v);
const char* vs_numstr(double v);                // decimal text of v (exact on re-reading)
const char* vs_intstr(int v);
void vs_file_unwritable(const char* name);      // opening for output fails
bool vs_file_exists(const char* name);
bool vs_file_is(const char* name, const char* text);     // whole contents
// reading what the code wrote.  name "<stdout>" / "<stderr>" for the streams
void vs_out_rewind(const char* name);
bool vs_out_eof(const char* name);
bool vs_out_eol(const char* name);               // at end of line: consumes it
bool vs_out_num(const char* name, double* v, int* prec); // next token as number
// advance to the next number in the text (anywhere) and read it
bool vs_out_nextnum(const char* name, double* v, int* prec);
bool vs_out_text(const char* name, const char* text);      // matches here: consumes it
void vs_out_load(const char* text);                        // text becomes the file "<mem>"
int vs_out_find(const char* name, const char* text);     // occurrences of text
int vs_out_size(const char* name);                        // 0 if empty
// same value once printed with prec decimals
bool vs_printed(double got, double want, int prec);
// --- heap ------------------------------------------------------------------
long vs_heap_live(void);                         // live heap allocations (0 natively)
}
#endif
