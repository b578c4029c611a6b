// Interface between the harnesses and (a) the symbolic executor, (b) the native
// replay build.  In (a) these functions are built into the executor (rt.py), in
// (b) they are defined in native.cpp and take their values from a model file.
#ifndef SYM_H
#define SYM_H
#include <ostream>
extern "C" {
double sym_real(const char *name, double lo, double hi);       // any real in [lo,hi]
int sym_int(const char *name, int lo, int hi);                 // any integer in [lo,hi]
unsigned long sym_u64(const char *name, unsigned long lo, unsigned long hi);
bool sym_bool(const char *name);
void sym_bytes(const char *name, char *buf, int n);            // n arbitrary bytes
int sym_choose(const char *name, int n);                       // one path per value 0..n-1
int sym_param(const char *name, int dflt);                     // parameter of the entry (registry)
void sym_assume(bool c);
void sym_check(bool c, const char *label);
void sym_check_le(double a, double b, const char *label);
void sym_check_close(double a, double b, double tol, const char *label);
void sym_reach(const char *label);
void sym_observe(const char *label, double v);
void sym_stop(const char *label);
void sym_known(const char *label);
int sym_is_concrete(double v);
int sym_native(void);                                           // 1 in the native replay build
double sym_uf(const char *name, int n, const double *args, double lo, double hi);  // arbitrary function of its arguments
double sym_derivative(double (*f)(void *, double), void *data, double t);
int sym_fork(bool c);                                          // decide a condition now (one path per value)
std::ostream *sym_stream(int i);
int sym_stream_rows(int i);
int sym_stream_cols(int i, int row);
double sym_stream_val(int i, int row, int col);
}
#endif
