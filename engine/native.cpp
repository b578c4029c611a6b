// Replay of one model against the real code: values come from the file in SYM_MODEL.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <exception>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
static std::map<std::string, std::string> model;
static std::map<std::string, int> cnt;
static std::map<std::string, int> par;
static FILE *rep;
static bool lax;
static const char *val(const char *name, std::string &key)
{
	key = std::string(name) + "#" + std::to_string(cnt[name]++);
	auto it = model.find(key);
	if (it == model.end()) { fprintf(rep, "MISSING %s\n", key.c_str()); return nullptr; }
	return it->second.c_str();
}
static void finish(int c) { fflush(rep); _exit(c); }
extern "C" {
double sym_real(const char *n, double lo, double hi)
{
	if (lo == hi) { std::string k; cnt[n]++; return lo; }
	std::string k; const char *v = val(n, k);
	return v ? strtod(v, 0) : 0.5 * (lo + hi);
}
int sym_int(const char *n, int lo, int hi) { std::string k; const char *v = val(n, k); return v ? (int)strtoll(v, 0, 10) : lo; }
unsigned long sym_u64(const char *n, unsigned long lo, unsigned long hi) { std::string k; const char *v = val(n, k); return v ? strtoull(v, 0, 10) : lo; }
bool sym_bool(const char *n) { std::string k; const char *v = val(n, k); return v ? atoi(v) : false; }
void sym_bytes(const char *n, char *b, int m) { for (int i = 0; i < m; ++i) { std::string k; const char *v = val(n, k); b[i] = v ? atoi(v) : 0; } }
int sym_choose(const char *n, int m) { std::string k; const char *v = val(n, k); return v ? atoi(v) : 0; }
int sym_param(const char *n, int d) { return par.count(n) ? par[n] : d; }
void sym_assume(bool c) { if (!c && !lax) { fprintf(rep, "ASSUMEFAIL\nEND\n"); finish(0); } }
void sym_check(bool c, const char *l) { if (!c) fprintf(rep, "FAIL %s\n", l); }
void sym_check_le(double a, double b, const char *l)
{ if (!(a <= b)) fprintf(rep, "FAIL %s\n", l); }
void sym_check_close(double a, double b, double t, const char *l)
{ if (!(std::fabs(a - b) <= t)) fprintf(rep, "FAIL %s\nVALUES %.17g %.17g tol %g\n", l, a, b, t); }
void sym_reach(const char *l) { fprintf(rep, "REACH %s\n", l); }
void sym_observe(const char *l, double v) { fprintf(rep, "OBS %s %.17g\n", l, v); }
void sym_stop(const char *l) { fprintf(rep, "REACH stop:%s\nEND\n", l); finish(0); }
void sym_known(const char *l) { fprintf(rep, "KNOWN %s\n", l); }
int sym_is_concrete(double) { return 0; }
int sym_native(void) { return 1; }
int sym_fork(bool c) { return c; }
double sym_uf(const char *n, int m, const double *a, double lo, double hi)
{
	static std::map<std::string, std::vector<std::pair<std::vector<double>, double>>> tab;
	std::vector<double> k(a, a + m);
	for (auto &e : tab[n]) {
		bool eq = true;
		for (int i = 0; i < m; ++i) if (!(std::fabs(e.first[i] - k[i]) <= 1e-9 * (1e-3 + std::fabs(k[i])))) eq = false;
		if (eq) return e.second;
	}
	double v = sym_real(n, lo, hi);
	tab[n].push_back(std::make_pair(k, v));
	return v;
}
double sym_derivative(double (*f)(void *, double), void *d, double t)
{
	double h = 1e-4;
	return (8 * (f(d, t + h) - f(d, t - h)) - (f(d, t + 2 * h) - f(d, t - 2 * h))) / (12 * h);
}
}
static std::map<int, std::ostringstream *> streams;
extern "C" std::ostream *sym_stream(int i)
{
	if (!streams[i]) { streams[i] = new std::ostringstream; streams[i]->precision(17); }
	return streams[i];
}
static std::vector<std::vector<double>> rows(int i)
{
	std::vector<std::vector<double>> r;
	if (!streams[i]) return r;
	std::istringstream in(streams[i]->str());
	std::string l;
	while (std::getline(in, l)) {
		std::istringstream w(l); std::string t; r.emplace_back();
		while (w >> t) { char *e; double v = strtod(t.c_str(), &e); r.back().push_back(*e ? NAN : v); }
	}
	return r;
}
extern "C" int sym_stream_rows(int i) { return rows(i).size(); }
extern "C" int sym_stream_cols(int i, int r) { return rows(i)[r].size(); }
extern "C" double sym_stream_val(int i, int r, int c) { return rows(i)[r][c]; }

// a clock under the control of the model
#include <sys/time.h>
static bool symclock;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	if (!symclock) { tv->tv_sec = 1700000000; tv->tv_usec = 0; return 0; }
	tv->tv_sec = sym_u64("clock_s", 0, 1ul << 31); tv->tv_usec = sym_u64("clock_us", 0, 999999);
	return 0;
}
static void term()
{
	try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); fprintf(rep, "CRASH abort\nEND\n"); }
	catch (std::exception &e) { fprintf(rep, "CRASH exception %s\nEND\n", e.what()); }
	catch (...) { fprintf(rep, "CRASH exception ?\nEND\n"); }
	finish(0);
}
static void sig(int s)
{
	fprintf(rep, "CRASH signal %d\nEND\n", s); finish(0);
}
int main(int argc, char **argv)
{
	rep = fopen(argv[2], "w");
	FILE *f = fopen(argv[3], "r");
	char a[8], b[512], c[512];
	while (fscanf(f, "%7s %511s %511s", a, b, c) == 3) { if (*a == 'v') model[b] = c; else par[b] = atoi(c); }
	fclose(f);
	lax = getenv("SYM_LAX"); symclock = par.count("symclock") && par["symclock"];
	std::set_terminate(term);
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, sig);
	void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 3; }
	h();
	fprintf(rep, "END\n");
	finish(0);
}
