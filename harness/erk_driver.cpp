// Behaviour of the explicit integrator over several steps, for arbitrary right hand sides
#include "common.hpp"

// an arbitrary function of (t, y)
struct any_ode {
	typedef arma::mat jac_type;
	int n, calls, budget;
	double F;
	std::vector<double> log;   // the first component of every value
	any_ode(int n, double F, int budget) : n(n), calls(0), budget(budget), F(F) {}
	arma::vec eval(double t, const arma::vec &y)
	{
		static const char *nm[3] = {"f0", "f1", "f2"};
		double a[8]; a[0] = t;
		for (int i = 0; i < n; ++i) a[1 + i] = y[i];
		arma::vec r(n);
		for (int i = 0; i < n; ++i) r[i] = sym_uf(nm[i], n + 1, a, -F, F);
		return r;
	}
	arma::vec fun(double t, const arma::vec &y)
	{
		if (++calls > budget) sym_stop("more evaluations than the bound");
		arma::vec r = eval(t, y);
		log.push_back(r[0]);
		return r;
	}
};
static const int emb[6] = {0, 0, 2, 4, 4, 4}, ord[6] = {1, 4, 3, 5, 5, 5}, code[6] = {100, 110, 120, 130, 131, 132};
struct problem {
	int m, n, steps; bool adaptive;
	double t0, t1, dt, maxdt;
	arma::vec y0;
	erk::solver_options so; output_options oo;
	any_ode o;
	erk::rk_output s;
	problem(int evals) : m(sym_param("m", 2)), n(sym_param("n", 1)), o(n, 1, evals)
	{
		adaptive = sym_param("adaptive", 1);
		t0 = sym_real("t0", -1, 1);
		t1 = t0 + sym_real("T", 0.25, 4);
		dt = sym_real("dt", 0.125, 5);
		y0.set_size(n);
		for (int i = 0; i < n; ++i) y0[i] = sym_real("y0", -1, 1);
		so = erk::default_solver_options();
		so.adaptive_step_size = adaptive;
		so.abs_tol = sym_real("atol", 0.015625, 1);
		so.rel_tol = sym_param("rtol", 0) ? sym_real("rtol", 0, 1) : 0.0;
		so.max_dt = maxdt = sym_param("maxdt", 0) ? sym_real("maxdt", 0.125, 4) : 0.0;
		so.max_steps = steps = sym_param("steps", 2);
	}
	void run() { s = erk::odeint(o, t0, t1, y0, so, oo, code[m], dt); }
};
// the time grid (C08)
extern "C" void erk_grid()
{
	problem p(sym_param("evals", 20));
	p.run();
	erk::rk_output &s = p.s;
	std::size_t k = s.t_vals.size();
	sym_check(k >= 1 && s.y_vals.size() == k, "every time has its solution");
	sym_check_close(s.t_vals[0], p.t0, 0, "the first time is the start of the interval");
	for (int i = 0; i < p.n; ++i) sym_check_close(s.y_vals[0][i], p.y0[i], 0, "the first solution is the initial value");
	for (std::size_t j = 0; j + 1 < k; ++j) sym_check(s.t_vals[j] < s.t_vals[j + 1], "times increase");
	sym_check_le(s.t_vals[k - 1], p.t1, "no time lies behind the end of the interval");
	sym_check(s.status == SUCCESS || s.status == ERROR_MAX_STEPS_EXCEEDED, "the status is success or too many steps");
	if (s.status == SUCCESS) {
		sym_check_close(s.t_vals[k - 1], p.t1, 1e-12, "success means the end of the interval is reached");
		sym_reach("success");
	} else {
		sym_check(s.t_vals[k - 1] < p.t1, "failure means the end of the interval is not reached");
		sym_check((int)k == p.steps + 1, "as many steps as allowed were taken");
		sym_reach("too many steps");
	}
	sym_observe("t", s.t_vals[k - 1]); sym_observe("k", k);
}
// every accepted step is the Runge-Kutta step (C09)
extern "C" void erk_steps()
{
	problem p(sym_param("evals", 20));
	p.run();
	erk::rk_output &s = p.s;
	erk::solver_coeffs sc = erk::get_coefficients(code[p.m]);
	std::size_t k = s.t_vals.size(), Ns = sc.b.size(), n = p.n;
	sym_check(s.y_vals.size() == k && s.stages.size() == k && s.err_est.size() == k && s.err.size() == k, "every step has its results");
	if (!(s.y_vals.size() == k && s.stages.size() == k && s.err_est.size() == k && s.err.size() == k)) return;
	for (std::size_t j = 0; j + 1 < k; ++j) {
		double t = s.t_vals[j], h = s.t_vals[j + 1] - t;
		const arma::vec &K = s.stages[j + 1], &y = s.y_vals[j];
		sym_check(K.size() == n*Ns, "there is a stage for every internal point");
		if (K.size() != n*Ns) return;
		for (std::size_t i = 0; i < Ns; ++i) {
			arma::vec Y = y;
			for (std::size_t c = 0; c < n; ++c)
				for (std::size_t l = 0; l < i; ++l) Y[c] += h*sc.A(i, l)*K[l*n + c];
			arma::vec f = p.o.eval(t + sc.c[i]*h, Y);
			for (std::size_t c = 0; c < n; ++c) sym_check_close(K[i*n + c], f[c], 1e-9, "a stage is the slope at its internal point");
		}
		double e2 = 0;
		for (std::size_t c = 0; c < n; ++c) {
			double y1 = y[c], e = 0;
			for (std::size_t i = 0; i < Ns; ++i) y1 += h*sc.b[i]*K[i*n + c];
			sym_check_close(s.y_vals[j + 1][c], y1, 1e-9, "the step is the weighted sum of the stages");
			if (p.adaptive) {
				for (std::size_t i = 0; i < Ns; ++i) e += h*(sc.b2[i] - sc.b[i])*K[i*n + c];
				sym_check_close(s.err_est[j + 1][c], e, 1e-9, "the error estimate is the difference of the two methods");
				double q = s.err_est[j + 1][c]/(p.so.abs_tol + p.so.rel_tol*std::max(std::fabs(y[c]), std::fabs(s.y_vals[j + 1][c])));
				e2 += q*q/n;
			}
		}
		if (p.adaptive) {
			sym_check_le(s.err[j + 1], 1, "accepted steps satisfy the tolerance");
			sym_check_le(0, s.err[j + 1], "errors are not negative");
			sym_check_close(s.err[j + 1]*s.err[j + 1], e2, 1e-12, "the error is the root mean square of the estimate over the tolerances");
		}
		sym_reach("step");
	}
	sym_observe("y", s.y_vals[k - 1][0]); sym_observe("k", k);
}
// the error is measured relative to the solution, component by component (C10)
struct offset_ode : any_ode {
	double A, h; int p;
	offset_ode(int n) : any_ode(n, 0.0078125, 100) {}
	arma::vec fun(double t, const arma::vec &y)
	{
		arma::vec r = any_ode::fun(t, y);
		double x = A;
		for (int i = 0; i < p; ++i) x *= t/h;
		for (int c = 0; c < n; ++c) r[c] += c % 2 ? -x : x;
		return r;
	}
};
extern "C" void erk_error()
{
	int m = sym_param("m", 2), n = 3, neg = sym_param("neg", 0);
	erk::solver_coeffs sc = erk::get_coefficients(code[m]);
	offset_ode o(n);
	o.p = emb[m]; o.h = 0.125;
	double d = 0;
	for (std::size_t i = 0; i < sc.b.size(); ++i) {
		double x = 1;
		for (int k = 0; k < o.p; ++k) x *= sc.c[i];
		d += (sc.b2[i] - sc.b[i])*x;
	}
	o.A = 0.25/(o.h*std::fabs(d));
	arma::vec y0(n);
	for (int i = 0; i < n; ++i) y0[i] = (neg >> i & 1) ? sym_real("y0", -33, -32) : sym_real("y0", 32, 33);
	erk::solver_options so = erk::default_solver_options();
	so.abs_tol = sym_real("atol", 1, 2); so.rel_tol = sym_real("rtol", 0, 1);
	so.max_steps = 1;
	output_options oo;
	erk::rk_output s = erk::odeint(o, 0.0, 1.0, y0, so, oo, code[m], o.h);
	sym_check(s.err.size() == 2 && s.err_est.size() == 2, "one step is taken");
	if (s.err.size() != 2 || s.err_est.size() != 2) return;
	double e2 = 0;
	for (int c = 0; c < n; ++c) {
		double e = 0;
		for (std::size_t i = 0; i < sc.b.size(); ++i) e += o.h*(sc.b2[i] - sc.b[i])*s.stages[1][i*n + c];
		sym_check_close(s.err_est[1][c], e, 1e-9, "the error estimate is the difference of the two methods");
		double a = std::fabs(y0[c]), b = std::fabs(s.y_vals[1][c]);
		double q = s.err_est[1][c]/(so.abs_tol + so.rel_tol*(sym_fork(a > b) ? a : b));
		e2 += q*q/n;
	}
	sym_check_close(s.err[1]*s.err[1], e2, 1e-12, "the error is the root mean square of the estimate over the tolerances");
	sym_check_le(s.err[1], 1, "accepted steps satisfy the tolerance");
	sym_reach("step");
	sym_observe("err", s.err[1]);
}
// the step size (C11)
extern "C" void erk_controller()
{
	problem p(sym_param("evals", 20));
	p.run();
	erk::rk_output &s = p.s;
	erk::solver_coeffs sc = erk::get_coefficients(code[p.m]);
	double h1 = p.dt;
	if (sym_fork(h1 > p.t1 - p.t0)) h1 = p.t1 - p.t0;
	if (p.maxdt > 0 && sym_fork(h1 > p.maxdt)) h1 = p.maxdt;
	// the first attempt
	std::size_t Ns = sc.b.size();
	const std::vector<double> &K = p.o.log;
	if (K.size() < Ns) { sym_check(false, "some step is attempted"); return; }
	double e = 0;
	for (std::size_t i = 0; i < Ns; ++i) e += h1*(sc.b2[i] - sc.b[i])*K[i];
	if (sym_fork(e < 0)) e = -e;
	e /= p.so.abs_tol;
	int q = emb[p.m] + 1;
	std::size_t k = s.t_vals.size();
	if (k < 2) { sym_check(s.status != SUCCESS, "some step is taken"); return; }
	double h = s.t_vals[1] - s.t_vals[0], prev;
	std::size_t rej = s.count.reject_err;
	if (sym_fork(e < 0.999999)) {
		sym_check_close(h, h1, 1e-12, "a first step within the tolerance is accepted");
		sym_reach("accepted");
		if (k < 3 || rej > 0) return;
		prev = h1; h = s.t_vals[2] - s.t_vals[1];
		e = s.err[1];
	} else if (sym_fork(e > 1.000001)) {
		sym_check(rej > 0, "a first step outside the tolerance is rejected");
		sym_check_le(h, h1, "a rejected step is repeated with a smaller one");
		sym_reach("rejected");
		if (rej > 1) return;
		prev = h1;
	} else return;
	double cap = 4*0.9*prev;
	sym_check_le(h, cap + 1e-12, "the step size grows at most by the factor 4");
	if (p.maxdt > 0) sym_check_le(h, p.maxdt, "the step size does not exceed max_dt");
	double x = h/(0.9*prev), xq = 1;
	for (int i = 0; i < q; ++i) xq *= x;
	sym_check_le(xq*e, 1 + 1e-9, "the step size follows the error");
	bool last = s.status == SUCCESS && sym_fork(h >= p.t1 - s.t_vals[k - 2] - 1e-12);
	bool capped = sym_fork(h > cap - 1e-9) || (p.maxdt > 0 && sym_fork(h > p.maxdt - 1e-9));
	if (!last && !capped) { sym_check_le(1 - 1e-6, xq*e, "the step size follows the error"); sym_reach("proportional"); }
}
// counters (C13)
extern "C" void erk_counters()
{
	problem p(sym_param("evals", 20));
	p.run();
	erk::rk_output &s = p.s;
	std::size_t acc = s.t_vals.size() - 1;
	sym_check((int)s.count.fun_evals == p.o.calls, "the number of evaluations is counted");
	if (s.status == SUCCESS) {
		sym_check(s.count.attempt == acc + s.count.reject_err, "attempts are accepted or rejected");
		sym_check_close(s.accept_frac*s.count.attempt, acc, 1e-9, "the fraction of accepted steps");
		if (s.count.reject_err) sym_reach("rejections");
		sym_reach("success");
	} else
		sym_check(s.count.attempt >= acc + s.count.reject_err, "attempts are accepted or rejected");
	if (!p.adaptive) sym_check(s.count.reject_err == 0, "fixed steps are never rejected");
	sym_observe("a", s.count.attempt); sym_observe("r", s.count.reject_err);
}
