// Order of the explicit Runge-Kutta methods and of their embedded error estimates
#include "common.hpp"
#include "trees.hpp"

static const int codes[6] = {100, 110, 120, 130, 131, 132};
static const int orders[6] = {1, 4, 3, 5, 5, 5};     // advertised (method names)
static const int orders2[6] = {0, 0, 2, 4, 4, 4};    // embedded method, 0: none

struct tree_ode {
	typedef arma::mat jac_type;
	std::vector<tree> ts;
	arma::vec a, y0;
	double t0;
	// component i: tree i; component n+i: tree i with its leaves replaced by t - t0
	arma::vec fun(double t, const arma::vec &y)
	{
		std::size_t n = ts.size();
		arma::vec r(2*n);
		for (std::size_t v = 0; v < 2; ++v)
			for (std::size_t i = 0; i < n; ++i) {
				double f = a[i];
				for (int c : ts[i].ch) {
					if (v && ts[c].ch.empty()) f *= t - t0;
					else { std::size_t k = c + (v ? n : 0); f *= y[k] - y0[k]; }
				}
				r[v*n + i] = f;
			}
		return r;
	}
	// a leaf replaced by t - t0 has no factor a
	double weight(std::size_t v, std::size_t i) const
	{
		double w = a[i];
		for (int c : ts[i].ch) {
			if (v && ts[c].ch.empty()) continue;
			w *= weight(v, c);
		}
		return w;
	}
};

static void setup(tree_ode &o, int p, double &h)
{
	o.ts = all_trees(p);
	std::size_t n = o.ts.size();
	o.a.set_size(n); o.y0.set_size(2*n);
	for (std::size_t i = 0; i < n; ++i) o.a[i] = sym_real("a", 0.5, 1);
	for (std::size_t i = 0; i < 2*n; ++i) o.y0[i] = sym_real("y0", -1, 1);
	o.t0 = sym_real("t0", -1, 1);
	h = sym_real("h", 0.125, 1);
}
static double pw(double h, int n) { double r = 1; while (n--) r *= h; return r; }

// C01: one step of the solver reproduces every elementary differential up to its order
extern "C" void erk_main()
{
	int k = sym_param("m", 0), p = orders[k];
	bool adaptive = sym_param("adaptive", 0);
	tree_ode o; double h;
	setup(o, p, h);
	std::size_t n = o.ts.size();
	erk::solver_options so = erk::default_solver_options();
	so.adaptive_step_size = adaptive;
	so.abs_tol = 1e30; so.rel_tol = 0;
	output_options oo;
	erk::rk_output s = erk::odeint(o, o.t0, o.t0 + h, o.y0, so, oo, codes[k], h);
	sym_check(s.status == SUCCESS, "the step succeeds");
	sym_check(s.y_vals.size() == 2, "one step is taken");
	arma::vec y1 = s.y_vals[1];
	for (std::size_t v = 0; v < 2; ++v)
		for (std::size_t i = 0; i < n; ++i)
			sym_check_close(y1[v*n + i] - o.y0[v*n + i], o.weight(v, i)*pw(h, o.ts[i].order)/o.ts[i].gamma, 1e-12, "order condition of the method");
	sym_check(erk::get_coefficients(codes[k]).order == p, "the tableau carries its order");
	sym_reach("trees");
	sym_observe("y", y1[n - 1]); sym_observe("y", y1[2*n - 1]);
}

// C02: the error estimate of an embedded pair vanishes to the embedded order, and only to that
extern "C" void erk_embedded()
{
	int k = sym_param("m", 2), p = orders[k], p2 = orders2[k];
	tree_ode o; double h;
	setup(o, p, h);
	std::size_t n = o.ts.size();
	erk::solver_options so = erk::default_solver_options();
	so.adaptive_step_size = true;
	so.abs_tol = 1e30; so.rel_tol = 0;
	output_options oo;
	erk::rk_output s = erk::odeint(o, o.t0, o.t0 + h, o.y0, so, oo, codes[k], h);
	sym_check(s.status == SUCCESS && s.err_est.size() == 2, "one step is taken and has an error estimate");
	arma::vec e = s.err_est[1];
	bool sees = false;
	for (std::size_t v = 0; v < 2; ++v)
		for (std::size_t i = 0; i < n; ++i) {
			if (o.ts[i].order <= p2)
				sym_check_close(e[v*n + i], 0.0, 1e-12, "order condition of the embedded method");
			else if (o.ts[i].order == p2 + 1 && sym_fork(std::fabs(e[v*n + i]) > 1e-5*pw(h, p2 + 1)))
				sees = true;
		}
	sym_check(sees, "the estimate sees errors of the next order");
	erk::solver_coeffs sc = erk::get_coefficients(codes[k]);
	sym_check(sc.order == p && sc.order2 == p2, "the tableau carries its orders");
	sym_reach("trees");
	sym_observe("e", e[n - 1]);
}
