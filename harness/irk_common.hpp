// The implicit methods with their advertised orders, and families of test problems
#ifndef IRK_COMMON_HPP
#define IRK_COMMON_HPP
#include "common.hpp"
#include "trees.hpp"
// advertised: LOBATTO_IIIC_43 etc. carry order and embedded order in their names
struct meth { int code, p, p2, q; };
static const meth M[] = {
	{200, 1, 0, 1}, {210, 3, 2, 2}, {211, 5, 3, 3}, {212, 9, 5, 5}, {213, 13, 7, 7},
	{230, 4, 2, 2}, {231, 6, 4, 3}, {232, 8, 5, 4}, {243, 14, 7, 7},
	{220, 4, 3, 3}, {222, 12, 7, 7}, {240, 4, 2, 2} };
static double pw(double h, int n) { double r = 1; while (n-- > 0) r *= h; return r; }
static double newton_tol() { return sym_native() ? 1e-13 : 1e-100; }

// a system whose right hand sides are products of a coefficient, of powers of t - t0
// and of increments of earlier components
struct prod_ode {
	typedef arma::mat jac_type;
	struct comp { int tpow; std::vector<int> dep; double w; };   // w: increment of the exact solution / h^order (without coefficients)
	std::vector<comp> cs;
	std::vector<int> order;
	std::vector<double> coef;       // product of the coefficients
	arma::vec a, y0; double t0;
	int add(int tpow, const std::vector<int> &dep)
	{
		comp c; c.tpow = tpow; c.dep = dep; c.w = 1; int o = 1 + tpow;
		for (int d : dep) { o += order[d]; c.w *= cs[d].w; }
		c.w /= o;
		cs.push_back(c); order.push_back(o);
		return (int)cs.size() - 1;
	}
	void init()
	{
		std::size_t n = cs.size();
		a.set_size(n); y0.set_size(n);
		for (std::size_t i = 0; i < n; ++i) { a[i] = sym_real("a", 0.5, 1); y0[i] = sym_real("y0", -1, 1); }
		t0 = sym_real("t0", -1, 1);
		for (std::size_t i = 0; i < n; ++i) {
			double c = a[i];
			for (int d : cs[i].dep) c *= coef[d];
			coef.push_back(c);
		}
	}
	arma::vec fun(double t, const arma::vec &y)
	{
		arma::vec r(cs.size());
		for (std::size_t i = 0; i < cs.size(); ++i) {
			double f = a[i];
			for (int k = 0; k < cs[i].tpow; ++k) f *= t - t0;
			for (int d : cs[i].dep) f *= y[d] - y0[d];
			r[i] = f;
		}
		return r;
	}
	// the iteration for the stages converges for any approximation of the Jacobi matrix
	arma::mat jac(double, const arma::vec &) { return arma::zeros(cs.size(), cs.size()); }
};
// which: 0 all rooted trees up to order 5; 1 quadrature; 2 two levels; 3 chains
static void family(prod_ode &o, int which, int p)
{
	if (which == 0) {
		int q = p < 5 ? p : 5;
		std::vector<tree> ts = all_trees(q);
		for (auto &t : ts) o.add(0, t.ch);
	} else if (which == 1) {
		for (int k = 0; k < p; ++k) o.add(k, {});
	} else if (which == 2) {
		for (int k2 = sym_param("part", 0); k2 + 2 <= p; k2 += 7) {
			int c = o.add(k2, {});
			for (int k1 = 0; k1 + k2 + 2 <= p; ++k1) o.add(k1, {c});
		}
	} else {
		int c = o.add(0, {});
		for (int k = 2; k <= p; ++k) c = o.add(0, {c});
	}
}

struct setup_t {
	newton::options no; irk::solver_options so; output_options oo;
	setup_t() : so(irk::default_solver_options())
	{
		no.tol = no.dx_delta = newton_tol(); no.maxit = 40; no.refresh_jac = 0;
		so.newton_opts = &no;
		so.adaptive_step_size = false;
	}
};

#endif
