// Stage equations and stability of the implicit methods
#include "common.hpp"
#include "irk_common.hpp"

// C05: the reported stages are the slopes of the internal points and the step is made of them
extern "C" void irk_stages()
{
	const meth &m = M[sym_param("m", 0)];
	int which = sym_param("family", 0);
	bool adaptive = sym_param("adaptive", 0);
	prod_ode o;
	family(o, which, which == 1 ? m.q : 4);
	o.init();
	double h = sym_real("h", 0.25, 1);
	setup_t s;
	s.so.adaptive_step_size = adaptive; s.so.abs_tol = 1e30; s.so.rel_tol = 0;
	irk::rk_output r = irk::odeint(o, o.t0, o.t0 + h, o.y0, s.so, s.oo, m.code, h);
	sym_check(r.status == SUCCESS && r.y_vals.size() == 2 && r.stages.size() == 2, "one step is taken");
	if (r.stages.size() != 2) return;
	irk::solver_coeffs sc = irk::get_coefficients(m.code);
	std::size_t n = o.cs.size(), Ns = sc.b.size();
	sym_check(r.stages[1].size() == n*Ns, "there is a stage for every internal point");
	if (r.stages[1].size() != n*Ns) return;
	const arma::vec &K = r.stages[1];
	arma::vec y1 = o.y0;
	for (std::size_t i = 0; i < Ns; ++i) {
		arma::vec Y = o.y0;
		for (std::size_t c = 0; c < n; ++c) {
			for (std::size_t j = 0; j < Ns; ++j) Y[c] += h*sc.A(i, j)*K[j*n + c];
			y1[c] += h*sc.b[i]*K[i*n + c];
		}
		arma::vec f = o.fun(o.t0 + sc.c[i]*h, Y);
		for (std::size_t c = 0; c < n; ++c)
			sym_check_close(K[i*n + c], f[c], 1e-9, "a stage is the slope at its internal point");
		if (which == 1)
			for (std::size_t c = 0; c < n; ++c)
				sym_check_close(Y[c] - o.y0[c], o.coef[c]*o.cs[c].w*pw(sc.c[i]*h, o.order[c]), 1e-9, "the internal points are exact to the stage order");
	}
	for (std::size_t c = 0; c < n; ++c)
		sym_check_close(r.y_vals[1][c], y1[c], 1e-9, "the step is the weighted sum of the stages");
	sym_reach("stages");
	sym_observe("K", K[n*Ns - 1]);
}

struct dahlquist {
	typedef arma::mat jac_type;
	double l, w; int n;
	dahlquist(int n) : n(n) {}
	arma::vec fun(double, const arma::vec &y)
	{
		arma::vec r(n);
		if (n == 1) r[0] = l*y[0];
		else { r[0] = l*y[0] - w*y[1]; r[1] = w*y[0] + l*y[1]; }
		return r;
	}
	arma::mat jac(double, const arma::vec &)
	{
		arma::mat J(n, n);
		if (n == 1) J(0,0) = l;
		else { J(0,0) = J(1,1) = l; J(0,1) = -w; J(1,0) = w; }
		return J;
	}
};
// C06: decaying and oscillating linear problems never grow, whatever the step size; very stiff components are damped
extern "C" void irk_real_axis()
{
	const meth &m = M[sym_param("m", 0)];
	dahlquist o(1);
	double zmax = sym_param("zmax", 1000);
	o.l = sym_real("l", -zmax, 0);
	setup_t s;
	arma::vec y0(1); y0[0] = 1;
	irk::rk_output r = irk::odeint(o, 0.0, 1.0, y0, s.so, s.oo, m.code, 1.0);
	sym_check(r.status == SUCCESS && r.y_vals.size() == 2, "one step is taken");
	if (r.y_vals.size() != 2) return;
	double R = r.y_vals[1][0];
	sym_check_le(R, 1 + 1e-9, "decaying components do not grow");
	sym_check_le(-1 - 1e-9, R, "decaying components do not grow");
	if (m.code != 243) {
		sym_check_le(-o.l*R, 40, "stiff components are damped");
		sym_check_le(-40, -o.l*R, "stiff components are damped");
	}
	sym_reach("step");
	sym_observe("R", R);
}
extern "C" void irk_rays()
{
	const meth &m = M[sym_param("m", 0)];
	dahlquist o(2);
	double zmax = sym_param("zmax", 1000);
	o.w = sym_real("w", 0, zmax);
	o.l = -0.25*sym_param("ray", 0)*o.w;
	setup_t s;
	arma::vec y0(2); y0[0] = 1; y0[1] = 0;
	irk::rk_output r = irk::odeint(o, 0.0, 1.0, y0, s.so, s.oo, m.code, 1.0);
	sym_check(r.status == SUCCESS && r.y_vals.size() == 2, "one step is taken");
	if (r.y_vals.size() != 2) return;
	double a = r.y_vals[1][0], b = r.y_vals[1][1];
	sym_check_le(a*a + b*b, 1 + 1e-9, "oscillating and decaying components do not grow");
	sym_reach("step");
	sym_observe("R", a); sym_observe("R", b);
}
