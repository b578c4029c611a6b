// Order of the implicit Runge-Kutta methods, of their stages, and of their error estimates
#include "common.hpp"
#include "irk_common.hpp"

// C03: one step reproduces the exact solution to the order of the method
extern "C" void irk_main()
{
	const meth &m = M[sym_param("m", 0)];
	int which = sym_param("family", 0);
	prod_ode o;
	family(o, which, m.p); o.init();
	double h = sym_real("h", 0.25, 1);
	setup_t s;
	if (m.code == 220 || m.code == 222 || m.code == 240) sym_known("singular tableau");
	irk::rk_output r;
	try {
		r = irk::odeint(o, o.t0, o.t0 + h, o.y0, s.so, s.oo, m.code, h);
	} catch (std::exception &) {
		sym_reach("odes");
		sym_check(false, "the method integrates");
		return;
	}
	sym_check(r.status == SUCCESS && r.y_vals.size() == 2, "one step is taken");
	if (r.y_vals.size() != 2) return;
	for (std::size_t i = 0; i < o.cs.size(); ++i)
		sym_check_close(r.y_vals[1][i] - o.y0[i], o.coef[i]*o.cs[i].w*pw(h, o.order[i]), 1e-12, "order condition of the method");
	sym_check(irk::get_coefficients(m.code).order == m.p, "the tableau carries its order");
	sym_reach("odes");
	sym_observe("y", r.y_vals[1][o.cs.size() - 1]);
}

static const char *cond[8] = {"", "embedded method: condition of order 1", "embedded method: condition of order 2", "embedded method: condition of order 3",
	"embedded method: condition of order 4", "embedded method: condition of order 5", "embedded method: condition of order 6", "embedded method: condition of order 7"};
// C04: the error estimate of the embedded pair vanishes to the embedded order
extern "C" void irk_embedded()
{
	const meth &m = M[sym_param("m", 1)];
	int which = sym_param("family", 0);
	prod_ode o;
	family(o, which, m.p2);
	if (which == 1) o.add(m.p2, {});
	o.init();
	double h = sym_real("h", 0.25, 1);
	setup_t s;
	s.so.adaptive_step_size = true; s.so.abs_tol = 1e30; s.so.rel_tol = 0;
	if (m.code == 231) sym_known("embedded pair of 231");
	if (m.code == 232) sym_known("embedded pair of 232");
	irk::rk_output r = irk::odeint(o, o.t0, o.t0 + h, o.y0, s.so, s.oo, m.code, h);
	sym_check(r.status == SUCCESS && r.err_est.size() == 2, "one step is taken and has an error estimate");
	if (r.err_est.size() != 2) return;
	if (which == 1)
		sym_check_le(1e-7*pw(h, m.p2 + 2), std::fabs(r.err_est[1][m.p2]), "the estimate sees errors of the next order");
	for (std::size_t i = 0; i < o.cs.size() - (which == 1); ++i)
		sym_check_close(r.err_est[1][i], 0.0, 1e-12, cond[o.order[i]]);
	sym_check(irk::get_coefficients(m.code).order2 == m.p2, "the tableau carries its embedded order");
	sym_reach("odes");
	sym_observe("e", r.err_est[1][o.cs.size() - 1]);
}
