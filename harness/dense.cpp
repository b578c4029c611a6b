// Dense output: interpolation weights of collocation methods
#include "common.hpp"
#include "irk_common.hpp"

static double eval(const arma::mat &B, std::size_t j, double x)
{
	// columns: x^n ... x^1
	double r = 0;
	for (std::size_t k = 0; k < B.n_cols; ++k) r += B(j, k)*pw(x, (int)(B.n_cols - k));
	return r;
}
// C07: the weights for arbitrary nodes integrate every polynomial of degree < n exactly from 0 to any theta
extern "C" void weights_of_nodes()
{
	int n = sym_param("n", 2);
	bool exact = sym_param("exact", 1);
	arma::vec c(n);
	for (int i = 0; i < n; ++i)
		c[i] = exact ? sym_real("c", (i + 0.125)/n, (i + 0.875)/n) : (i + 0.5)/n;
	double th = sym_real("theta", 0, 2);
	arma::mat B = irk::collocation_interpolate_coeffs(c);
	sym_check((int)B.n_rows == n && (int)B.n_cols == n, "there is a polynomial of degree n without constant term for every node");
	if ((int)B.n_rows != n || (int)B.n_cols != n) return;
	for (int k = 1; k <= n; ++k) {
		double s = 0;
		for (int j = 0; j < n; ++j) s += eval(B, j, th)*pw(c[j], k - 1);
		sym_check_close(s, pw(th, k)/k, 1e-6, "the weights integrate powers exactly");
	}
	sym_reach("weights");
	sym_observe("b", eval(B, 0, th));
}
// the dense output of a step of the methods that have one
extern "C" void dense_output()
{
	const meth &m = M[sym_param("m", 0)];
	prod_ode o;
	irk::solver_coeffs sc = irk::get_coefficients(m.code);
	int n = sc.b.size();
	sym_check(sc.b_interp.n_rows == sc.b.size(), "the method has dense output");
	if (sc.b_interp.n_rows != sc.b.size()) return;
	family(o, 1, n); o.init();
	double h = sym_real("h", 0.25, 1), th = sym_real("theta", 0, 1.5);
	setup_t s;
	irk::rk_output r = irk::odeint(o, o.t0, o.t0 + h, o.y0, s.so, s.oo, m.code, h);
	sym_check(r.status == SUCCESS && r.stages.size() == 2, "one step is taken");
	if (r.stages.size() != 2) return;
	arma::vec b = irk::project_b(th, sc), b0 = irk::project_b(0, sc), b1 = irk::project_b(1, sc);
	for (std::size_t c = 0; c < o.cs.size(); ++c) {
		double y = 0;
		for (int j = 0; j < n; ++j) y += h*b[j]*r.stages[1][j*n + c];
		sym_check_close(y, o.coef[c]*o.cs[c].w*pw(th*h, o.order[c]), 1e-8, "dense output is exact for polynomials of the degree of the method");
	}
	for (int j = 0; j < n; ++j) {
		sym_check_close(b0[j], 0, 1e-9, "dense output starts at the old solution");
		sym_check_close(b1[j], sc.b[j], 1e-9, "dense output ends at the new solution");
	}
	sym_reach("weights");
	sym_observe("b", b[0]);
}
// C29: expansion of products of sums
extern "C" void expand_product()
{
	int n1 = sym_choose("n1", 4), n2 = sym_choose("n2", 3), l1 = sym_choose("l1", 3), l2 = sym_choose("l2", 3);
	irk::coeff_list a(n1), b(n2);
	for (auto &x : a) for (int i = 0; i < l1; ++i) x.push_back(sym_int("a", -1000, 1000));
	for (auto &x : b) for (int i = 0; i < l2; ++i) x.push_back(sym_int("b", -1000, 1000));
	irk::coeff_list a0 = a, b0 = b, c = irk::expand(a, b);
	sym_check(a == a0 && b == b0, "the factors are left alone");
	sym_check((int)c.size() == n1*n2, "there is a term for every pair of terms");
	if ((int)c.size() != n1*n2) return;
	for (int i = 0; i < n1; ++i)
		for (int j = 0; j < n2; ++j) {
			const std::vector<int> &t = c[i*n2 + j];
			sym_check((int)t.size() == l1 + l2, "a term has the factors of both");
			if ((int)t.size() != l1 + l2) return;
			for (int k = 0; k < l1; ++k) sym_check(t[k] == a[i][k], "first the factors of the first term");
			for (int k = 0; k < l2; ++k) sym_check(t[l1 + k] == b[j][k], "then the factors of the second term");
		}
	// associativity: expanding three products in either order gives the same terms
	irk::coeff_list d(1); d[0].push_back(sym_int("d", -1000, 1000));
	sym_check(irk::expand(irk::expand(a, b), d) == irk::expand(a, irk::expand(b, d)), "expansion is associative");
	sym_reach("expanded");
}
