// Rooted trees and, for each of them, a differential equation whose Runge-Kutta
// solution after one step isolates that tree's order condition (Butcher):
//   y_T' = a_T * prod_i (y_{T_i} - y_{T_i}(t0)),   T = [T_1 ... T_k]
// After one step of size h from t0 the numerical solution has the increment
// Phi(T) h^|T| prod a, the exact solution h^|T| prod a / gamma(T).
#ifndef TREES_HPP
#define TREES_HPP
#include <vector>
struct tree { std::vector<int> ch; int order; double gamma; int depth; bool timed; };
// all rooted trees up to the given order, children before parents; the timed
// variants replace every leaf below the root by the independent variable
inline void multisets(const std::vector<tree> &ts, int from, int left, std::vector<int> &cur, std::vector<std::vector<int> > &out)
{
	if (left == 0) { out.push_back(cur); return; }
	for (int i = from; i < (int)ts.size(); ++i) {
		if (ts[i].timed || ts[i].order > left) continue;
		cur.push_back(i);
		multisets(ts, i, left - ts[i].order, cur, out);
		cur.pop_back();
	}
}
inline std::vector<tree> all_trees(int p)
{
	std::vector<tree> ts;
	for (int n = 1; n <= p; ++n) {
		std::vector<std::vector<int> > ms;
		std::vector<int> cur;
		multisets(ts, 0, n - 1, cur, ms);
		for (auto &m : ms) {
			tree t; t.ch = m; t.order = n; t.gamma = n; t.depth = 0; t.timed = false;
			for (int c : m) { t.gamma *= ts[c].gamma; if (ts[c].depth + 1 > t.depth) t.depth = ts[c].depth + 1; }
			ts.push_back(t);
		}
	}
	return ts;
}
#endif
