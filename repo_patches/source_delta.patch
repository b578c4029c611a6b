From bfdb6818bec6d65558e11e3bb5276b3265eac547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 01/26] fix: make the FSAL helpers in erk.hpp inline so that
 erk.hpp can be included in several translation units

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..706385a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From 859129da7caee70014934a350f8f1dfa1c020b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 02/26] fix: define verify_solver_options with the declared
 const signature so that it links

---
 erk.cpp | 2 +-
 irk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..dfdf6e3 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -228,7 +228,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options( const solver_options &opts )
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index 6f03860..2a55903 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -697,7 +697,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
-- 
2.43.0


From 36917bcc437fff51b5190e06590b17adcb0290f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 03/26] fix: cyclic_buffer assignment compares addresses (it
 did not compile)

---
 cyclic_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..60e78db 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,7 +24,7 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
-- 
2.43.0


From d94e32fe005fa3395837658b749dd609bb2defb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 04/26] fix: cyclic_buffer::resize allocates its elements and
 empties the buffer

---
 cyclic_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 60e78db..ff85b13 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -180,9 +180,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 45002fa74e684b6f90a05299f5c756511f22197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 05/26] fix: cyclic_buffer iterators visit exactly the stored
 elements and end() does not change the buffer

---
 cyclic_buffer.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index ff85b13..7e3c507 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -130,7 +130,7 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it) : idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -165,11 +165,7 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From 4982c72daf7678433da7175e02e55f15400fb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 06/26] fix: IRK methods run with a fixed step size, and
 without an embedded method

---
 irk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index a7155c4..3ce5123 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -598,7 +598,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	vec_type d2_weights = arma::zeros(Ns);
+	if (sc.b2.size() > 0) d2_weights = (Ai.t())*sc.b2;
 
 
 	while (t < t1) {
@@ -697,6 +698,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		if (solver_opts.adaptive_step_size) {
 			delta_alt = YYs*d2_weights;
+		} else {
+			// No embedded solution, so no error estimate either.
+			delta_alt = delta_y;
+			gam = 0.0;
 		}
 
 		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
-- 
2.43.0


From 3787c7e1da901c46399c283bd365141b2fbac354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 07/26] fix: do not take more than max_steps steps

---
 erk.hpp | 2 +-
 irk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 706385a..c2a70c0 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -335,7 +335,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		sol.count.attempt++;
 
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
diff --git a/irk.hpp b/irk.hpp
index 3ce5123..1e8e266 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -610,7 +610,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		}
 		sol.count.attempt++;
 
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
-- 
2.43.0


From 5a459be57eff948e8d9afbf5b37e41183352c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 08/26] fix: max_dt also limits the initial time step size

---
 erk.hpp | 4 ++++
 irk.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index c2a70c0..35eb168 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -272,6 +272,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		          << dt << "\n";
 	}
 
+	if (solver_opts.max_dt > 0 && dt > solver_opts.max_dt) {
+		dt = solver_opts.max_dt;
+	}
+
 	std::cerr << "    Rehuel: Integrating over interval [ "
 	          << t0 << ", " << t1 << " ]...\n"
 	          << "            Method = " << sc.name << "\n";
diff --git a/irk.hpp b/irk.hpp
index 1e8e266..4afdb8e 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -519,6 +519,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	}
 
+	if (solver_opts.max_dt > 0 && dt > solver_opts.max_dt) {
+		dt = solver_opts.max_dt;
+	}
+
 	output_opts.log_out << "    Rehuel: Integrating over interval [ "
 	                    << t0 << ", " << t1 << " ]...\n"
 	                    << "            Method = " << sc.name << "\n";
-- 
2.43.0


From d9ef48f226971a851b1b6acbabe4a1ec61190d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 09/26] fix: merge_rk_output adds up the evaluation counters

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 2a55903..d2d5c21 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -778,6 +778,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From 65101fb36cd8d43873105ab7f7b1cbc7926dea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 10/26] fix: looking up an unknown method no longer adds it to
 the list of methods

---
 erk.cpp | 6 ++++--
 irk.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index dfdf6e3..f034319 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -258,13 +258,15 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find(method);
+	return it == erk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find(name);
+	return it == erk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index d2d5c21..cfde8b9 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -708,13 +708,15 @@ bool verify_solver_options( const solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find(method);
+	return it == irk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find(name);
+	return it == irk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
-- 
2.43.0


From 8395e08c618f909076dbac7f329ef1768555ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 11/26] fix: perform the LU decomposition outside of assert

---
 irk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 4afdb8e..e173c42 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,8 +429,9 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
-				       "LU decomposition of Jacobi matrix failed!");
+				bool lu_ok = arma::lu(L,U,P, J_Y);
+				assert(lu_ok && "LU decomposition of Jacobi matrix failed!");
+				(void) lu_ok;
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From c0a85a2cd0165b9d253b2b650a4a8305737a879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 12/26] fix: refresh_jac = 0 keeps the Jacobi matrix instead of
 dividing by zero

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index e173c42..d9e3af7 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -483,7 +483,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0


From 17756d0c3973f92cb9011b906000825c4fc9d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 13/26] fix: Broyden reports MAXIT_EXCEEDED when it does not
 converge

---
 newton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..33b699d 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -268,7 +268,7 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
                            const options &opts, status &stats,
                            bool quiet = true )
 {
-	stats.conv_status = SUCCESS;
+	stats.conv_status = MAXIT_EXCEEDED;
 	double tol2 = opts.tol*opts.tol;
 	vec_type r = func.fun(x);
 	double res2 = dot( r, r );
-- 
2.43.0


From bbd21392c75bc2190eb2194e0b3d10cb272f5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 14/26] fix: Broyden steps stay within max_step

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 33b699d..7f5c457 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From b8136ca11b71c46e8409cc50d61f4d6a050cd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 15/26] fix: the start values of multistep methods follow the
 solution

---
 multistep.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..3e5e7f9 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,6 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
 
 	basic_output start;
 	start.t_vals.push_back(t);
-- 
2.43.0


From 56b601a9790eb140d1888c4e5cece2f8744a54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 16/26] fix: Adams-Bashforth evaluates past values at their own
 times

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index 3e5e7f9..67699cb 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From 0bcc61e0064bbc27705f7509b08b1ea615234e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 17/26] fix: set the orders of GAUSS_LEGENDRE_147 and
 LOBATTO_IIIA_127, which were used uninitialised

---
 irk.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index cfde8b9..a4119f9 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -609,6 +609,8 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order  = 14;
+		sc.order2 = 7;
 		break;
 	}
 
@@ -666,6 +668,8 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5),
 		          sc.b(6) };
 
+		sc.order  = 12;
+		sc.order2 = 7;
 		break;
 	}
 
-- 
2.43.0


From b720dfd8fc415a31283a949b808416eeaa096905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 18/26] fix: ERK output follows output_options and pairs each
 solution with its own time

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 35eb168..3f9e718 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -425,26 +425,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From 467c0822b67a8439ef6a4d0cd065fe344a4a9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 19/26] fix: initialise elapsed_time and accept_frac, which
 early returns left unset

---
 erk.hpp | 2 +-
 irk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 3f9e718..9d5d893 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -138,7 +138,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/irk.hpp b/irk.hpp
index d9e3af7..3356bf0 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -157,7 +157,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
-- 
2.43.0


From 359f76f4c3b00495d69eeb84e558444a07b88151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 20/26] fix: timing breakdown converts ms to s

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 3356bf0..bb81a29 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From 4a2345bcf22164ff72df2f1df7131307c9ed045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 21/26] fix: interpolation coefficients of a single collocation
 point

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index a4119f9..fbd9df1 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -166,6 +166,8 @@ mat_type collocation_interpolate_coeffs( const vec_type& c )
 				ci = tmp;
 			}
 		}
+		// With a single point the polynomial is the constant 1:
+		if( ci.size() == 0 ) ci.push_back( std::vector<int>() );
 		poly_coefficients[i] = ci;
 	}
 
-- 
2.43.0


From 90b7079e5de803266f0d7b72163c09012d097ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 22/26] fix: IRK output contains the stages instead of zeros

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index bb81a29..94c301a 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -834,6 +834,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			if (step % output_opts.output_interval == 0) {
 				if (output_opts.store_in_vectors()) {
+					// Y = dt*A*K, so recover K for output:
+					K_np = arma::vectorise(YYs*Ai.t()) / dt;
 					sol.t_vals.push_back(t);
 					sol.y_vals.push_back(y_n);
 					sol.stages.push_back(K_np);
-- 
2.43.0


From ddccbd650f498944d28fb77cd111950320a9d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 23/26] fix: Newton steps solved by LU decomposition go
 downhill

---
 newton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index 7f5c457..a7466a7 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -452,7 +452,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 					// P.t() * L * U*direction = r
 					arma::vec temp1 = P*r;
 					arma::vec temp2 = arma::solve(arma::trimatl(L), temp1);
-					direction = arma::solve(arma::trimatu(U), temp2);
+					direction = -arma::solve(arma::trimatu(U), temp2);
 				}
 			}
 		}catch( std::exception &e ){
-- 
2.43.0


From 251ae3f8136cd5b699e4ec239d53a949c1f56da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 24/26] fix: stability region of explicit methods uses their
 own coefficients

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From 350f1f934be96f679b3de93b2e7a25cc2c2c3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 25/26] fix: the embedded weights of RADAU_IIA_32 satisfy the
 order conditions of order 2

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index fbd9df1..7dc8f17 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -351,7 +351,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = {1.0/4.0, 5.0/12.0};
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 5da1932cdcce47f073778902044f3d4b41517532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 26/26] fix: the embedded weights of LOBATTO_IIIC_43 satisfy
 the order conditions of order 2

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 7dc8f17..aee33ca 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -266,7 +266,7 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		sc.b2 = { -0.5, 2.0, -0.5 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
 		sc.order2 = 2;
-- 
2.43.0

