"""Which harness entries decide which property."""
PROPS = {}
def prop(pid, **k):
    PROPS[pid] = k

prop('C01', src=['erk_order.cpp'], reach=['trees'],
     entries=lambda tier: [('erk_main', {'m': m, 'adaptive': a}) for m in range(6) for a in ((0, 1) if m > 1 else (0,))],
     bounds='one step; all rooted trees up to the advertised order (<=5, 17 trees) with and without explicit time dependence; coefficients in [1/2,1], states and t0 in [-1,1], step in [1/8,1]; tolerance 1e-12')
prop('C02', src=['erk_order.cpp'], reach=['trees'],
     entries=lambda tier: [('erk_embedded', {'m': m}) for m in range(2, 6)],
     bounds='one step; all rooted trees up to the advertised order (<=5); coefficients in [1/2,1], states and t0 in [-1,1], step in [1/8,1]; tolerance 1e-12')
IRKP = {0: 1, 1: 3, 2: 5, 3: 9, 4: 13, 5: 4, 6: 6, 7: 8, 8: 14}      # orders
IRKE = {1: 2, 2: 3, 3: 5, 4: 7, 5: 2, 6: 4, 7: 5, 8: 7}             # embedded orders
def irkfam(tab):
    r = []
    for m, p in tab.items():
        r += [{'m': m, 'family': 0}, {'m': m, 'family': 1}, {'m': m, 'family': 3}]
        r += [{'m': m, 'family': 2, 'part': i} for i in range(min(7, p - 1))]
    return r
prop('C03', src=['irk_order.cpp'], reach=['odes'],
     entries=lambda tier: [('irk_main', x) for x in irkfam(IRKP)] + [('irk_main', {'m': m, 'family': 1}) for m in (9, 10, 11)],
     bounds='one step; right hand sides: all rooted trees up to order min(p,5), t^k for k<p, t^k times the integral of t^j (j+k+2<=p), chains up to order p; coefficients in [1/2,1], states and t0 in [-1,1], step in [1/4,1]; tolerance 1e-12; Newton iteration to convergence')
prop('C04', src=['irk_order.cpp'], reach=['odes'],
     entries=lambda tier: [('irk_embedded', x) for x in irkfam(IRKE)],
     bounds='as C03')
prop('C05', src=['irk_stage.cpp'], reach=['stages'],
     entries=lambda tier: [('irk_stages', {'m': m, 'family': f, 'adaptive': a}) for m in range(9) for f in (0, 1) for a in ((0, 1) if f == 0 and m else (0,))],
     bounds='one step; coupled polynomial systems (rooted trees of order <=5 and time powers); coefficients in [1/2,1], states and t0 in [-1,1], step in [1/4,1]; tolerance 1e-12; Newton iteration to convergence')
prop('C06', src=['irk_stage.cpp'], reach=['step'],
     entries=lambda tier: [('irk_real_axis', {'m': m, 'zmax': 1000000}) for m in range(9)] + [('irk_rays', {'m': m, 'ray': r, 'zmax': 1000000}) for m in range(9) for r in (0, 1, 4, 16)],
     bounds='one step from 1; step*eigenvalue in [-1e6,0], on the imaginary axis up to 1e6 and on the rays with real part 1/4, 1, 4 times the imaginary part; tolerance 1e-9; damping bound 40/|z|')
prop('C07', src=['dense.cpp'], reach=['weights'],
     entries=lambda tier: [('weights_of_nodes', {'n': n}) for n in (1, 2, 3, 4)] + [('weights_of_nodes', {'n': n, 'exact': 0}) for n in (5, 6, 7)] + [('dense_output', {'m': m}) for m in (1, 2, 3, 4, 7)],
     bounds='arbitrary nodes for n<=4 (one node per n-th part of the step), fixed nodes for n=5,6,7; theta in [0,2]; one step of the five collocation methods with dense output, theta in [0,1.5], step in [1/4,1]; tolerance 1e-6 (weights), 1e-8 (solutions)')
prop('C29', src=['dense.cpp'], reach=['expanded'], entries=lambda tier: [('expand_product', {})], bounds='up to 3 by 2 terms of up to 2 factors each, labels in [-1000,1000]')
prop('C08', src=['erk_driver.cpp'], reach=['success', 'too many steps'],
     entries=lambda tier: [('erk_grid', {'m': 2, 'steps': 2, 'maxdt': x, 'evals': 10}) for x in (0, 1)] + [('erk_grid', {'m': 1, 'adaptive': 0, 'steps': 3, 'maxdt': x}) for x in (0, 1)],
     bounds='at most 2 accepted steps and 10 evaluations (adaptive; first-same-as-last method) or 3 steps (fixed); arbitrary f with values in [-1,1]; interval length [1/4,4], dt in [1/8,5], max_dt in [1/8,4] or none, atol in [1/64,1]; quick tier rtol = 0')
prop('C09', src=['erk_driver.cpp'], reach=['step'],
     entries=lambda tier: [('erk_steps', {'m': m, 'steps': 2, 'evals': e}) for m, e in ((2, 10), (3, 18), (4, 19), (5, 18))] + [('erk_steps', {'m': m, 'steps': 3, 'adaptive': 0, 'n': 2}) for m in (0, 1)],
     bounds='at most 2 accepted steps and 10..19 evaluations (adaptive) or 3 steps (fixed, two components); arbitrary f with values in [-1,1]; interval length [1/4,4], dt in [1/8,5], atol in [1/64,1], rtol = 0; tolerance 1e-9')
prop('C10', src=['erk_driver.cpp'], reach=['step'],
     entries=lambda tier: [('erk_error', {'m': m, 'neg': g}) for m in (2, 3, 4, 5) for g in (0, 1, 3)],
     bounds='one step of size 1/8, three components; f = dominating power of t plus an arbitrary function with values in +-2^-7; |y0| in [32,33] of either sign, atol in [1,2], rtol in [0,1]')
prop('C11', src=['erk_driver.cpp'], reach=['accepted', 'rejected', 'proportional'],
     entries=lambda tier: [('erk_controller', {'m': 2, 'steps': 2, 'maxdt': x, 'evals': 10}) for x in (0, 1)],
     bounds='first and second attempt, at most 2 accepted steps and 10 evaluations; arbitrary scalar f with values in [-1,1]; interval length [1/4,4], dt in [1/8,5], max_dt in [1/8,4] or none, atol in [1/64,1], rtol = 0')
prop('C13', src=['erk_driver.cpp'], reach=['success'],
     entries=lambda tier: [('erk_counters', {'m': m, 'steps': 2, 'evals': e}) for m, e in ((2, 10), (3, 18))] + [('erk_counters', {'m': 1, 'steps': 3, 'adaptive': 0})],
     bounds='at most 2 accepted steps and 10..18 evaluations (adaptive) or 3 steps (fixed); arbitrary f with values in [-1,1]; interval length [1/4,4], dt in [1/8,5]')
