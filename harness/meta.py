"""Texts of the properties; engine/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = []
NA = {}
def p(id, title, statement, over, text, why, files, mech, note='', na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
             why_tests_cant=why, anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, note))
    if na: NA[id] = na

p('C01', 'Explicit Runge-Kutta methods have their advertised order of accuracy',
  'One step of every explicit method offered, with or without step size control, reproduces the exact solution of every problem whose exact solution the advertised order promises to reproduce: for all step sizes, starting times, starting values and problem coefficients, the numerical solution of the polynomial test systems that generate the order conditions (all elementary differentials up to that order, autonomous and time dependent) equals the exact one.',
  'inputs configurations', 'all step sizes, start times, start values and coefficients of the test systems; every explicit method; adaptive step size on and off',
  'The tests integrate a few fixed problems and look at fitted slopes or loose errors; a wrong digit of a coefficient, node or weight that only matters for time dependent problems or one elementary differential passes.',
  'erk.cpp erk.hpp', [('tableaux', 'erk.cpp: get_coefficients'), ('stage and step computation', 'erk.hpp: erk_guts')])
p('C02', 'Embedded explicit methods have their advertised order',
  'For every explicit method with step size control, the reported error estimate of a step vanishes exactly on the test systems that the lower of the two advertised orders promises to integrate exactly, for all step sizes, starting values and coefficients. The embedded solution (solution plus estimate) has its own advertised order.',
  'inputs configurations', 'all step sizes, start times, start values and coefficients; every explicit method with an embedded method',
  'No test looks at an error estimate.', 'erk.cpp erk.hpp', [('embedded weights', 'erk.cpp: get_coefficients'), ('error estimate', 'erk.hpp: erk_guts')])
p('C03', 'Implicit Runge-Kutta methods have their advertised order of accuracy',
  'One step of every implicit method offered reproduces the exact solution of the polynomial test systems that its advertised order promises to integrate exactly, for all step sizes, starting times, starting values and problem coefficients.',
  'inputs configurations', 'all step sizes, start times, start values and coefficients; every implicit method with a tableau',
  'The tests use few problems with fixed coefficients and tolerances that hide errors of high order tableaux.',
  'irk.cpp irk.hpp', [('tableaux', 'irk.cpp: get_coefficients'), ('stages and step', 'irk.hpp: newton_solve_stages, irk_guts')])
p('C04', 'Embedded implicit methods have their advertised order',
  'For every implicit method with step size control, the reported error estimate of a step vanishes on the polynomial test systems that the advertised order of the embedded method promises to integrate exactly, for all step sizes, starting times, starting values and coefficients.',
  'inputs configurations', 'all step sizes, start times, start values and coefficients; every implicit method with an embedded method',
  'No test looks at an error estimate.', 'irk.cpp irk.hpp', [('embedded weights and gamma', 'irk.cpp: get_coefficients'), ('error estimate', 'irk.hpp: irk_guts')])
p('C05', 'Reported stages of implicit methods solve the stage equations',
  'For every implicit method, the stages reported with an accepted step are the slopes of the right hand side at the internal points of the step, which are themselves made of these stages and the coefficients of the method, and the step is their weighted sum. The internal points are exact for polynomials up to the stage order of the method.',
  'inputs configurations', 'all step sizes, start times, start values and coefficients of coupled nonlinear systems; every implicit method; adaptive step size on and off',
  'No test looks at the stages.', 'irk.hpp irk.cpp', [('stage recovery', 'irk.hpp: irk_guts'), ('residual', 'irk.hpp: construct_R')])
p('C06', 'Implicit methods never amplify decaying or oscillating linear problems',
  'A step of any size of the implicit methods offered does not increase the solution of a linear problem that decays, oscillates, or does both. For the methods meant for stiff problems (all but Gauss methods) a very stiff component is damped in one step in proportion to its stiffness.',
  'inputs configurations', 'all products of step size and eigenvalue up to 1e6 in size, on the negative real axis, the imaginary axis and rays between them; nine implicit methods',
  'Tests integrate single problems at single step sizes.', 'irk.cpp irk.hpp', [('tableaux', 'irk.cpp: get_coefficients'), ('stages and step', 'irk.hpp: newton_solve_stages, irk_guts')])
p('C07', 'Dense output of collocation methods is exact for their polynomials',
  'The interpolation weights for any set of distinct nodes integrate all polynomials of lower degree than the number of nodes exactly from the start of the step to any point of it. For the collocation methods offered, dense output starts at the old solution, ends at the new one and is exact in between for polynomials of the degree of the method.',
  'inputs configurations', 'all nodes (up to 4), all interpolation points in and beyond the step, all step sizes and starting values',
  'The only test evaluates the weights of one method at its end point.', 'irk.cpp irk.hpp', [('weights of nodes', 'irk.cpp: collocation_interpolate_coeffs'), ('evaluation', 'irk.cpp: project_b')])
p('C08', 'The time grid of explicit integration covers exactly the requested interval',
  'The reported times start at the beginning of the interval with the starting value, increase strictly and never lie behind its end; there is a solution for every time. Success is reported if and only if the last time is the end of the interval; otherwise as many steps as allowed were taken.',
  'inputs programs configurations', 'all intervals, initial step sizes, tolerances, maximum step sizes, right hand sides (arbitrary functions) and step limits',
  'Tests integrate a handful of fixed problems with fixed step sizes.', 'erk.hpp', [('time loop', 'erk.hpp: erk_guts')])
p('C09', 'Every accepted explicit step is the step of the method',
  'For every right hand side, each accepted step of an explicit integration is the Runge-Kutta step of the chosen method from the previous reported solution with the difference of the reported times, and the reported stages are the slopes at its internal points. This holds after rejected steps and for methods that reuse a stage.',
  'inputs programs histories', 'all right hand sides (arbitrary functions), intervals, initial step sizes and tolerances; all accept/reject histories of two accepted steps (three with fixed steps)',
  'Tests do not look at stages, and rejected steps do not occur in them at chosen places.', 'erk.hpp erk.cpp', [('stage loop and reuse of the last stage', 'erk.hpp: erk_guts, apply_fsal')])
p('C10', 'Accepted explicit steps satisfy the requested tolerance',
  'The reported error of an accepted step is the root mean square over the components of the difference between the two embedded solutions, each relative to the absolute tolerance plus the relative tolerance times the larger magnitude of the component at the two ends of the step, and is at most one.',
  'inputs configurations', 'all right hand sides near a dominating one, all starting values of either sign, all tolerances',
  'Tests check no error measure.', 'erk.hpp', [('error norm', 'erk.hpp: erk_guts')])
p('C11', 'The step size of explicit methods follows the error',
  'A first step within the tolerance is accepted, one outside it is repeated with a smaller step. The new step size is 0.9 times the old one times the error to the power -1/(1+lower order), growing at most by the factor 4 and never beyond the maximum step size.',
  'inputs programs histories', 'all right hand sides (arbitrary functions), intervals, initial step sizes, tolerances and maximum step sizes',
  'Tests look only at the final solution.', 'erk.hpp', [('controller', 'erk.hpp: erk_guts')])
p('C13', 'Counters of explicit integration are exact',
  'The number of evaluations reported equals the number of calls of the right hand side, attempts are accepted or rejected steps, the reported fraction of accepted steps is their ratio, and fixed steps are never rejected.',
  'inputs programs histories', 'all right hand sides, intervals, initial step sizes and tolerances; all accept/reject histories within the bound',
  'Tests do not look at counters.', 'erk.hpp', [('counters', 'erk.hpp: erk_guts')])
p('C29', 'Products of sums expand to all products',
  'Expanding the product of two sums of products gives one term for every pair of terms, in order, made of the factors of the first followed by those of the second; the arguments are left alone and expansion is associative.',
  'inputs', 'all numbers of terms and factors up to the bound, all labels of factors', 'No test expands anything but through the interpolation of one method.',
  'irk.cpp', [('expansion', 'irk.cpp: expand')])
