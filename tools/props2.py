prop('C18', 'Linear solvers return the solution of the system they are given',
     'ThomasAlgorithm::solve(A,b) returns, for every tridiagonal system of size n>=2 whose elimination does not divide by zero, a vector of length n satisfying every row equation A x = b exactly in real arithmetic, and rejects smaller systems with std::invalid_argument; the LU solvers hand exactly A and b to the decomposition and return its solution, raising std::runtime_error when the decomposition fails.',
     inp, 'all sizes, all tridiagonal coefficients and right-hand sides; the sweep is verified by loop invariants for every iteration',
     'tests solve one 3x3 or 4x4 system', ['src/numerical_analysis/linear_algebra/matrix_solver'],
     [('forward sweep and back substitution', 'src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp')], ['MatrixSolver::solve'])
prop('C07', 'Barrier options pay by whether the path touched the barrier; in-out parity',
     'A knock-in option is active at S exactly when S is at or beyond its barrier (at or above for Up, at or below for Down), a knock-out exactly when it is not. For every set of simulated paths the knock-in (knock-out) Monte-Carlo price is the discounted average over exactly N paths, simulated to the option maturity, of the terminal payoff of those paths that touched (never touched) the barrier at any of their steps; hence knock-in plus knock-out on the same paths is the vanilla price.',
     inp, 'all spots, barriers (NaN and infinities included) and directions; any paths, any number of paths and steps up to 2^31-1, any payoff, maturity and rate',
     'tests never price a barrier option; whether the barrier is touched at the first, last or a middle step is a property of all paths',
     ['src/option/path_dependent/barrier_option.cpp', 'src/solver/monte_carlo/mc_barrier.cpp'], [('isActive', 'src/option/path_dependent/barrier_option.cpp'), ('path loop and early exit', 'src/solver/monte_carlo/mc_barrier.cpp')], ['BarrierOption::isActive', 'BarrierMCPricer::calculatePrice'])
prop('C08', 'European and digital Monte-Carlo prices are the discounted mean payoff',
     'SinglePathMCPricer::calculatePrice(N) simulates exactly N terminal prices at the option maturity and returns exp(-rT) times the arithmetic mean of the option payoff of those N prices, with the rate in force when pricing; it changes no state of the option, market data or pricer.',
     inp, 'every payoff function, every sequence of simulated prices, all N from 1 to 2^31-1, all maturities and rates',
     'no test runs the pricer; the sum is over an arbitrary number of paths', ['src/solver/monte_carlo/mc_single_path.cpp'],
     [('path loop', 'src/solver/monte_carlo/mc_single_path.cpp')], ['SinglePathMCPricer::calculatePrice'])
prop('C09', 'Asian and lookback prices use the true path average and extremes',
     'For every set of simulated paths, the arithmetic (geometric) Asian Monte-Carlo price is the discounted mean over exactly N paths of the payoff of the arithmetic (geometric) mean of all steps of the path; the floating-strike lookback price is the discounted mean of payoff(S_T, path minimum) for calls and payoff(S_T, path maximum) for puts; the fixed-strike lookback price is that of payoff(path maximum) for calls and payoff(path minimum) for puts. Paths are simulated to the option maturity.',
     inp, 'any path values, any number of paths and steps up to 2^31-1, any payoff, maturity and rate, calls and puts',
     'averages and extremes range over every step of every path; no test prices these options', ['src/solver/monte_carlo/mc_asian.cpp', 'src/solver/monte_carlo/mc_lookback.cpp'],
     [('step loops', 'src/solver/monte_carlo/mc_asian.cpp'), ('running extremes', 'src/solver/monte_carlo/mc_lookback.cpp')], ['AsianMCPricer::calculatePrice', 'LookbackMCPricer::calculatePrice'])
DRAWS = 'all spots, volatilities, rates, coupons (present or not), maturities and parameters in range, every number of steps, every sequence of random draws'
prop('C11', 'GBM and Heston paths follow the model recursion exactly',
     'Every price of a geometric-Brownian-motion path is the previous one (the spot for the first) times exp((r-c-sigma^2/2)dt + sigma sqrt(dt) z_t) with dt=T/steps, one standard normal z_t per step and c the coupon (0 if none); the backward price is the Brownian bridge S0 exp((t0/t1) ln(S_next/S0) + sqrt(t0(t1-t0)/t1) sigma z). Heston: per step z1 then z2 are drawn; S is multiplied by exp((r-c-V+/2)dt + sqrt(V+ dt)(rho z1 + sqrt(1-rho^2) z2)) with V+=max(V,0), V the variance before the step; then V is updated by the given CIR discretisation with z1 (full-truncation Euler if none is given). simulatePrices returns one price per step, simulatePriceAtMaturity the last one; both draw the same numbers and change no state. The Heston constructor raises a std::logic_error exactly when rho is outside [-1,1], v0<0 or sigma_v<0.',
     inp, DRAWS, 'no test simulates a path', ['src/model/gbm_model.cpp', 'src/model/heston_model.cpp', 'src/model/base_model.cpp'],
     [('path recursion', 'src/model/gbm_model.cpp'), ('path recursion', 'src/model/heston_model.cpp')], ['StockModel::simulatePrices', 'StockModel::simulatePriceAtMaturity', 'GeometricBrownianMotionModel::simulatePriceBackward'])
prop('C12', 'Jump and variance-gamma paths are the stated risk-neutral recursions',
     'For positive T and lambda: per step a Merton path is multiplied by exp((r-c-sigma^2/2-lambda kappa)dt + sigma sqrt(dt) z + sum of n normal(muJ,sigmaJ) jumps) with n Poisson(lambda dt) and kappa=exp(muJ+sigmaJ^2/2)-1; a Bates path by the Heston factor with drift r-c-V+/2-lambda kappa and the exponentials of its n jumps, the variance being updated as in Heston; a Kou path by the Merton factor with compensator lambda(mu-1), mu=p eta1/(eta1-1)+(1-p)eta2/(eta2+1), and n jumps each +Exp(eta1) if a uniform draw is below p and -Exp(eta2) otherwise; a variance-gamma path by exp((r-c+omega)dt + theta g + sigma sqrt(g) z), g of mean dt and variance nu dt, omega=ln(1-theta nu-sigma^2 nu/2)/nu (when that logarithm exists). Exactly the jumps counted are drawn. Constructors raise std::invalid_argument exactly when: Merton sigmaJ<=0; Bates v0, kappa, sigma_v or sigmaJ<=0 or rho outside [-1,1]; Kou p outside [0,1], eta1<=1 or eta2<=0; variance gamma nu<=0.',
     inp, DRAWS + ' and of jump counts', 'no test simulates a path', ['src/model/merton_jump_diffusion_model.cpp', 'src/model/bates_model.cpp', 'src/model/kou_model.cpp', 'src/model/variance_gamma_model.cpp'],
     [('jump loop', 'src/model/merton_jump_diffusion_model.cpp'), ('jump loop', 'src/model/bates_model.cpp'), ('up and down jumps', 'src/model/kou_model.cpp'), ('martingale correction', 'src/model/variance_gamma_model.cpp')], ['StockModel::simulatePrices', 'StockModel::simulatePriceAtMaturity'])
prop('C13', 'CIR steps are full-truncation Euler and its Milstein correction',
     'The explicit Euler update replaces V by V + kappa(theta-V+)dt + sigma_v sqrt(V+ dt) z with V+=max(V,0); the Milstein update adds sigma_v^2 dt (z^2-1)/4 to exactly that. Nothing but V changes. Heston paths built with either scheme follow it at every step.',
     inp, 'all variances (negative included), time steps, parameters and normals', 'no test runs a discretisation', ['src/model/discretization'],
     [('Euler step', 'src/model/discretization/explicit_euler_cir_discretization.cpp'), ('Milstein correction', 'src/model/discretization/milstein_cir_discretization.cpp')], ['CIRDiscretization::update'])
prop('C14', 'Distributions sample exactly their law and reject invalid parameters',
     'Normal(mu,sigma), Poisson(lambda), Exponential(lambda), Gamma(alpha, beta) and uniform(a,b) raise std::invalid_argument exactly when sigma<=0, lambda<=0, lambda<=0, alpha<=0 or beta<=0, a>=b; every call takes one sample from the std distribution of that law with exactly these parameters (gamma: shape alpha, scale 1/beta; standard normal: mean 0, deviation 1; default uniform: [0,1)) using the engine passed by the caller, returns it unchanged and alters no parameter. Every distribution but the standard normal raises std::logic_error from inv_cdf.',
     inp, 'all parameters (validation: every finite double, exactly), every number of samples', 'no test covers the distributions', ['src/random/distribution'],
     [('validation and sampling', 'src/random/distribution/gamma_distrib.cpp'), ('validation and sampling', 'src/random/distribution/normal_distrib.cpp')], ['Distribution::operator()', 'Distribution::inv_cdf'])
prop('C15', 'Generators deliver the numbers of their seeded engine in order',
     'For every dimension d>=1 and seed, the n-th value (n=0,1,...) of a PseudoRandomNumberGenerator is the n-th draw of the given distribution from a std::mt19937 seeded with the seed, independently of other generators; the n-th value of a Sobol (Faure) generator is the quantile inv_cdf(u) of the given distribution at u = (n-th number of boost\'s d-dimensional Sobol (Faure) engine seeded with the seed)/(maximum of that engine), so the coordinates of each point are used in order and the next point follows the last. getDim is d; dimension 0 raises std::invalid_argument.',
     inp, 'all dimensions up to 2^31-1, all seeds, every number of draws (by an inductive invariant of the generator state)', 'no test covers the generators', ['src/random/number_generator'],
     [('point refill and scaling', 'src/random/number_generator/sobol_quasi_random_generator.cpp'), ('point refill and scaling', 'src/random/number_generator/faure_quasi_random_generator.cpp'), ('seeding', 'include/random/number_generator/pseudo_random_generator.h')], ['NumberGenerator::operator()', 'NumberGenerator::getDim'])
prop('C16', 'The normal quantile function is Moro\'s formula on (0,1), antisymmetric',
     'StandardNormalDistribution::inv_cdf(u) raises std::invalid_argument exactly when u is not in (0,1); otherwise it is the Beasley-Springer-Moro approximation with its published coefficients (rational in (u-1/2)^2 when |u-1/2|<0.42, Chebyshev series in ln(-ln(min(u,1-u))) in the tails), inv_cdf(1-u) = -inv_cdf(u), inv_cdf(1/2)=0, and no division by zero occurs.',
     inp, 'every u (the domain check for every finite double exactly)', 'no test covers the quantile function', ['src/random/distribution/standard_normal_distribution.cpp'],
     [('approximation and symmetry', 'src/random/distribution/standard_normal_distribution.cpp')], ['StandardNormalDistribution::inv_cdf'])
prop('C17', 'Interpolation returns the stated polynomial through the grid points',
     'On every strictly increasing grid of n>=1 points, for values t strictly between grid points x_k and x_{k+1}: LinearInterpolation returns the line through the two points; QuadraticInterpolation returns the Lagrange parabola through points k-1, k, k+1, or the line when k is the first or last interval. At a grid point either returns the value given there; at or beyond an end of the grid, the value of that end. No interpolation of a value within the range of the grid throws or reads outside the grid.',
     inp, 'all grid sizes up to 2^31-1, all increasing grids, all values and all t', 'no test interpolates', ['src/numerical_analysis/interpolation'],
     [('interval search and parabola', 'src/numerical_analysis/interpolation/quadratic_interpolation.cpp'), ('interval search and line', 'src/numerical_analysis/interpolation/linear_interpolation.cpp')], ['Interpolation::interpolate'])
prop('C22', 'Basis functions evaluate exactly the orthogonal polynomials they name',
     'For every number d>=1 of basis functions and every vector x of m points, generate(x) is an m-by-d matrix whose column n holds, at every point, the Chebyshev polynomial of the first kind T_n, the Laguerre polynomial L_n, the Legendre polynomial P_n or the power x^n, as given by the three-term recurrence of the family with degrees 0 and 1 included; generating changes no state. Zero basis functions raise std::invalid_argument.',
     inp, 'all numbers of basis functions and points up to 2^31-1, all x; the recurrence is verified for every column by a loop invariant', 'no test generates a basis', ['src/numerical_analysis/basis_function'],
     [('three-term recurrence', 'src/numerical_analysis/basis_function/%s.cpp' % f) for f in ('chebyshev', 'laguerre', 'legendre', 'monomial')], ['BasisFunction::generate'])
prop('C23', 'Regressions solve the problem they name',
     "LeastSquaresRegression::solve(A,y) returns the minimum-norm least-squares solution of A b = y by handing exactly A and y to a rank-revealing solver; RidgeRegression the solution of (A'A + lambda I) b = A'y (lambda>0 or A of full column rank); LassoRegression the least-squares solution soft-thresholded at lambda in every coefficient (b-lambda above lambda, b+lambda below -lambda, 0 between). One coefficient per column is returned. Ridge and lasso raise std::invalid_argument exactly when lambda<0.",
     inp, 'all matrices and vectors of any size, all lambda (validation: every finite double, exactly)', 'no test runs a regression', ['src/numerical_analysis/regression'],
     [('normal equations', 'src/numerical_analysis/regression/ridge.cpp'), ('soft thresholding', 'src/numerical_analysis/regression/lasso.cpp'), ('decomposition', 'src/numerical_analysis/regression/least_squares.cpp')], ['Regression::solve'])
prop('C19', 'The Black-Scholes PDE has the stated coefficients and boundary values',
     'BlackScholesPDE has, at every (t,x) with t the time to maturity, diffusion sigma^2 x^2/2, convection (r-c)x, reaction -r and no source term, with the rate, volatility and coupon (0 if none) of the option\'s own stock in force when it is evaluated; its initial condition is the option payoff. Its left boundary value is K e^{-rt} for a put and 0 for a call; its right boundary value is x e^{-ct} - K e^{-rt} for a call and 0 for a put. Evaluating it changes no state.',
     inp, 'all times, spots, strikes, maturities, rates, volatilities and coupons, calls and puts', 'no test evaluates a PDE', ['src/solver/finite_difference_method/pde'],
     [('coefficients and boundary values', 'src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp')], ['BlackScholesPDE::diffusion', 'BlackScholesPDE::convection', 'BlackScholesPDE::boundaryLeft', 'BlackScholesPDE::boundaryRight'])
prop('C20', 'Finite-difference solvers follow exactly the scheme they name',
     'For every PDE with diffusion D, convection C, reaction R, source F, boundaries L, U and initial condition I (functions of time and space), J>=3 points x_j=j dx on [0,xDom] and N>=2 levels t_n=n dt on [0,tDom], solve() returns the J values of level N-1, where level 0 is I(x_j); the end values of level n are L(t_n,x_0) and U(t_n,x_{J-1}); and inner values satisfy, with central differences A(t,V) = D V_xx + C V_x + R V - F: explicit Euler V^{n+1} = V^n + dt A(t_n,V^n); implicit Euler V^{n+1} - dt A(t_{n+1},V^{n+1}) = V^n; Crank-Nicolson V^{n+1} - dt/2 A(t_{n+1},V^{n+1}) = V^n + dt/2 A(t_n,V^n). Implicit systems are solved by the given matrix solver (LU if none); solving throws only when that fails.',
     inp, 'all PDE coefficient and boundary functions, all grid sizes J>=3 and N>=2 up to 2^31-1, all domains, any linear solver; levels and rows by inductive invariants', 'no test runs a finite-difference solver',
     ['src/solver/finite_difference_method/solver/one_factor'],
     [('time loop', 'src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp')] + [('rows of the scheme', 'src/solver/finite_difference_method/solver/one_factor/%s.cpp' % f) for f in ('euler_explicit_fdm_solver', 'euler_implicit_fdm_solver', 'crank_nicolson_fdm_solver')], ['FDMSolver::solve'])
prop('C21', 'Finite-difference prices interpolate the solved grid at the current spot',
     'calculatePrice() of every finite-difference solver returns the value of the given interpolation (LinearInterpolation if none is given) for the grid x_j=j xDom/(J-1), the prices that solve() returns and the price of the option\'s own stock in force when pricing, whether or not solve() was called before. The grid is solved once: later calls of solve() return the same prices and take no further time step, and pricing again after the stock price has moved uses the same grid at the new stock price.',
     inp, 'all grids J>=3, N>=2, all PDEs, interpolations, stock prices and updates of it after construction; any sequence solve/price up to the second call of each', 'no test prices with finite differences',
     ['src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp'],
     [('grid, reuse and interpolation', 'src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp'), ('default interpolation', 'src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp')], ['FDMSolver::calculatePrice', 'FDMSolver::solve'])
prop('C24', 'Builders and MCSolver price the option with exactly the parts last given',
     'Each Monte-Carlo builder (single path, American, arithmetic and geometric Asian, knock-in, knock-out, floating and fixed lookback) accepts exactly options of its own kind, raising std::invalid_argument for others; build() without an option raises std::logic_error and otherwise returns the pricer of that kind holding the option, market data and model last given. With no market data given the singleton is used; with no model given, a geometric Brownian motion of that option\'s stock on that market data with a pseudo-random generator of 52 steps; the American builder defaults to least squares on 3 monomials. Building changes neither the builder nor pricers already built; setters return the builder. MCSolver::solve() returns the price of the pricer last set for the number of paths last set (100000 by default), raising std::logic_error without a pricer.',
     inp, 'every option kind and state for every builder; all orders of setters and builds, since each call is shown to change exactly its own part; all numbers of paths', 'no test uses a builder or the solver',
     ['src/solver/monte_carlo/builder', 'src/solver/monte_carlo/mc_solver.cpp'],
     [('type check and default model', 'src/solver/monte_carlo/builder/mc_builder_american.cpp'), ('type check and default model', 'src/solver/monte_carlo/builder/mc_builder_barrier.cpp'), ('dispatch', 'src/solver/monte_carlo/mc_solver.cpp')], ['MCBuilder::setOption', 'MCBuilder::build', 'MCSolver::solve'])
prop('C10', 'American Monte-Carlo prices follow the Longstaff-Schwartz exercise strategy',
     'AmericanMCPricer::calculatePrice(N) simulates exactly N paths to the maturity T in m steps dt=T/m and returns e^{-r dt} times the mean over paths of V_1, where V_m is the payoff at maturity and, at each earlier step, with the paths of positive payoff in path order as rows, basis functions of their prices and their e^{-r dt}V_{j+1} are handed to the regression and V_j is the payoff on exactly those of them whose payoff exceeds the fitted value (row times coefficients), e^{-r dt}V_{j+1} on every other path; a step with no such path only discounts. Prices are those of full simulated paths, except for geometric Brownian motion on a pseudo-random generator, where the price of every path at step j is drawn once by simulatePriceBackward from its own price at step j+1 and the times j dt, (j+1) dt. Pricing changes no state of pricer or option.',
     inp, 'all N and numbers of steps up to 2^31-1, all paths, payoffs, basis functions and regressions (through their contracts); steps and paths by inductive invariants', 'no test prices an American option',
     ['src/solver/monte_carlo/mc_american.cpp'],
     [('backward induction on full paths and on the bridge', 'src/solver/monte_carlo/mc_american.cpp')], ['AmericanMCPricer::calculatePrice'])
