// PBT-SOURCES: Matrix.cpp PsimagLite.cpp TridiagonalMatrix.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-QUICK: 250000
// PBT-THOROUGH: 2000000
// PBT-RULE: a case runs the iterative eigensolver on one Hermitian matrix with constructed spectrum (order 1..24, up to 130 for chains) through the library's sparse matrix or a caller's own matrix type, with generated starting vector, number of
// PBT-RULE: states, tolerance, step limits and reorthogonalization, and compares energies and vectors with the construction or with a reference Krylov projection; non-trivial = order at least three
#include "lanczos.h"
#include <algorithm>
#include <set>
using namespace PsimagLite;

static Params params(pbt::Ctx& c, size_t n, bool reortho, bool limited)
{
	Params p;
	p.lotaMemory = true;
	p.options    = reortho ? c.pickOf({ "reortho", "none,reortho" }) : c.pickOf({ "", "none" });
	if (limited)
		return p;
	p.steps     = c.flip() ? 200 : n + c.below(5);
	p.tolerance = c.pickOf({ 1e-12, 1e-12, 1e-11 });
	if (reortho && c.chance(1, 4))
		p.tolerance = -1; // run all steps
	p.minSteps = c.chance(1, 3) ? c.range(1, n + 2) : 4;
	return p;
}

// the solver was used before, from another start
template <typename T, typename S> static void earlier(pbt::Ctx& c, const Problem<T>& p, S& solver)
{
	if (!c.chance(1, 4))
		return;
	size_t         n = p.h.r, k = c.below(n);
	std::vector<T> s(n);
	bool           q = c.flip();
	for (size_t i = 0; i < n; ++i)
		s[i] = q ? p.q(i, k) : T(c.real01() - 0.5);
	if (rmNorm(s) < 0.1)
		return;
	c.label(q ? "used before with an eigenvector" : "used before");
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, s, 0);
}

template <typename T, typename M>
static void oneState(pbt::Ctx& c, const Problem<T>& p, const M& m, const Params& par, size_t excited, bool reortho)
{
	size_t                                     n = p.h.r;
	LanczosSolver<Params, M, std::vector<T>>   solver(m, par);
	double                                     e = 1e9;
	std::vector<T>                             z(n, T(0)), start = p.start;
	bool                                       base = c.flip();
	earlier(c, p, solver);
	LanczosOrDavidsonBase<Params, M, std::vector<T>>& b = solver;
	if (base)
		b.computeOneState(e, z, start, excited);
	else
		solver.computeOneState(e, z, start, excited);
	CHECK(start == p.start, "the starting vector was changed");
	CHECK(std::fabs(e - p.e[excited]) <= 2e-6 * p.scale, "energy of state " << excited << " is " << e << " instead of " << p.e[excited] << " after " << solver.steps() << " steps");
	double nz = rmNorm(z);
	CHECK(std::fabs(nz - 1) <= (reortho ? 1e-9 : 1e-3), "norm of the state is " << nz);
	std::vector<T> hz  = mulV(p.h, z);
	double         res = 0;
	for (size_t i = 0; i < n; ++i)
		res += std::norm(hz[i] - T(e) * z[i]);
	CHECK(std::sqrt(res) <= 2e-3 * p.scale, "the state is not an eigenvector, residual " << std::sqrt(res));
	T ov = T(0);
	for (size_t i = 0; i < n; ++i)
		ov += cj(p.q(i, excited)) * z[i];
	CHECK(std::fabs(std::abs(ov) - 1) <= 1e-3, "overlap with the constructed eigenvector is " << std::abs(ov));
	CHECK(solver.steps() <= n && solver.steps() >= 1, "steps " << solver.steps());
}

template <typename T, typename M>
static void severalStates(pbt::Ctx& c, const Problem<T>& p, const M& m, const Params& par, size_t excited)
{
	size_t                                   n = p.h.r;
	LanczosSolver<Params, M, std::vector<T>> solver(m, par);
	std::vector<double>                      e;
	size_t nz = c.range(0, excited + 2);
	std::vector<std::vector<T>>              z(nz, std::vector<T>(n, T(0)));
	earlier(c, p, solver);
	solver.computeAllStatesBelow(e, z, p.start, excited);
	CHECK(e.size() > excited, "only " << e.size() << " energies");
	CHECK(z.size() == nz, "number of vectors changed");
	for (size_t k = 0; k <= excited; ++k) {
		CHECK(std::fabs(e[k] - p.e[k]) <= 2e-6 * p.scale, "energy " << k << " of " << excited << " is " << e[k] << " instead of " << p.e[k]);
		if (k >= nz)
			continue;
		CHECK(std::fabs(rmNorm(z[k]) - 1) <= 1e-9, "norm of state " << k << " is " << rmNorm(z[k]));
		std::vector<T> hz  = mulV(p.h, z[k]);
		double         res = 0;
		for (size_t i = 0; i < n; ++i)
			res += std::norm(hz[i] - T(e[k]) * z[k][i]);
		CHECK(std::sqrt(res) <= 2e-3 * p.scale, "state " << k << " is not an eigenvector, residual " << std::sqrt(res));
	}
	for (size_t k = excited + 1; k < nz; ++k)
		CHECK(rmNorm(z[k]) == 0, "a vector that was not asked for was changed");
}

template <typename T> static void states(pbt::Ctx& c, bool several)
{
	size_t     n = c.chance(1, 4) ? c.range(1, 24) : c.skew(1, 9);
	Problem<T> p = genericProblem<T>(c, n);
	size_t     excited = c.skew(0, std::min<size_t>(n - 1, 4));
	bool       reortho = several || excited > 0 || c.flip();
	Params     par     = params(c, n, reortho, false);
	DESC("n=" << n << " spectrum from " << p.e[0] << " state " << excited << " reortho " << reortho << " tol " << par.tolerance << " steps " << par.steps << " min " << par.minSteps << " H=" << p.h);
	if (n >= 3)
		c.nontrivial();
	c.labelIf(excited > 0, "excited");
	if (c.flip()) {
		CrsMatrix<T> m(toLib(p.h));
		several ? severalStates(c, p, m, par, excited) : oneState(c, p, m, par, excited, reortho);
	} else {
		OwnMatrix<T> m { p.h };
		several ? severalStates(c, p, m, par, excited) : oneState(c, p, m, par, excited, reortho);
	}
}

// lowest eigenvalue of the projection on span{v, Hv, ..., H^(k-1) v}, by Gram-Schmidt applied twice
template <typename T> static double krylovGround(const RM<T>& h, const std::vector<T>& v, size_t k)
{
	std::vector<std::vector<T>> q;
	std::vector<T>              w = v;
	for (size_t s = 0; s < k; ++s) {
		for (int twice = 0; twice < 2; ++twice)
			for (auto& u : q) {
				T d = dotV(u, w);
				for (size_t i = 0; i < w.size(); ++i)
					w[i] -= d * u[i];
			}
		double nn = rmNorm(w);
		if (nn < 1e-6)
			return 1e9; // exhausted
		for (auto& x : w)
			x /= nn;
		q.push_back(w);
		w = mulV(h, w);
	}
	Matrix<T> m(k, k);
	for (size_t i = 0; i < k; ++i)
		for (size_t j = 0; j < k; ++j)
			m(i, j) = dotV(q[i], mulV(h, q[j]));
	std::vector<double> e;
	diag(m, e, 'N');
	return e[0];
}

// stopping at a step limit gives exactly the variational answer of that many steps
template <typename T> static void limited(pbt::Ctx& c)
{
	size_t     n = c.range(2, 14);
	Problem<T> p = genericProblem<T>(c, n);
	bool       reortho = c.flip();
	Params     par     = params(c, n, reortho, true);
	size_t     k       = c.range(1, std::min<size_t>(n, 6));
	par.steps          = k;
	par.minSteps       = c.range(1, 6);
	par.tolerance      = -1;
	DESC("limited to " << k << " steps, n=" << n);
	if (n >= 3)
		c.nontrivial();
	CrsMatrix<T>                                       m(toLib(p.h));
	LanczosSolver<Params, CrsMatrix<T>, std::vector<T>> solver(m, par);
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, p.start, 0);
	double ref = krylovGround(p.h, p.start, k);
	CHECK(solver.steps() == k || n <= 4, "steps taken " << solver.steps() << " instead of " << k);
	CHECK(e >= p.e[0] - 1e-9 * p.scale, "energy " << e << " below the true minimum " << p.e[0]);
	if (ref < 1e8)
		CHECK(std::fabs(e - ref) <= 1e-7 * p.scale, "variational energy of " << k << " steps is " << e << " instead of " << ref);
	double ez = std::real(dotV(z, mulV(p.h, z))) / (rmNorm(z) * rmNorm(z));
	CHECK(std::fabs(ez - e) <= 1e-6 * p.scale, "energy " << e << " but the state has " << ez);
	CHECK(std::fabs(rmNorm(z) - 1) < 1e-4, "norm " << rmNorm(z));
}

// degenerate spectra: the energy is right, the state lies in the right eigenspace
template <typename T> static void degenerate(pbt::Ctx& c)
{
	size_t     n = c.range(2, 14);
	Problem<T> p;
	p.q = unitary<T>(c, n);
	p.e.resize(n);
	size_t distinct = c.range(2, std::min<size_t>(n, 6));
	double base     = c.sint(50) / 10.0;
	for (size_t i = 0; i < n; ++i)
		p.e[i] = base + 0.9 * (i < distinct ? i : c.below(distinct));
	p.h = RM<T>(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			for (size_t k = 0; k < n; ++k)
				p.h(i, j) += p.q(i, k) * T(p.e[k]) * cj(p.q(j, k));
	p.start.assign(n, T(0));
	for (size_t k = 0; k < n; ++k) {
		double w = (c.flip() ? 1 : -1) * c.range(30, 100) / 100.0;
		for (size_t i = 0; i < n; ++i)
			p.start[i] += p.q(i, k) * T(w);
	}
	for (double v : p.e)
		p.scale = std::max(p.scale, std::fabs(v));
	bool   reortho = c.flip();
	Params par     = params(c, n, reortho, false);
	par.minSteps   = 1;
	par.tolerance  = 1e-11;
	DESC("degenerate n=" << n << " distinct " << distinct << " H=" << p.h);
	if (n >= 3)
		c.nontrivial();
	OwnMatrix<T>                                       m { p.h };
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(m, par);
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, p.start, 0);
	CHECK(std::fabs(e - base) <= 2e-6 * p.scale, "energy " << e << " instead of " << base);
	std::vector<T> hz  = mulV(p.h, z);
	double         res = 0;
	for (size_t i = 0; i < n; ++i)
		res += std::norm(hz[i] - T(e) * z[i]);
	CHECK(std::sqrt(res) <= 2e-3 * p.scale * rmNorm(z), "the state is not an eigenvector, residual " << std::sqrt(res));
}

// run to the end with reorthogonalization, a degenerate matrix gives all its states
template <typename T> static void multiplets(pbt::Ctx& c)
{
	size_t     n = c.range(2, 12);
	Problem<T> p;
	p.q = unitary<T>(c, n);
	p.e.resize(n);
	size_t distinct = c.range(1, n);
	double base     = c.sint(50) / 10.0;
	for (size_t i = 0; i < n; ++i)
		p.e[i] = base + 0.9 * (i < distinct ? i : c.below(distinct));
	std::sort(p.e.begin(), p.e.end());
	p.h = RM<T>(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			for (size_t k = 0; k < n; ++k)
				p.h(i, j) += p.q(i, k) * T(p.e[k]) * cj(p.q(j, k));
	p.start.assign(n, T(0));
	for (size_t i = 0; i < n; ++i)
		p.start[i] = T(c.range(1, 100) / 100.0);
	for (double v : p.e)
		p.scale = std::max(p.scale, std::fabs(v));
	Params par;
	par.lotaMemory = true;
	par.options    = "reortho";
	par.tolerance  = -1;
	par.steps      = n + c.below(3);
	DESC("all states of n=" << n << " distinct " << distinct << " H=" << p.h);
	if (n >= 3)
		c.nontrivial();
	OwnMatrix<T>                                        m { p.h };
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(m, par);
	std::vector<double>         e(n);
	std::vector<std::vector<T>> z(c.flip() ? n : 0, std::vector<T>(n, T(0)));
	size_t asked = c.flip() && n > 4 ? n : 0;
	bool   few   = pbt::throws([&] { solver.computeAllStatesBelow(e, z, p.start, asked); });
	if (few) { // rounding left nothing to find the others with
		CHECK(asked > 0 && distinct < n, "the ground state was refused");
		c.label("fewer states than asked for");
		return;
	}
	c.label(e.size() == n ? "all steps" : "exhausted");
	for (size_t k = 0; k < e.size(); ++k) {
		if (e.size() == n)
			CHECK(std::fabs(e[k] - p.e[k]) <= 1e-6 * p.scale, "energy " << k << " of all is " << e[k] << " instead of " << p.e[k]);
		double nearest = 1e9;
		for (double v : p.e)
			nearest = std::min(nearest, std::fabs(e[k] - v));
		CHECK(e.size() < distinct || nearest <= 1e-6 * p.scale, "energy " << e[k] << " is not a state");
	}
}

// diagonal matrices whose start vector misses some states: the answer is the lowest state that it does contain
template <typename T> static void confined(pbt::Ctx& c)
{
	size_t     n = c.range(1, 10);
	Problem<T> p;
	p.h = RM<T>(n, n);
	p.start.assign(n, T(0));
	size_t hits   = 0;
	double lowest = 1e9;
	std::set<double> support;
	for (size_t i = 0; i < n; ++i) {
		p.h(i, i) = T(c.sint(20));
		p.scale   = std::max(p.scale, std::fabs(std::real(p.h(i, i))));
		if (c.flip())
			continue;
		++hits;
		p.start[i] = T((c.flip() ? 1 : -1) * double(c.range(1, 3)));
		lowest     = std::min(lowest, double(std::real(p.h(i, i))));
		support.insert(std::real(p.h(i, i)));
	}
	if (hits == 0)
		return;
	Params par   = params(c, n, true, false);
	par.minSteps = c.range(1, 4);
	DESC("confined to " << hits << " of " << n << " states, H=" << p.h);
	if (hits >= 2)
		c.nontrivial();
	c.labelIf(support.size() == 1, "start is an eigenvector");
	OwnMatrix<T>                                       m { p.h };
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(m, par);
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, p.start, 0);
	// rounding may add states that the start misses, never anything that is not a state
	double nearest = 1e9;
	for (size_t i = 0; i < n; ++i)
		nearest = std::min(nearest, std::fabs(e - std::real(p.h(i, i))));
	CHECK(e <= lowest + 2e-6 * p.scale, "energy " << e << " instead of " << lowest);
	CHECK(nearest <= 2e-6 * p.scale, "energy " << e << " is not a state");
}

template <typename T> static void refusals(pbt::Ctx& c)
{
	c.nontrivial();
	size_t     n = c.range(1, 5);
	Problem<T> p = genericProblem<T>(c, n);
	OwnMatrix<T> m { p.h };
	Params     par;
	par.lotaMemory = true;
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(m, par);
	std::vector<T> bad(n + c.range(1, 3), T(1));
	double         e = 0;
	std::vector<T> z(n, T(0));
	CHECK(pbt::throws([&] { solver.computeOneState(e, z, bad, 0); }), "a starting vector of the wrong size was accepted");
	Params none;
	none.lotaMemory = false;
	none.options    = "reortho";
	CHECK(pbt::throws([&] { LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> s2(m, none); }), "reorthogonalization without storage was accepted");
}


// the first steps seem to have converged when they have not: the minimum number of steps has to be taken
template <typename T> static void stagnation(pbt::Ctx& c)
{
	size_t              n = c.range(5, 9);
	std::vector<double> a(n), b(n); // b[i] joins i-1 and i
	for (size_t i = 0; i < n; ++i) {
		a[i] = i < 4 ? c.range(-20, 20) / 10.0 : c.range(-5, 5) / 10.0;
		b[i] = c.range(i < 4 ? 5 : 10, 15) / 10.0;
	}
	bool zero = c.flip();
	if (zero) { // the lowest state of two steps is zero, as if nothing had changed
		a[0] = c.range(1, 8) / 4.0;
		b[1] = c.pickOf({ 0.5, 1.0, 2.0 });
		a[1] = b[1] * b[1] / a[0];
	} else { // almost nothing changes in the third step, a lot in the fourth
		b[2]          = 1e-7;
		a[2]          = std::max(a[0], a[1]);
		double lowest = (a[0] + a[1]) / 2 - std::hypot((a[0] - a[1]) / 2, b[1]) - c.range(3, 10) / 10.0;
		a[3]          = lowest + b[3] * b[3] / (a[2] - lowest);
	}
	RM<T> h(n, n);
	for (size_t i = 0; i < n; ++i) {
		h(i, i) = T(a[i]);
		if (i)
			h(i, i - 1) = h(i - 1, i) = T(b[i]);
	}
	Matrix<double> m(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			m(i, j) = std::real(h(i, j));
	std::vector<double> want;
	diag(m, want, 'N');
	std::vector<T> start(n, T(0));
	start[0] = T(c.pickOf({ 1.0, -1.0, 0.5, 20.0 }));
	if (c.flip()) { // in another basis
		RM<T> q = unitary<T>(c, n), qd(n, n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				qd(i, j) = cj(q(j, i));
		h     = rmul(rmul(q, h), qd);
		start = mulV(q, start);
	}
	Params par;
	par.lotaMemory = true;
	par.options    = "reortho";
	par.minSteps   = c.chance(1, 3) ? c.range(4, 8) : 4;
	DESC((zero ? "zero" : "late") << " n=" << n << " H=" << h);
	c.nontrivial();
	OwnMatrix<T>                                        om { h };
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(om, par);
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, start, 0);
	CHECK(std::fabs(e - want[0]) <= 1e-5 * (1 + std::fabs(want[0])), "energy " << e << " instead of " << want[0] << " after " << solver.steps() << " steps");
}

// open chains of any length, whose states are known
template <typename T> static void chain(pbt::Ctx& c)
{
	size_t n = c.chance(1, 150) ? c.range(60, 130) : c.range(10, 40);
	RM<T>  h(n, n);
	for (size_t i = 0; i + 1 < n; ++i) {
		T t         = Gen<T>::any(c);
		t           = t == T(0) ? T(1) : t / T(std::abs(t));
		h(i, i + 1) = t;
		h(i + 1, i) = cj(t);
	}
	// signs or phases of the hopping can be absorbed in the basis
	std::vector<T> gauge(n, T(1)), start(n);
	for (size_t i = 0; i + 1 < n; ++i)
		gauge[i + 1] = -gauge[i] * cj(h(i, i + 1));
	bool reortho = c.flip();
	for (size_t i = 0; i < n; ++i)
		start[i] = gauge[i] * T(c.range(1, 10) * 0.1);
	Params par;
	par.lotaMemory = true;
	par.options    = reortho ? "reortho" : "";
	par.steps      = n;
	DESC("chain of " << n << " reortho " << reortho);
	c.nontrivial();
	c.labelIf(n >= 60, "sixty sites or more");
	CrsMatrix<T>                                        m(toLib(h));
	LanczosSolver<Params, CrsMatrix<T>, std::vector<T>> solver(m, par);
	double         e = 0;
	std::vector<T> z(n, T(0));
	solver.computeOneState(e, z, start, 0);
	double want = -2 * std::cos(M_PI / (n + 1));
	CHECK(std::fabs(e - want) <= 1e-6, "energy " << e << " instead of " << want << " after " << solver.steps() << " steps");
	T      ov = T(0);
	for (size_t i = 0; i < n; ++i)
		ov += cj(z[i]) * gauge[i] * T(std::sqrt(2.0 / (n + 1)) * std::sin(M_PI * (i + 1) / (n + 1)));
	CHECK(std::fabs(std::abs(ov) - 1) <= 1e-3, "overlap with the ground state " << std::abs(ov));
}

PROP(stagnation_real, 1) { stagnation<double>(c); }
PROP(stagnation_complex, 1) { stagnation<Cd>(c); }
PROP(chain_real, 1) { chain<double>(c); }
PROP(chain_complex, 1) { chain<Cd>(c); }
PROP(one_state_real, 4) { states<double>(c, false); }
PROP(one_state_complex, 4) { states<Cd>(c, false); }
PROP(all_states_real, 3) { states<double>(c, true); }
PROP(all_states_complex, 3) { states<Cd>(c, true); }
PROP(limited_real, 2) { limited<double>(c); }
PROP(limited_complex, 2) { limited<Cd>(c); }
PROP(degenerate_real, 2) { degenerate<double>(c); }
PROP(degenerate_complex, 2) { degenerate<Cd>(c); }
PROP(multiplets_real, 1) { multiplets<double>(c); }
PROP(multiplets_complex, 1) { multiplets<Cd>(c); }
PROP(confined_real, 1) { confined<double>(c); }
PROP(confined_complex, 1) { confined<Cd>(c); }
PROP(refusals_complex, 1) { refusals<Cd>(c); }
PBT_MAIN
