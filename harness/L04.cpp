// PBT-SOURCES: Matrix.cpp PsimagLite.cpp TridiagonalMatrix.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 60000
// PBT-THOROUGH: 1000000
// PBT-RULE: polynomial cases: order up to 400 and argument in [-1,1] against cos(n acos x); non-trivial = order at least two. kernel cases: moments, kernel and grid against the trigonometric sum; non-trivial always.
// PBT-RULE: solver cases: a Hermitian matrix of order 2..8 whose spectrum straddles zero, all 800 moments and 400 vectors against its constructed eigenbasis; non-trivial = order at least three
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "ChebyshevSerializer.h"
#include "ChebyshevSolver.h"
#include "lanczos.h"
using namespace PsimagLite;

PROP(polynomials, 4)
{
	int    n = c.flip() ? c.below(20) : c.below(400);
	double x = c.chance(1, 4) ? c.sint(8) / 8.0 : c.unit();
	DESC("T_" << n << "(" << x << ")");
	if (n >= 2)
		c.nontrivial();
	double                            want = std::cos(n * std::acos(x));
	ChebyshevFunction<double>         f;
	ChebyshevFunctionExplicit<double> g;
	double                            tol = 1e-14 * (n + 1) * (n + 1) + 1e-13;
	CHECK(std::fabs(f(n, x) - want) <= tol, "recursive " << f(n, x) << " instead of " << want);
	CHECK(std::fabs(g(n, x) - want) <= tol, "explicit " << g(n, x) << " instead of " << want);
	if (n < 30) {
		ChebyshevFunctionExplicit<float> gf;
		CHECK(std::fabs(gf(n, float(x)) - std::cos(n * std::acos(float(x)))) <= 1e-4 * (n + 1), "explicit in single precision " << gf(n, x));
	}
}

PROP(kernel_sum, 3)
{
	typedef ChebyshevSerializer<std::vector<double>> Ser;
	size_t                    m = c.rare(1, 12, 400, 100), total = m;
	TridiagonalMatrix<double> ab;
	for (size_t i = 0; i < m; ++i)
		ab.push(c.sint(16) / 8.0, c.sint(16) / 8.0);
	Params p;
	p.Eg       = c.sint(8) / 8.0;
	p.b        = c.sint(8) / 8.0;
	p.oneOverA = c.range(1, 8) / 8.0;
	unsigned kind   = c.below(3);
	size_t   cutoff = c.chance(1, 5) ? 0 : c.range(1, m + 2);
	double   lambda = c.range(1, 16) / 4.0;
	size_t   n      = c.chance(1, 20) ? 0 : c.rare(1, 8, 300, 100);
	double   dw = c.pickOf({ 0.125, 0.25, 0.5 }), w1 = c.sint(16) / 8.0;
	bool edge = c.chance(1, 8);
	if (edge) // close to an edge of the band
		w1 = (c.flip() ? -1 : 1) * (1 - std::pow(10.0, -(double)c.range(2, 5))) / p.oneOverA - p.Eg + p.b;
	typedef KernelPolynomialParameters<double> Kp;
	Kp       kp(kind == 0 ? Kp::DIRICHLET : (kind == 1 ? Kp::JACKSON : Kp::LORENTZ), cutoff, lambda);
	size_t   used = (cutoff == 0 || cutoff > total) ? total : cutoff;
	DESC("kernel " << kind << " moments " << total << " cutoff " << cutoff << " lambda " << lambda);
	if (used > 2)
		c.nontrivial();
	Ser                ser(ab, p);
	PlotParams<double> pp(w1, w1 + (edge || n == 0 ? n + 0.5 : (double)n) * dw, dw, 0, 0, 0);
	Ser::PlotDataType  v;
	ser.plot(v, pp, kp);
	CHECK(v.size() == n, "points " << v.size());
	for (size_t i = 0; i < n; ++i) {
		double w = w1 + i * dw, x = ((edge ? v[i].first : w) + p.Eg - p.b) * p.oneOverA;
		CHECK(edge ? std::fabs(v[i].first - w) <= 1e-12 * (i + 1) * (1 + std::fabs(w)) : v[i].first == w, "frequency " << v[i].first << " instead of " << w);
		double want = 0;
		if (x * x < 1 && std::sqrt(1 - x * x) > 1e-6) {
			double N1 = used + 1;
			for (size_t k = 0; k < used; ++k) {
				double g = 1;
				if (kind == 1)
					g = ((N1 - k) * std::cos(M_PI * k / N1) + std::sin(M_PI * k / N1) / std::tan(M_PI / N1)) / N1;
				if (kind == 2)
					g = std::sinh(lambda * (1 - k / double(used))) / std::sinh(lambda);
				double mu = (k & 1) ? ab.b(k / 2) : ab.a(k / 2);
				want += (k == 0 ? 1 : 2) * g * mu * std::cos(k * std::acos(x));
			}
			want /= std::sqrt(1 - x * x);
		}
		CHECK(std::fabs(v[i].second - want) <= 1e-9 * (1 + std::fabs(want)), "value at " << w << " is " << v[i].second << " instead of " << want);
	}
}

template <typename T> static void solver(pbt::Ctx& c)
{
	size_t     n = c.rare(2, 8, 40, 100);
	Problem<T> p = genericProblem<T>(c, n);
	double     shift = p.e[0] + (p.e[n - 1] - p.e[0]) * c.range(2, 8) / 10.0; // lowest below, highest above zero
	for (size_t i = 0; i < n; ++i) {
		p.h(i, i) -= T(shift);
		p.e[i] -= shift;
	}
	DESC("solver n=" << n << " spectrum " << p.e[0] << " to " << p.e[n - 1]);
	if (n >= 3)
		c.nontrivial();
	Params par;
	par.lotaMemory = true;
	par.options    = c.pickOf({ "none", "" });
	OwnMatrix<T>                                          m { p.h };
	ChebyshevSolver<Params, OwnMatrix<T>, std::vector<T>> s(m, par);
	CHECK(std::fabs(par.oneOverA * 3 * (p.e[n - 1] - p.e[0]) - 2) <= 1e-4, "scale factor " << par.oneOverA);
	CHECK(std::fabs(par.b - 1.5 * (p.e[n - 1] + p.e[0])) <= 1e-4 * p.scale * 10, "shift " << par.b << " instead of " << 1.5 * (p.e[n - 1] + p.e[0]));
	CHECK(s.steps() == par.steps && par.steps > 0, "steps");
	std::vector<double> w(n), x(n);
	for (size_t k = 0; k < n; ++k) {
		T o = T(0);
		for (size_t i = 0; i < n; ++i)
			o += cj(p.q(i, k)) * p.start[i];
		w[k] = std::norm(o);
		x[k] = (p.e[k] - par.b) * par.oneOverA;
		CHECK(std::fabs(x[k]) < 1, "scaled eigenvalue " << x[k] << " outside the interval");
	}
	// one step
	std::vector<T> u(n), v(n);
	for (size_t i = 0; i < n; ++i) {
		u[i] = Gen<T>::any(c);
		v[i] = Gen<T>::any(c);
	}
	std::vector<T> hv = mulV(p.h, v), u1 = u, v1 = v;
	double         at = -1, bt = -1;
	size_t         j = c.below(3);
	s.oneStepDec(u1, v1, at, bt, j);
	double vv = 0, vw = 0, mag = 1;
	for (size_t i = 0; i < n; ++i) {
		T want = T(j == 0 ? 1 : 2) * (hv[i] - T(par.b) * v[i]) * T(par.oneOverA) - u[i];
		mag    = std::max(mag, absv(want));
		CHECK(u1[i] == v[i], "the previous vector was not kept");
		CHECK(absv(v1[i] - want) <= 1e-10 * mag, "recursion step element " << i << " is " << v1[i] << " instead of " << want);
		vv += std::norm(v[i]);
		vw += std::real(want * cj(v[i]));
	}
	CHECK(std::fabs(at - vv) <= 1e-9 * (1 + vv) && std::fabs(bt - vw) <= 1e-9 * mag * (1 + vv), "products " << at << ", " << bt << " instead of " << vv << ", " << vw);
	// all moments
	TridiagonalMatrix<double> ab;
	if (c.chance(1, 3)) { // used before, from another start
		s.decomposition(v, ab);
		if (c.flip()) {
			Matrix<T> other;
			s.lanczosVectorsSwap(other);
		}
	}
	s.decomposition(p.start, ab);
	CHECK(ab.size() >= par.steps, "only " << ab.size() << " moments");
	double total = 0;
	for (double a : w)
		total += a;
	for (size_t k = 0; k < par.steps; ++k)
		for (int odd = 0; odd < 2; ++odd) {
			double want = 0;
			for (size_t q = 0; q < n; ++q)
				want += w[q] * std::cos((2 * k + odd) * std::acos(x[q]));
			double got = odd ? ab.b(k) : ab.a(k);
			CHECK(std::fabs(got - want) <= 1e-7 * (1 + total), "moment " << 2 * k + odd << " is " << got << " instead of " << want);
		}
	Matrix<T> vecs;
	s.lanczosVectorsSwap(vecs);
	CHECK(vecs.rows() == n && vecs.cols() == par.steps, "vectors of shape " << vecs.rows() << "x" << vecs.cols());
	size_t k = c.below(par.steps);
	for (size_t i = 0; i < n; ++i) {
		T want = T(0);
		for (size_t q = 0; q < n; ++q) {
			T o = T(0);
			for (size_t r = 0; r < n; ++r)
				o += cj(p.q(r, q)) * p.start[r];
			want += p.q(i, q) * o * T(std::cos(k * std::acos(x[q])));
		}
		CHECK(absv(vecs(i, k) - want) <= 1e-7 * (1 + total), "vector " << k << " element " << i << " is " << vecs(i, k) << " instead of " << want);
	}
}

PROP(solver_real, 1) { solver<double>(c); }
PROP(solver_complex, 1) { solver<Cd>(c); }
PBT_MAIN
