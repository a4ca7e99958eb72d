// PBT-SOURCES: Matrix.cpp PsimagLite.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp
// PBT-LIBS: gsl
// PBT-DEFS: -DUSE_GSL
// PBT-QUICK: 400000
// PBT-THOROUGH: 8000000
// PBT-RULE: a case is a function from a family with known integral, minimum, root or solution (polynomials, exponentials, oscillations, kinks, bells, convex bowls, monotone functions, linear and nonlinear differential equations) or a set of points to interpolate, with generated parameters, interval, tolerance and rule
// PBT-RULE: non-trivial = the answer is not zero, and the interval, tolerance or rule is not the default one
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <gsl/gsl_errno.h>
#include "PsimagLite.h"
#include "AkimaSpline.h"
#include "Integrator.h"
#include "Minimizer.h"
#include "RootFindingBisection.h"
#include "RungeKutta.h"

// the library writes its warnings to the standard error stream
struct Quiet {
	std::ostringstream os;
	std::streambuf* old;
	Quiet() : old(std::cerr.rdbuf(os.rdbuf())) { gsl_set_error_handler_off(); }
	~Quiet() { std::cerr.rdbuf(old); }
};

// ---------------------------------------------------------------- integrals
struct Params {
	int kind;
	double a, b, c;
	long calls;
};

class Function {
public:

	typedef double RealType;
	Function(const Params& p) : p_(p) { }
	static double function(double x, void* vp)
	{
		Params* p = static_cast<Params*>(vp);
		++p->calls;
		double d = x - p->c;
		switch (p->kind) {
		case 0: return p->a + p->b * x + p->c * x * x * x;
		case 1: return p->a * std::exp(p->b * d);
		case 2: return p->a * std::sin(p->b * d);
		case 3: return p->a / (1 + p->b * p->b * d * d);
		case 4: return p->a * std::exp(-p->b * p->b * d * d);
		case 5: return p->a * std::fabs(d) + p->b;
		default: return p->a * std::sqrt(std::fabs(d)) + p->b;
		}
	}
	Params& params() { return p_; }

private:

	Params p_;
};

static double primitive(const Params& p, double x)
{
	double d = x - p.c;
	switch (p.kind) {
	case 0: return p.a * x + p.b * x * x / 2 + p.c * x * x * x * x / 4;
	case 1: return p.b == 0 ? p.a * x : p.a * std::exp(p.b * d) / p.b;
	case 2: return p.b == 0 ? 0 : -p.a * std::cos(p.b * d) / p.b;
	case 3: return p.b == 0 ? p.a * x : p.a * std::atan(p.b * d) / p.b;
	case 4: return p.b == 0 ? p.a * x : p.a * std::sqrt(std::acos(-1.0)) / 2 * std::erf(p.b * d) / p.b;
	case 5: return p.a * d * std::fabs(d) / 2 + p.b * x;
	default: return p.a * 2 / 3 * (d < 0 ? -1 : 1) * std::pow(std::fabs(d), 1.5) + p.b * x;
	}
}

static void accurate(double got, double want, double epsabs, double epsrel, double size, const char* what)
{
	// the error of an adaptive rule is an estimate: e = (200 d)^1.5 of the difference d of two rules
	double tol = 20 * std::max(epsabs, epsrel * std::fabs(want)) + (0.02 * std::pow(std::max(epsabs, epsrel), 2.0 / 3) + 1e-13) * size;
	CHECK(std::fabs(got - want) <= tol, what << " is " << got << " want " << want << " to " << tol);
}

PROP(integrals, 3)
{
	Quiet quiet;
	Params p;
	p.kind = (int)c.below(7);
	p.a = c.sint(16) * 0.25;
	p.b = c.sint(12) * 0.25;
	p.c = c.sint(8) * 0.25;
	p.calls = 0;
	double lo = c.sint(12) * 0.25, hi = lo + c.below(24) * 0.25;
	bool backwards = c.chance(1, 5);
	bool custom = c.flip();
	double epsabs = custom ? std::pow(10.0, -(double)c.range(5, 10)) : 1e-9;
	double epsrel = custom ? std::pow(10.0, -(double)c.range(5, 10)) : 1e-9;
	size_t how = c.below(3); // rule, default rule, break points
	int key = (int)c.range(1, 6);
	std::ostringstream log;
	log << "family " << p.kind << " (" << p.a << ", " << p.b << ", " << p.c << ") from " << lo << " to " << hi << " accuracy " << epsabs << " " << epsrel << " how " << how << " key " << key;
	DESC(log.str());
	Function f(p);
	PsimagLite::Integrator<Function> integrate = custom ? PsimagLite::Integrator<Function>(f, epsabs, epsrel, 1000) : PsimagLite::Integrator<Function>(f, 1e-9, 1e-9, 1000);
	std::vector<double> pts;
	pts.push_back(lo);
	double want = primitive(p, hi) - primitive(p, lo), size = std::fabs(primitive(p, hi)) + std::fabs(primitive(p, lo));
	double got = 0;
	if (how == 2) {
		// known break points, in order; not close to where the derivative is infinite
		bool smooth = p.kind != 6;
		std::vector<double> mid;
		if (p.c > lo && p.c < hi)
			mid.push_back(p.c);
		for (size_t i = c.rare(0, 2, smooth ? 9 : 2, 8); i > 0 && hi > lo; --i)
			mid.push_back(lo + (hi - lo) * (0.01 + 0.98 * c.real01()));
		std::sort(mid.begin(), mid.end());
		pts.insert(pts.end(), mid.begin(), mid.end());
		pts.push_back(hi);
		if (hi == lo)
			return;
		got = integrate(pts, PsimagLite::Integrator<Function>::INTEG_QAGP);
	} else {
		pts.push_back(hi);
		if (backwards) {
			std::swap(pts[0], pts[1]);
			want = -want;
		}
		got = how == 1 ? integrate(pts) : integrate(pts, PsimagLite::Integrator<Function>::INTEG_QAG, key);
	}
	CHECK(f.params().calls > 0 || lo == hi, "the function was not called");
	if (want != 0 && (custom || how != 1))
		c.nontrivial();
	accurate(got, want, epsabs, epsrel, size, "integral");
	// used again
	double again = how == 2 ? integrate(pts, PsimagLite::Integrator<Function>::INTEG_QAGP) : how == 1 ? integrate(pts) : integrate(pts, PsimagLite::Integrator<Function>::INTEG_QAG, key);
	CHECK(again == got, "integral a second time is " << again << " was " << got);
}

PROP(infiniteIntegrals, 2)
{
	Quiet quiet;
	Params p;
	p.kind = c.pickOf<int>({ 1, 3, 4 });
	p.a = (c.flip() ? 1.0 : -1.0) * (1 + c.below(12)) * 0.25;
	p.b = (1 + c.below(10)) * 0.25;
	p.c = c.sint(8) * 0.25;
	p.calls = 0;
	if (p.kind == 1)
		p.b = -p.b;
	bool line = p.kind != 1 && c.flip();
	double from = c.sint(12) * 0.25;
	if (p.kind == 3 && c.chance(1, 12))
		from *= 20;
	double epsabs = std::pow(10.0, -(double)c.range(7, 10)), epsrel = std::pow(10.0, -(double)c.range(7, 10));
	DESC("family " << p.kind << " (" << p.a << ", " << p.b << ", " << p.c << ") from " << (line ? -INFINITY : from) << " to infinity, accuracy " << epsabs << " " << epsrel);
	double top = p.kind == 1 ? 0 : p.kind == 3 ? p.a * std::acos(0.0) / p.b : p.a * std::sqrt(std::acos(-1.0)) / 2 / p.b;
	double want = line ? 2 * top : top - primitive(p, from);
	Function f(p);
	PsimagLite::Integrator<Function> integrate(f, epsabs, epsrel, 1000);
	if (want != 0)
		c.nontrivial();
	double got = line ? integrate() : integrate.toInfinity(from);
	accurate(got, want, epsabs, epsrel, std::fabs(top) + std::fabs(primitive(p, from)), "integral");
}

// ---------------------------------------------------------------- minima
class Bowl {
public:

	typedef double FieldType;
	std::vector<std::vector<double>> q; // symmetric, positive definite
	std::vector<double> at;
	double bottom;
	int shape; // 1: also a fourth power
	template <typename V> double operator()(const V& v) const
	{
		double sum = bottom, r2 = 0;
		for (size_t i = 0; i < at.size(); ++i) {
			r2 += (v[i] - at[i]) * (v[i] - at[i]);
			for (size_t j = 0; j < at.size(); ++j)
				sum += 0.5 * q[i][j] * (v[i] - at[i]) * (v[j] - at[j]);
		}
		return shape ? sum + 0.1 * r2 * r2 : sum;
	}
	template <typename V> void df(V& dest, const V& src) const
	{
		double r2 = 0;
		for (size_t i = 0; i < at.size(); ++i)
			r2 += (src[i] - at[i]) * (src[i] - at[i]);
		for (size_t i = 0; i < at.size(); ++i) {
			dest[i] = shape ? 0.4 * r2 * (src[i] - at[i]) : 0;
			for (size_t j = 0; j < at.size(); ++j)
				dest[i] += q[i][j] * (src[j] - at[j]);
		}
	}
	size_t size() const { return at.size(); }
};

PROP(minima, 2)
{
	Quiet quiet;
	Bowl f;
	size_t n = 1 + c.below(4);
	f.shape = (int)c.below(2);
	f.bottom = c.sint(10) * 0.5;
	f.at.resize(n);
	std::vector<double> x(n);
	for (size_t i = 0; i < n; ++i) {
		f.at[i] = c.sint(20) * 0.25;
		x[i] = c.sint(20) * 0.25;
	}
	// diagonally dominant
	f.q.assign(n, std::vector<double>(n, 0));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < i; ++j)
			f.q[i][j] = f.q[j][i] = c.sint(4) * 0.1;
	for (size_t i = 0; i < n; ++i)
		f.q[i][i] = 2 + c.below(8) * 0.25;
	bool simplex = c.flip(), verbose = c.chance(1, 6), few = c.chance(1, 8);
	size_t maxIter = few ? c.below(4) : 2000;
	double tolerance = std::pow(10.0, -(double)c.range(3, 6));
	if (!simplex && c.chance(1, 4))
		tolerance *= 1e-3;
	double delta = 0.05 * (1 + c.below(20));
	std::ostringstream log;
	log << n << " variables, " << (simplex ? "simplex" : "conjugate gradient") << " tolerance " << tolerance << " delta " << delta << " at most " << maxIter;
	DESC(log.str());
	typedef PsimagLite::Minimizer<double, Bowl> MinimizerType;
	double start = f(x);
	std::vector<double> x0 = x;
	MinimizerType m(f, maxIter, verbose);
	if (c.chance(1, 4)) { // used before, from elsewhere
		std::vector<double> y(n, c.sint(10) * 0.3);
		if (c.chance(2, 3) == simplex)
			m.simplex(y, 0.3, 1e-3);
		else
			m.conjugateGradient(y, 0.1, 0.1, 1e-3);
	}
	int iter = simplex ? m.simplex(x, delta, tolerance) : m.conjugateGradient(x, delta, 0.1, tolerance, c.chance(1, 6) ? 2 : 0);
	if (x0 != f.at)
		c.nontrivial();
	CHECK(iter <= (int)maxIter, iter << " iterations");
	CHECK(f(x) <= start + 1e-12 * (1 + std::fabs(start)), "found " << f(x) << ", started at " << start);
	CHECK(m.statusString() == (m.status() == MinimizerType::GSL_SUCCESS ? "GSL_SUCCESS" : m.status() == MinimizerType::GSL_CONTINUE ? "GSL_CONTINUE" : "UNKNOWN"), "status " << m.statusString());
	if (m.status() != MinimizerType::GSL_SUCCESS)
		return;
	c.label("success");
	double distance = 0, slope = 0;
	std::vector<double> g(n);
	f.df(g, x);
	for (size_t i = 0; i < n; ++i) {
		distance += (x[i] - f.at[i]) * (x[i] - f.at[i]);
		slope += g[i] * g[i];
	}
	distance = std::sqrt(distance);
	slope = std::sqrt(slope);
	if (simplex) {
		CHECK(distance <= 100 * tolerance, "minimum found " << distance << " away");
	} else {
		CHECK(slope <= tolerance * (1 + 1e-9) + 1e-13, "gradient " << slope << " where success is claimed");
		// the smallest curvature is at least one
		CHECK(distance <= tolerance * 1.3 + 1e-13, "minimum found " << distance << " away");
	}
}

PROP(minimaConverge, 1)
{
	Quiet quiet;
	Bowl f;
	size_t n = 1 + c.below(3);
	f.shape = 0;
	f.bottom = c.sint(10) * 0.5;
	f.at.resize(n);
	std::vector<double> x(n);
	for (size_t i = 0; i < n; ++i) {
		f.at[i] = c.sint(8) * 0.25;
		x[i] = f.at[i] + (c.flip() ? 1.0 : -1.0) * (0.31 + 1.7 * c.real01()); // no ties
	}
	f.q.assign(n, std::vector<double>(n, 0));
	for (size_t i = 0; i < n; ++i)
		f.q[i][i] = 1 + c.below(4) * 0.5;
	bool simplex = c.flip();
	DESC(n << " variables, " << (simplex ? "simplex" : "conjugate gradient") << " first one " << x[0] << " to " << f.at[0] << " curvature " << f.q[0][0]);
	c.nontrivial();
	typedef PsimagLite::Minimizer<double, Bowl> MinimizerType;
	MinimizerType m(f, 1000);
	if (c.chance(1, 4)) {
		std::vector<double> y = x;
		y[0] += 1;
		simplex ? m.simplex(y, 0.5, 1e-4) : m.conjugateGradient(y, 0.1, 0.1, 1e-4);
	}
	int iter = simplex ? m.simplex(x, 0.5, 1e-4) : m.conjugateGradient(x, 0.1, 0.1, 1e-4);
	// the incremental size of the simplex may stay above the tolerance, then it is the point that counts
	if (!simplex || m.status() != MinimizerType::GSL_CONTINUE) {
		CHECK(m.status() == MinimizerType::GSL_SUCCESS, "status " << m.status() << " after " << iter);
		CHECK(iter >= 0 && iter < 1000, iter << " iterations");
	}
	for (size_t i = 0; i < n; ++i)
		CHECK(std::fabs(x[i] - f.at[i]) <= 0.01, "variable " << i << " is " << x[i] << " want " << f.at[i]);
}

// ---------------------------------------------------------------- roots
struct Monotone {
	typedef double RealType;
	int kind;
	double root, slope;
	mutable double lo, hi;
	double operator()(double x) const
	{
		lo = std::min(lo, x);
		hi = std::max(hi, x);
		double d = x - root;
		switch (kind) {
		case 0: return slope * d;
		case 1: return slope * d * d * d;
		case 2: return slope * std::atan(3 * d);
		default: return slope * (d + 0.3 * std::sin(2 * d));
		}
	}
};

PROP(roots, 3)
{
	Quiet quiet;
	Monotone f;
	f.kind = (int)c.below(4);
	f.root = c.unit() * 10;
	f.slope = (c.flip() ? 1 : -1) * (0.1 + 3 * c.real01());
	double a = f.root - 5 + 6 * c.real01(), b = f.root - 1 + 6 * c.real01();
	if (c.flip())
		a = -100, b = 100;
	bool reversed = c.chance(1, 5);
	double tolerance = std::pow(10.0, -(double)c.range(1, 9));
	size_t maxIter = c.chance(1, 5) ? c.below(12) : 100;
	f.lo = f.hi = f.root;
	double fa = f(a), fb = f(b);
	DESC("family " << f.kind << " root " << f.root << " slope " << f.slope << " in " << a << " " << b << (reversed ? " reversed" : "") << " tolerance " << tolerance << " at most " << maxIter);
	if (reversed)
		std::swap(a, b);
	bool bracketed = (fa < 0 && fb > 0) || (fa > 0 && fb < 0);
	if (fa == 0 || fb == 0)
		return; // a root at an end
	c.nontrivial();
	typedef PsimagLite::RootFindingBisection<Monotone> RootType;
	c.labelIf(!bracketed, "no bracket");
	if (!bracketed) {
		CHECK(pbt::throws([&] { RootType r(f, a, b, maxIter, tolerance); }), "accepted an interval without a change of sign");
		return;
	}
	f.lo = std::min(a, b);
	f.hi = std::max(a, b);
	RootType r(f, a, b, maxIter, tolerance);
	// width after k steps, and slope at most 4 |slope| times it (cubed it is less, near the root)
	double steep = f.kind == 1 ? 3 * 200 * 200 : 4, width = std::fabs(b - a);
	bool enough = width * std::pow(0.5, (double)maxIter) * steep * std::fabs(f.slope) < tolerance;
	bool failed = false;
	double x = 0;
	try {
		x = r();
	} catch (std::runtime_error&) {
		failed = true;
	}
	CHECK(f.lo >= std::min(a, b) && f.hi <= std::max(a, b), "looked outside of the interval, from " << f.lo << " to " << f.hi);
	CHECK(!failed || !enough, "not found");
	c.labelIf(failed, "too few steps");
	if (failed)
		return;
	CHECK(x >= std::min(a, b) && x <= std::max(a, b), "root " << x << " outside of the interval");
	CHECK(std::fabs(f(x)) < tolerance, "function is " << f(x) << " at " << x);
	CHECK(r() == x, "another root the second time");
}

PINNED(default_bracket)
{
	Quiet quiet;
	Monotone f;
	f.kind = 0;
	f.root = 90;
	f.slope = 1;
	f.lo = f.hi = 0;
	PsimagLite::RootFindingBisection<Monotone> r(f);
	double x = r();
	CHECK(std::fabs(x - 90) < 1e-3, "root " << x);
}

// ---------------------------------------------------------------- differential equations
// y' = M y + g cos(w t), or y' = -k y^2 for each component
template <typename T> struct Equation {
	std::vector<std::vector<T>> m;
	std::vector<T> g;
	double w;
	int kind;
	std::vector<T> operator()(double t, const std::vector<T>& y) const
	{
		std::vector<T> r(y.size(), T(0));
		for (size_t i = 0; i < y.size(); ++i) {
			if (kind == 1) {
				r[i] = -g[i] * y[i] * y[i];
				continue;
			}
			r[i] = g[i] * std::cos(w * t);
			for (size_t j = 0; j < y.size(); ++j)
				r[i] += m[i][j] * y[j];
		}
		return r;
	}
};

template <typename T> struct Coef;
template <> struct Coef<double> {
	static double f(pbt::Ctx& c) { return c.sint(8) * 0.125; }
};
template <> struct Coef<std::complex<double>> {
	static std::complex<double> f(pbt::Ctx& c)
	{
		double re = c.sint(8) * 0.125;
		return std::complex<double>(re, c.sint(8) * 0.125);
	}
};

template <typename T> static std::vector<T> axpy(const std::vector<T>& y, double a, const std::vector<T>& k)
{
	std::vector<T> r = y;
	for (size_t i = 0; i < r.size(); ++i)
		r[i] += a * k[i];
	return r;
}

template <typename T> static void equation(pbt::Ctx& c, const char* what)
{
	Quiet quiet;
	Equation<T> f;
	size_t n = 1 + c.below(3);
	f.kind = (int)c.below(3);
	f.w = c.below(8) * 0.5;
	f.g.resize(n);
	f.m.assign(n, std::vector<T>(n, T(0)));
	std::vector<T> y0(n);
	double lambda = 0;
	for (size_t i = 0; i < n; ++i) {
		y0[i] = Coef<T>::f(c);
		f.g[i] = Coef<T>::f(c);
		for (size_t j = 0; j < n; ++j)
			if (f.kind == 2 ? i == j : true)
				f.m[i][j] = Coef<T>::f(c);
	}
	double h = c.pickOf<double>({ 0.5, 0.25, 0.1, 0.01, 0.03 });
	if (c.chance(1, 6))
		h = -h; // back in time
	double t0 = c.sint(8) * 0.25;
	size_t N = c.rare(0, 11, 800, 60);
	bool ex = c.flip();
	DESC(what << " equation " << f.kind << " of " << n << " step " << h << " from " << t0 << " " << N << " steps");
	if (N > 1)
		c.nontrivial();
	typedef std::vector<T> V;
	PsimagLite::RungeKutta<double, Equation<T>, V> rk(f, h);
	typename PsimagLite::Vector<V>::Type result;
	bool before = c.chance(1, 6);
	if (before)
		result.push_back(y0);
	if (ex)
		rk.solveEx(result, t0, t0 + (N + 0.25 + 0.5 * c.real01()) * h, y0);
	else
		rk.solve(result, t0, N, y0);
	if (before)
		result.erase(result.begin());
	CHECK(result.size() == N, result.size() << " values");
	// the classical fourth-order rule
	V y = y0;
	double t = t0, size = 1;
	for (size_t s = 0; s < N; ++s) {
		CHECK(result[s].size() == n, "value " << s << " has " << result[s].size() << " components");
		for (size_t i = 0; i < n; ++i) {
			if (!(std::abs(y[i]) < 1e3))
				return; // on its way to infinity
			size = std::max(size, std::abs(y[i]));
			CHECK(std::abs(result[s][i] - y[i]) <= 1e-12 * size * (s + 1), "component " << i << " at step " << s << " is " << result[s][i] << " want " << y[i]);
		}
		V k1 = f(t, y), k2 = f(t + h / 2, axpy(y, h / 2, k1)), k3 = f(t + h / 2, axpy(y, h / 2, k2)), k4 = f(t + h, axpy(y, h, k3));
		for (size_t i = 0; i < n; ++i)
			y[i] += h / 6 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
		t = t0 + (s + 1) * h;
	}
	if (f.kind == 2 && f.w == 0 && N > 0) {
		// uncoupled with constant drive: the solution is known
		for (size_t i = 0; i < n; ++i) {
			T l = f.m[i][i];
			double tt = (N - 1) * h;
			T e = std::exp(l * tt);
			T want = y0[i] * e + (l == T(0) ? f.g[i] * tt : f.g[i] * (e - 1.0) / l);
			double z = std::abs(l * h);
			double bound = 1e-12 + (N - 1) * std::pow(z, 5) / 60 * std::exp(std::abs(l * tt) + z) * (std::abs(y0[i]) + std::abs(l == T(0) ? T(0) : f.g[i] / l));
			CHECK(std::abs(result[N - 1][i] - want) <= bound, "solution " << result[N - 1][i] << " want " << want << " to " << bound);
		}
	}
}

PROP(realEquations, 2) { equation<double>(c, "real"); }
PROP(complexEquations, 2) { equation<std::complex<double>>(c, "complex"); }

// ---------------------------------------------------------------- interpolation
PROP(splines, 3)
{
	typedef std::vector<double> V;
	size_t n = c.chance(1, 10) ? c.below(3) : c.rare(3, 11, 400, 100);
	V x(n), s(n);
	int shape = (int)c.below(4);
	double p = c.sint(8) * 0.5, q = c.sint(8) * 0.5, r = c.sint(8) * 0.5;
	bool uniform = c.flip();
	double step = 0.25 * (1 + c.below(6));
	double at = c.sint(20) * 0.5;
	for (size_t i = 0; i < n; ++i) {
		x[i] = at;
		at += uniform ? step : 0.125 * (1 + c.below(16));
		s[i] = shape == 0 ? p + q * x[i] : shape == 1 ? p + q * x[i] + r * x[i] * x[i] : shape == 2 ? std::sin(x[i]) : c.sint(8) * 0.5;
	}
	std::ostringstream log;
	log << "points:";
	for (size_t i = 0; i < n; ++i)
		log << " " << x[i] << " " << s[i] << ",";
	DESC(log.str());
	if (n < 3) {
		CHECK(pbt::throws([&] { AkimaSpline<V> a(x, s); }), "accepted " << n << " points");
		return;
	}
	V longer = s;
	longer.push_back(1);
	CHECK(pbt::throws([&] { AkimaSpline<V> a(x, longer); }), "accepted different numbers of points");
	c.nontrivial();
	AkimaSpline<V> a(x, s);
	CHECK(a.getInterval().first == x[0] && a.getInterval().second == x[n - 1], "interval");
	double size = 1;
	for (double y : s)
		size = std::max(size, std::fabs(y));
	for (size_t i = 0; i < n; ++i)
		CHECK(std::fabs(a(x[i]) - s[i]) <= 1e-11 * size, "at point " << i << " it is " << a(x[i]) << " want " << s[i]);
	CHECK(pbt::throws([&] { (void)a(x[0] - 1e-6); }), "extrapolated to the left");
	CHECK(pbt::throws([&] { (void)a(x[n - 1] + 1e-6); }), "extrapolated to the right");
	// slopes by Akima's rule
	V m(n + 3);
	auto M = [&m](int i) -> double& { return m[i + 2]; };
	for (size_t i = 0; i + 1 < n; ++i)
		M(i) = (s[i + 1] - s[i]) / (x[i + 1] - x[i]);
	M(-1) = 2 * M(0) - M(1);
	M(-2) = 2 * M(-1) - M(0);
	M(n - 1) = 2 * M(n - 2) - M(n - 3);
	M(n) = 2 * M(n - 1) - M(n - 2);
	V slope(n);
	bool stable = true;
	for (size_t i = 0; i < n; ++i) {
		int k = (int)i;
		double w1 = std::fabs(M(k + 1) - M(k)), w2 = std::fabs(M(k - 1) - M(k - 2));
		double big = 1 + std::fabs(M(k)) + std::fabs(M(k - 1));
		if (w1 + w2 == 0) {
			slope[i] = (M(k - 1) + M(k)) / 2;
		} else {
			slope[i] = (w1 * M(k - 1) + w2 * M(k)) / (w1 + w2);
			// the rule is discontinuous where both weights vanish
			if (w1 + w2 < 1e-9 * big)
				stable = false;
		}
	}
	for (size_t tries = 0; tries < 6; ++tries) {
		size_t i = c.below(n - 1);
		double u = c.real01(), dx = x[i + 1] - x[i], xx = x[i] + u * dx;
		// cubic with these values and slopes at its ends
		double h00 = (1 + 2 * u) * (1 - u) * (1 - u), h10 = u * (1 - u) * (1 - u), h01 = u * u * (3 - 2 * u), h11 = u * u * (u - 1);
		double want = h00 * s[i] + h10 * dx * slope[i] + h01 * s[i + 1] + h11 * dx * slope[i + 1];
		if (stable)
			CHECK(std::fabs(a(xx) - want) <= 1e-9 * size * 10, "at " << xx << " it is " << a(xx) << " want " << want);
		if (shape == 0)
			CHECK(std::fabs(a(xx) - (p + q * xx)) <= 1e-10 * size * 10, "straight line at " << xx << " is " << a(xx));
		if (shape == 1 && uniform)
			CHECK(std::fabs(a(xx) - (p + q * xx + r * xx * xx)) <= 1e-10 * size * 10, "parabola at " << xx << " is " << a(xx));
	}
	// other units, by powers of two so that nothing is rounded
	int kx = (int)c.range(-60, 60), ks = (int)c.range(-60, 60);
	V x2(n), s2(n);
	for (size_t i = 0; i < n; ++i) {
		x2[i] = std::ldexp(x[i], kx);
		s2[i] = std::ldexp(s[i], ks);
	}
	AkimaSpline<V> b(x2, s2);
	for (size_t tries = 0; stable && tries < 4; ++tries) {
		size_t i = c.below(n - 1);
		double xx = x[i] + c.real01() * (x[i + 1] - x[i]);
		double got = std::ldexp(b(std::ldexp(xx, kx)), -ks);
		CHECK(std::fabs(got - a(xx)) <= 1e-11 * size, "in units of 2^" << kx << " and 2^" << ks << " at " << xx << " it is " << got << " want " << a(xx));
	}
}

PBT_MAIN
