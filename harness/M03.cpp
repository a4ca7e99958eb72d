// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-LIBS: gsl
// PBT-DEFS: -DUSE_GSL
// PBT-QUICK: 500000
// PBT-THOROUGH: 15000000
// PBT-RULE: a case is a signal, a sum of one to five damped, undamped or growing real and complex exponentials with well separated roots, sampled an even number of times and continued; or data with an odd number of points or too high an order
// PBT-RULE: non-trivial = order two or more, the normal equations conditioned so that the continuation is known to better than a thousandth of the signal
#include "pbt.h"
#include <cmath>
#include <complex>
#include <sstream>
#include <string>
#include <vector>
#include "PsimagLite.h"
#include "LinearPrediction.h"

typedef long double Real;
typedef std::complex<Real> Complex;
typedef PsimagLite::LinearPrediction<double> LinearPredictionType;

// the product of (z - root): real coefficients, highest power last
static std::vector<Real> polynomial(const std::vector<Complex>& roots)
{
	std::vector<Complex> p(1, Complex(1));
	for (const Complex& r : roots) {
		std::vector<Complex> q(p.size() + 1, Complex(0));
		for (size_t i = 0; i < p.size(); ++i) {
			q[i + 1] += p[i];
			q[i] -= r * p[i];
		}
		p = q;
	}
	std::vector<Real> out;
	for (const Complex& x : p)
		out.push_back(x.real());
	return out;
}

// y[i] = sum of c[j] y[i-1-j]
static std::vector<Real> coefficients(const std::vector<Complex>& roots)
{
	std::vector<Real> a = polynomial(roots), c(roots.size());
	for (size_t j = 0; j < c.size(); ++j)
		c[j] = -a[roots.size() - 1 - j];
	return c;
}

static bool draw(pbt::Ctx& c, size_t order, bool growing, Real least, Real most, std::vector<Complex>& roots)
{
	size_t left = order;
	if (growing) {
		roots.push_back(Complex((c.flip() ? 1 : -1) * (1.05L + 0.2L * c.real01())));
		--left;
	}
	while (left > 0) {
		Real mod = least + (most - least) * c.real01();
		if (left >= 2 && c.chance(2, 3)) {
			Real angle = 0.3L + 2.5L * c.real01();
			roots.push_back(std::polar(mod, angle));
			roots.push_back(std::polar(mod, -angle));
			left -= 2;
		} else {
			roots.push_back(Complex(c.flip() ? mod : -mod));
			--left;
		}
	}
	for (size_t i = 0; i < roots.size(); ++i)
		for (size_t j = 0; j < i; ++j)
			if (std::abs(roots[i] - roots[j]) < 0.25L)
				return false;
	return true;
}

// condition of the normal equations, of which the solution is known to be right
static Real condition(const std::vector<double>& y, size_t p)
{
	size_t n = y.size() / 2;
	std::vector<std::vector<Real>> a(p, std::vector<Real>(2 * p, 0));
	Real norm = 0;
	for (size_t l = 0; l < p; ++l) {
		Real row = 0;
		for (size_t j = 0; j < p; ++j) {
			for (size_t i = n; i < 2 * n; ++i)
				a[l][j] += (Real)y[i - l - 1] * y[i - j - 1];
			row += std::fabs(a[l][j]);
		}
		norm = std::max(norm, row);
		a[l][p + l] = 1;
	}
	for (size_t k = 0; k < p; ++k) {
		size_t piv = k;
		for (size_t r = k + 1; r < p; ++r)
			if (std::fabs(a[r][k]) > std::fabs(a[piv][k]))
				piv = r;
		if (std::fabs(a[piv][k]) < 1e-18L * norm)
			return 1e30L;
		std::swap(a[piv], a[k]);
		Real d = a[k][k];
		for (Real& x : a[k])
			x /= d;
		for (size_t r = 0; r < p; ++r) {
			if (r == k)
				continue;
			Real f = a[r][k];
			for (size_t col = 0; col < 2 * p; ++col)
				a[r][col] -= f * a[k][col];
		}
	}
	Real inv = 0;
	for (size_t l = 0; l < p; ++l) {
		Real row = 0;
		for (size_t j = 0; j < p; ++j)
			row += std::fabs(a[l][p + j]);
		inv = std::max(inv, row);
	}
	return norm * inv;
}

static void follow(pbt::Ctx& c, bool filtered)
{
	size_t order = c.rare(1, 5, 8, 6);
	bool growing = filtered && c.flip();
	std::vector<Complex> roots;
	if (!draw(c, order, growing, 0.75L, filtered ? 0.96L : 1.0L, roots))
		return;
	size_t n = order + c.rare(0, 11, 200, 60);
	size_t total = 2 * n, more = c.rare(1, 30, 400, 60), rounds = 1 + c.below(3);
	std::vector<Real> coef = coefficients(roots);
	std::vector<double> y;
	std::ostringstream log;
	log << total << " points, order " << order << " roots";
	for (const Complex& r : roots)
		log << " " << (double)r.real() << "+" << (double)r.imag() << "i";
	// any start: a combination of all the exponentials
	std::vector<Real> exact;
	for (size_t i = 0; i < order; ++i)
		exact.push_back((c.flip() ? 1 : -1) * (0.2L + (Real)c.real01()));
	while (exact.size() < total) {
		Real sum = 0;
		for (size_t j = 0; j < order; ++j)
			sum += coef[j] * exact[exact.size() - 1 - j];
		exact.push_back(sum);
	}
	for (Real x : exact)
		y.push_back((double)x);
	Real scale = 0;
	for (size_t i = n; i < total; ++i)
		scale = std::max(scale, std::fabs(exact[i]));
	DESC(log.str() << ", " << rounds << " times " << more << " more");
	Real cond = condition(y, order);
	// what rounding makes of the coefficients, and these of the values
	Real tol = 1e-14L * cond * (rounds * more + 5) * 10 * scale;
	if (!(tol < 1e-3L * scale))
		return;
	if (order > 1)
		c.nontrivial();
	c.labelIf(growing, "growing");

	LinearPredictionType lp(y, order);
	std::vector<Complex> kept = roots;
	for (Complex& r : kept)
		if (std::abs(r) > 1)
			r = 0;
	if (filtered)
		coef = coefficients(kept);
	std::vector<Real> want(y.begin(), y.end());
	for (size_t r = 0; r < rounds; ++r) {
		for (size_t i = 0; i < more; ++i) {
			Real sum = 0;
			for (size_t j = 0; j < order; ++j)
				sum += coef[j] * want[want.size() - 1 - j];
			want.push_back(sum);
		}
		if (filtered)
			lp.predict2(more);
		else
			lp.predict(more);
		for (size_t i = 0; i < total; ++i)
			CHECK(lp(i) == y[i], "sample " << i << " changed from " << y[i] << " to " << lp(i));
		for (size_t i = total; i < want.size(); ++i) {
			Real big = std::max(scale, std::fabs(want[i]));
			CHECK(std::fabs(lp(i) - want[i]) <= tol * (big / scale) * (filtered ? 100 : 1), "value " << i << " is " << lp(i) << " want " << (double)want[i] << " to " << (double)tol);
		}
		if (!filtered && c.flip())
			lp.linearPredictionfunction(y, order); // the same fit
	}
}

PROP(continuation, 4) { follow(c, false); }

// without what grows
PROP(filtered, 2) { follow(c, true); }

// any samples: the coefficients are those of least squared error over the second half
PROP(leastSquares, 3)
{
	size_t order = c.rare(1, 8, 24, 12);
	size_t n = order + c.rare(0, 11, 250, 30);
	std::vector<double> y(2 * n);
	{
		pbt::Ctx::Bulk bulk(c);
		for (double& x : y)
			x = c.unit();
	}
	size_t more = c.rare(1, 8, 60, 30);
	DESC(2 * n << " points, order " << order << ", " << more << " more; first " << y[0] << " last " << y.back());
	Real cond = condition(y, order);
	if (!(cond < 1e6L))
		return;
	// by elimination of the normal equations
	std::vector<std::vector<Real>> a(order, std::vector<Real>(order + 1, 0));
	for (size_t l = 0; l < order; ++l)
		for (size_t i = n; i < 2 * n; ++i) {
			for (size_t j = 0; j < order; ++j)
				a[l][j] += (Real)y[i - l - 1] * y[i - j - 1];
			a[l][order] += (Real)y[i - l - 1] * y[i];
		}
	for (size_t k = 0; k < order; ++k) {
		size_t piv = k;
		for (size_t r = k + 1; r < order; ++r)
			if (std::fabs(a[r][k]) > std::fabs(a[piv][k]))
				piv = r;
		std::swap(a[piv], a[k]);
		for (size_t r = 0; r < order; ++r) {
			if (r == k)
				continue;
			Real f = a[r][k] / a[k][k];
			for (size_t col = k; col <= order; ++col)
				a[r][col] -= f * a[k][col];
		}
	}
	if (order > 1 && n > order)
		c.nontrivial();
	LinearPredictionType lp(y, order);
	lp.predict(more);
	std::vector<Real> want(y.begin(), y.end());
	Real sumd = 1;
	for (size_t l = 0; l < order; ++l)
		sumd += std::fabs(a[l][order] / a[l][l]);
	Real err = 0, big = 1;
	for (size_t i = 2 * n; i < 2 * n + more; ++i) {
		Real sum = 0;
		for (size_t j = 0; j < order; ++j)
			sum += a[j][order] / a[j][j] * want[i - 1 - j];
		want.push_back(sum);
		big = std::max(big, std::fabs(sum));
		// what the coefficients' rounding adds, and what the earlier errors become
		err = err * sumd + 1e-13L * cond * sumd * order * big;
		if (!(err < 1e-4L * big))
			break;
		CHECK(std::fabs(lp(i) - sum) <= err, "value " << i << " is " << lp(i) << " want " << (double)sum << " to " << (double)err);
	}
	for (size_t i = 0; i < 2 * n; ++i)
		CHECK(lp(i) == y[i], "sample " << i << " changed from " << y[i] << " to " << lp(i));
}

// over- and under-determined data
PROP(refused, 1)
{
	size_t size = c.below(12), order = c.below(8);
	std::vector<double> y(size);
	for (double& x : y)
		x = c.real01() + 0.1;
	bool bad = (size % 2) || order == 0 || order > size / 2;
	DESC(size << " points, order " << order);
	if (bad) {
		c.nontrivial();
		CHECK(pbt::throws([&] { LinearPredictionType lp(y, order); }), "accepted");
		return;
	}
	LinearPredictionType lp(y, order);
	lp.predict(3);
	for (size_t i = 0; i < size; ++i)
		CHECK(lp(i) == y[i], "sample " << i << " changed");
	std::vector<double> z(size + 1, 1.0);
	CHECK(pbt::throws([&] { lp.linearPredictionfunction(z, order); }), "refit with an odd number of points accepted");
}

PBT_MAIN
