// PBT-SOURCES: Matrix.cpp PsimagLite.cpp SpecialFunctions.cpp
// PBT-LIBS: gsl
// PBT-DEFS: -DUSE_GSL
// PBT-QUICK: 4000000
// PBT-THOROUGH: 100000000
// PBT-RULE: a case is a real argument of any magnitude and sign for the occupation function and its companions, a complex argument away from the poles for the logarithm of gamma, a positive one for the cosine integral, or a complex or real number for the helpers
// PBT-RULE: non-trivial = an argument beyond the switch-over points of the overflow-safe branches, off the real axis, or left of the imaginary axis
#include "pbt.h"
#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include "PsimagLite.h"
#include "Complex.h"
#include "Fermi.h"
#include "SpecialFunctions.h"

static double anArgument(pbt::Ctx& c, int digits = 300)
{
	double x = 0;
	switch (c.below(5)) {
	case 0: x = c.unit() * 5; break;
	case 1: x = c.unit() * 60; break;
	case 2: x = c.pickOf<double>({ 20, 50, 0, 19.999999, 20.000001, 49.999999, 50.000001, 709, 710, 745, digits > 40 ? 1e300 : 1e37, 5e-324, 1e-17 }); break;
	case 3: x = std::pow(10.0, (double)c.range(-digits, digits)); break;
	default: x = c.sint(100) * 0.75;
	}
	return c.flip() ? x : -x;
}

// f = 1 / (1 + e^x)
static long double occupation(double x) { return x < 0 ? 1.0L / (1.0L + std::exp((long double)x)) : std::exp(-(long double)x) / (1.0L + std::exp(-(long double)x)); }

template <typename T> static void fermi(pbt::Ctx& c, double eps)
{
	int digits = sizeof(T) == 4 ? 37 : 300;
	T x = (T)anArgument(c, digits);
	DESC("x = " << x);
	if (x > 20 || x < -20)
		c.nontrivial();
	T f = PsimagLite::fermi(x), g = PsimagLite::fermi(-x), d = PsimagLite::fermiPrime(x), l = PsimagLite::logfermi(x);
	long double want = occupation(x), other = occupation(-x);
	CHECK(f >= 0 && f <= 1, "occupation " << f << " out of [0, 1]");
	CHECK(std::fabs(f - want) <= eps * want + 3e-22L, "occupation " << f << " want " << (double)want);
	CHECK(std::fabs(f + g - 1) <= eps, "occupations of x and -x sum to " << f + g);
	CHECK(std::fabs(d + want * other) <= 3 * eps * want * other + 3e-22L, "derivative " << d << " want " << (double)(-want * other));
	CHECK(d <= 0 && d >= -0.25 - eps, "derivative " << d << " out of [-1/4, 0]");
	CHECK(PsimagLite::fermiPrime(-x) == d, "derivative is not even: " << d << " and " << PsimagLite::fermiPrime(-x));
	long double logWant = x > 0 ? -(long double)x - std::log1p(std::exp(-(long double)x)) : -std::log1p(std::exp((long double)x));
	CHECK(std::fabs(l - logWant) <= 3e-9L + 4 * eps * std::fabs(logWant), "logarithm " << l << " want " << (double)logWant);
	CHECK(l <= 0, "logarithm of the occupation is positive: " << l);
	// monotone
	T y = (T)anArgument(c, digits);
	if (c.flip())
		y = x + (T)(c.unit() * 0.01);
	T lo = std::min(x, y), hi = std::max(x, y);
	CHECK(PsimagLite::fermi(hi) <= PsimagLite::fermi(lo) * (1 + eps), "occupation grows from " << lo << " to " << hi);
	CHECK(PsimagLite::logfermi(hi) <= PsimagLite::logfermi(lo) + 3e-9 + 4 * eps * std::fabs(PsimagLite::logfermi(lo)), "logarithm grows from " << lo << " to " << hi);
	if (std::fabs(x) < 15) {
		// the derivative is the slope
		T h = (T)(sizeof(T) == 4 ? 0.05 : 1e-4);
		T slope = (PsimagLite::fermi(x + h) - PsimagLite::fermi(x - h)) / ((x + h) - (x - h));
		CHECK(std::fabs(slope - d) <= (sizeof(T) == 4 ? 1e-3 : 1e-8), "slope " << slope << " and derivative " << d);
	}
}

PROP(occupations, 4) { fermi<double>(c, 1e-14); }
PROP(occupationsSingle, 1) { fermi<float>(c, 2e-6); }

typedef std::complex<double> C;

static double wrapped(double a)
{
	double pi = std::acos(-1.0);
	return std::remainder(a, 2 * pi);
}

static double away(C z)
{
	double d = std::abs(z);
	for (int k = 1; k < 60; ++k)
		d = std::min(d, std::abs(z + (double)k));
	return d;
}

PROP(gamma, 2)
{
	double re = c.chance(1, 5) ? c.sint(30) * 0.5 : c.unit() * (c.flip() ? 3 : 25);
	double im = c.chance(1, 5) ? 0 : c.unit() * (c.flip() ? 3 : 30);
	C z(re, im);
	DESC("z = " << re << " + " << im << " i");
	if (away(z) < 0.05 || away(1.0 - z) < 0.05 || away(z + 1.0) < 0.05)
		return;
	if (im != 0 || re < 0)
		c.nontrivial();
	C g = PsimagLite::LnGammaFunction(z);
	CHECK(std::fabs(g.imag()) <= 3.1415926535897936, "argument " << g.imag() << " out of (-pi, pi]");
	double scale = 1 + std::abs(z) * std::log(2 + std::abs(z));
	// recurrence
	C d = PsimagLite::LnGammaFunction(z + 1.0) - g - std::log(z);
	CHECK(std::fabs(d.real()) <= 1e-12 * scale && std::fabs(wrapped(d.imag())) <= 1e-11 * scale, "recurrence violated by " << d.real() << " and " << wrapped(d.imag()));
	// symmetry
	C s = PsimagLite::LnGammaFunction(std::conj(z)) - std::conj(g);
	CHECK(std::fabs(s.real()) <= 1e-13 * scale && std::fabs(wrapped(s.imag())) <= 1e-12 * scale, "conjugation violated by " << s);
	// reflection
	if (std::fabs(im) < 30) {
		const double pi = std::acos(-1.0);
		C r = g + PsimagLite::LnGammaFunction(1.0 - z) - std::log(pi / std::sin(pi * z));
		double sens = 1 + pi * std::abs(z) * std::abs(std::cos(pi * z) / std::sin(pi * z));
		CHECK(std::fabs(r.real()) <= 1e-12 * scale * sens && std::fabs(wrapped(r.imag())) <= 1e-11 * scale * sens, "reflection violated by " << r.real() << " and " << wrapped(r.imag()));
	}
	if (im == 0) {
		CHECK(std::fabs(g.real() - std::lgamma(re)) <= 1e-12 * scale, "real part " << g.real() << " want " << std::lgamma(re));
		double want = std::tgamma(re) < 0 ? std::acos(-1.0) : 0;
		if (std::fabs(re) < 20)
			CHECK(std::fabs(std::fabs(g.imag()) - want) <= 1e-10, "sign of gamma: argument " << g.imag() << " want " << want);
	}
}

// cosine integral: Ci(b) - Ci(a) is the integral of cos(t)/t
PROP(cosineIntegral, 2)
{
	double a = c.flip() ? 0.05 + 3 * c.real01() : 0.05 + 40 * c.real01();
	double b = a + 3 * c.real01();
	DESC("from " << a << " to " << b);
	if (b > 4)
		c.nontrivial();
	static const long double node[] = { 0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L };
	static const long double weight[] = { 0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L };
	long double sum = 0;
	int panels = a < 0.5 ? 80 : 12;
	for (int k = 0; k < panels; ++k) {
		// geometric panels resolve the pole at zero
		long double lo = a * std::pow((long double)b / a, (long double)k / panels), hi = a * std::pow((long double)b / a, (long double)(k + 1) / panels);
		for (int j = 0; j < 5; ++j)
			for (int sign = -1; sign < 2; sign += 2) {
				long double t = (lo + hi) / 2 + sign * node[j] * (hi - lo) / 2;
				sum += weight[j] * (hi - lo) / 2 * std::cos(t) / t;
			}
	}
	double got = PsimagLite::Ci(b) - PsimagLite::Ci(a);
	CHECK(std::fabs(got - sum) <= 1e-13 + 1e-13 * std::fabs(sum), "difference " << got << " want " << (double)sum);
	if (a > 0.05 && a < 6) {
		// the series: Euler's constant + log x + sum of (-1)^k x^2k / (2k (2k)!)
		long double s = 0.5772156649015328606L + std::log((long double)a), term = 1;
		for (int k = 1; k < 40; ++k) {
			term *= -(long double)a * a / ((2 * k - 1) * (2 * k));
			s += term / (2 * k);
		}
		CHECK(std::fabs(PsimagLite::Ci(a) - s) <= 1e-13, "Ci " << PsimagLite::Ci(a) << " want " << (double)s);
	}
}

PROP(helpers, 2)
{
	double a = anArgument(c), b = anArgument(c);
	if (c.flip()) {
		a = c.sint(50) * 0.5;
		b = c.sint(50) * 0.5;
	}
	int n = (int)c.sint(1000);
	std::complex<double> z(a, b);
	std::complex<float> zf((float)(n * 0.25), (float)c.sint(40));
	DESC("z = " << a << " + " << b << " i, n = " << n);
	if (b != 0)
		c.nontrivial();
	CHECK(PsimagLite::real(z) == a && PsimagLite::imag(z) == b, "parts");
	CHECK(PsimagLite::real(a) == a && PsimagLite::imag(a) == 0, "parts of a real number");
	CHECK(PsimagLite::real(n) == n && PsimagLite::imag(n) == 0, "parts of an integer");
	CHECK(PsimagLite::conj(a) == a, "conjugate of a real number");
	std::complex<double> w = PsimagLite::conj(z);
	CHECK(w.real() == a && w.imag() == -b, "conjugate " << w);
	CHECK(PsimagLite::conj(zf) == std::complex<float>(zf.real(), -zf.imag()), "conjugate in single precision");
	CHECK(PsimagLite::norm(a) == (a < 0 ? -a : a) && PsimagLite::norm(n) == (n < 0 ? -n : n), "norm of a real number");
	// of a complex number it is the square of the modulus
	double sq = a * a + b * b;
	if (std::fabs(a) < 1e150 && std::fabs(b) < 1e150)
		CHECK(std::fabs(PsimagLite::norm(z) - sq) <= 1e-15 * sq, "norm " << PsimagLite::norm(z) << " want " << sq);
	CHECK(PsimagLite::real(zf) == zf.real() && PsimagLite::imag(zf) == zf.imag(), "parts in single precision");
	CHECK((n * z) == std::complex<double>(a * n, b * n), "integer times complex " << n * z);
}

PBT_MAIN
