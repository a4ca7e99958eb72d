// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-QUICK: 500000
// PBT-THOROUGH: 20000000
// PBT-RULE: a case factorizes one generated matrix (orders 1..10, sometimes up to 40; random, diagonal, degenerate, rank deficient, badly scaled, with prescribed spectrum; four element types) and checks the defining equations
// PBT-RULE: to a rounding-level tolerance; non-trivial = order (or smaller side) at least two
#include "Matrix.h"
#include "Svd.h"
#include "refmat.h"
typedef std::complex<double> Cd;
typedef std::complex<float>  Cf;
using PsimagLite::Matrix;

template <typename T> struct RealOf {
	typedef T Type;
};
template <typename T> struct RealOf<std::complex<T>> {
	typedef T Type;
};
template <typename T> double epsOf() { return std::numeric_limits<typename RealOf<T>::Type>::epsilon(); }

template <typename T> static Matrix<T> toLib(const RM<T>& m)
{
	Matrix<T> x(m.r, m.c);
	for (size_t i = 0; i < m.r; ++i)
		for (size_t j = 0; j < m.c; ++j)
			x(i, j) = m(i, j);
	return x;
}
template <typename T> static RM<T> fromLib(const Matrix<T>& m)
{
	RM<T> x(m.rows(), m.cols());
	for (size_t i = 0; i < x.r; ++i)
		for (size_t j = 0; j < x.c; ++j)
			x(i, j) = m(i, j);
	return x;
}

template <typename T> static double maxAbs(const RM<T>& a)
{
	double x = 0;
	for (auto& v : a.d)
		x = std::max(x, static_cast<double>(std::abs(v)));
	return x;
}

// wide copies, so that the oracle's own rounding does not matter for float
template <typename T> static RM<Cd> wide(const RM<T>& a)
{
	RM<Cd> x(a.r, a.c);
	for (size_t i = 0; i < a.d.size(); ++i)
		x.d[i] = a.d[i];
	return x;
}

static size_t order(pbt::Ctx& c)
{
	return c.chance(1, 40) ? c.range(11, 40) : c.skew(1, 10);
}

// apply random Householder similarity transformations: keeps the spectrum
template <typename T> static void conjugateBy(pbt::Ctx& c, RM<T>& a)
{
	size_t n = a.r;
	for (unsigned s = 0; s < 2; ++s) {
		std::vector<T> v(n);
		double         nn = 0;
		for (auto& x : v) {
			x = Gen<T>::any(c);
			nn += std::norm(x);
		}
		if (nn == 0)
			continue;
		RM<T> h = reye<T>(n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				h(i, j) -= T(2.0 / nn) * v[i] * cj(v[j]);
		a = rmul(rmul(h, a), rtc(h));
	}
}

template <typename T> static RM<T> hermitian(pbt::Ctx& c, size_t n, std::vector<double>* spectrum = nullptr)
{
	typedef typename RealOf<T>::Type R;
	RM<T>    a(n, n);
	unsigned kind = c.below(7);
	switch (kind) {
	case 0:
	case 1: { // random, dense or sparse
		unsigned dens = kind ? 1 : 4;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = i; j < n; ++j)
				if (c.below(4) < dens) {
					a(i, j) = Gen<T>::any(c);
					a(j, i) = cj(a(i, j));
					if (i == j)
						a(i, j) = std::real(a(i, j));
				}
		break;
	}
	case 2: // diagonal, values repeated
		for (size_t i = 0; i < n; ++i)
			a(i, i) = R(c.sint(2));
		break;
	case 3: { // rank one
		std::vector<T> v(n);
		for (auto& x : v)
			x = Gen<T>::any(c);
		R s = c.flip() ? 1 : -1;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				a(i, j) = s * v[i] * cj(v[j]);
		break;
	}
	case 4:
	case 5: { // prescribed spectrum, degenerate or nearly so
		std::vector<double> e(n);
		for (auto& x : e) {
			x = c.sint(3);
			if (kind == 5 && c.chance(1, 3))
				x += 1e-9 * c.sint(5);
		}
		for (size_t i = 0; i < n; ++i)
			a(i, i) = R(e[i]);
		conjugateBy(c, a);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = i; j < n; ++j) {
				a(j, i) = cj(a(i, j));
				if (i == j)
					a(i, j) = std::real(a(i, j));
			}
		std::sort(e.begin(), e.end());
		if (spectrum)
			*spectrum = e;
		break;
	}
	case 6: // two decoupled equal blocks
		for (size_t i = 0; i < n; ++i)
			for (size_t j = i; j < n; ++j)
				if ((i & 1) == (j & 1)) {
					a(i, j) = R(1.0 + (j - i));
					a(j, i) = cj(a(i, j));
				}
		break;
	}
	if (c.chance(1, 4)) {
		R s = std::pow(10.0, c.range(-6, 6));
		for (auto& x : a.d)
			x *= s;
		if (spectrum)
			for (auto& x : *spectrum)
				x *= s;
		c.label("scaled");
	}
	c.label("kind " + std::to_string(kind));
	return a;
}

template <typename T> static void orthonormalColumns(const RM<Cd>& v, double tol, const char* what)
{
	double d = maxDiff(rmul(rtc(v), v), reye<Cd>(v.c));
	CHECK(d <= tol, what << " are not orthonormal: deviation " << d);
}

// the same eigenvalues-only call made directly; the installed LAPACK is inaccurate now and then in single precision
static void direct(RM<float>& a, std::vector<float>& e)
{
	int n = a.r, lw = 400 * n + 400, info = 0;
	std::vector<float> w(lw);
	ssyev_((char*)"N", (char*)"U", &n, a.d.data(), &n, e.data(), w.data(), &lw, &info);
}
static void direct(RM<double>& a, std::vector<double>& e)
{
	int n = a.r, lw = 400 * n + 400, info = 0;
	std::vector<double> w(lw);
	dsyev_((char*)"N", (char*)"U", &n, a.d.data(), &n, e.data(), w.data(), &lw, &info);
}
static void direct(RM<Cf>& a, std::vector<float>& e)
{
	int n = a.r, lw = 400 * n + 400, info = 0;
	std::vector<Cf> w(lw);
	std::vector<float> rw(3 * n);
	cheev_((char*)"N", (char*)"U", &n, a.d.data(), &n, e.data(), w.data(), &lw, rw.data(), &info);
}
static void direct(RM<Cd>& a, std::vector<double>& e)
{
	int n = a.r, lw = 400 * n + 400, info = 0;
	std::vector<Cd> w(lw);
	std::vector<double> rw(3 * n);
	zheev_((char*)"N", (char*)"U", &n, a.d.data(), &n, e.data(), w.data(), &lw, rw.data(), &info);
}

template <typename T> static void diagonalize(pbt::Ctx& c)
{
	typedef typename RealOf<T>::Type R;
	size_t              n = order(c);
	std::vector<double> spec;
	RM<T>               a = hermitian<T>(c, n, &spec);
	DESC("diag " << a);
	if (n >= 2)
		c.nontrivial();
	double         scale = maxAbs(a), tol = 40 * (n + 1) * epsOf<T>();
	Matrix<T>      m = toLib(a), m2 = toLib(a);
	std::vector<R> e(c.below(2 * n + 2)), e2(c.below(2 * n + 2));
	diag(m, e, 'V');
	diag(m2, e2, 'N');
	CHECK(e.size() == n && e2.size() == n, "number of eigenvalues");
	RM<Cd> v = wide(fromLib(m));
	CHECK(v.r == n && v.c == n, "shape of the eigenvector matrix");
	orthonormalColumns<T>(v, tol, "eigenvectors");
	RM<Cd> av = rmul(wide(a), v), ve = v;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			ve(i, j) *= static_cast<double>(e[j]);
	CHECK(maxDiff(av, ve) <= tol * scale * n + 1e-300, "eigen equation violated by " << maxDiff(av, ve));
	std::vector<R> e3(n);
	bool           own = false;
	for (size_t i = 0; i < n; ++i)
		if (!(std::fabs(e[i] - e2[i]) <= tol * scale * n + 1e-300))
			own = true;
	if (own) {
		RM<T> at(n, n); // column-major copy
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				at(j, i) = a(i, j);
		direct(at, e3);
		c.label("LAPACK without vectors is inaccurate");
	}
	for (size_t i = 0; i < n; ++i) {
		CHECK(i == 0 || e[i] >= e[i - 1], "eigenvalues are not ascending");
		CHECK(i == 0 || e2[i] >= e2[i - 1], "eigenvalues are not ascending");
		if (own)
			CHECK(n > 20 || std::fabs(e2[i] - e3[i]) <= 1e-3 * scale, "eigenvalues differ without eigenvectors: " << e[i] << " " << e2[i] << " " << e3[i]);
		else
		CHECK(std::fabs(e[i] - e2[i]) <= tol * scale * n + 1e-300, "eigenvalues differ without eigenvectors: " << e[i] << " " << e2[i]);
		if (!spec.empty())
			CHECK(std::fabs(e[i] - spec[i]) <= 10 * tol * (scale + 1e-300) * n, "eigenvalue " << i << " is " << e[i] << ", constructed as " << spec[i]);
	}
}

template <typename T> static RM<T> general(pbt::Ctx& c, size_t r, size_t cc)
{
	typedef typename RealOf<T>::Type R;
	RM<T>    a(r, cc);
	unsigned kind = c.below(5);
	switch (kind) {
	case 0:
	case 1:
		a = genDense<T>(c, r, cc);
		break;
	case 2: { // low rank
		size_t k = c.range(0, std::min(r, cc) - (std::min(r, cc) > 1));
		if (k)
			a = rmul(genDense<T>(c, r, k), genDense<T>(c, k, cc));
		break;
	}
	case 3: // (generalized) diagonal with repeated values
		for (size_t i = 0; i < std::min(r, cc); ++i)
			a(i, i) = R(c.sint(2));
		break;
	case 4:
		a = genSparse<T>(c, r, cc);
		break;
	}
	if (c.chance(1, 4)) {
		R s = std::pow(10.0, c.range(-6, 6));
		for (auto& x : a.d)
			x *= s;
		c.label("scaled");
	}
	return a;
}

template <typename T> static void svd(pbt::Ctx& c)
{
	typedef typename RealOf<T>::Type R;
	size_t m = order(c), n = order(c), k = std::min(m, n);
	RM<T>  a = general<T>(c, m, n);
	char   job = c.flip() ? 'A' : 'S';
	std::string name = c.flip() ? "gesdd" : "gesvd";
	DESC("svd " << name << " " << job << " " << a);
	c.label(name + job + (m > n ? ">" : (m < n ? "<" : "=")));
	if (k >= 2)
		c.nontrivial();
	PsimagLite::Svd<T> op(name);
	CHECK(op.name() == name && op.canTryAgain() == (name == "gesdd"), "name of the backend");
	Matrix<T>      u = toLib(a), vt;
	std::vector<R> s(c.below(2 * k + 2));
	size_t         vr = job == 'A' ? n : k, uc = job == 'A' ? m : k;
	if (c.flip()) // a used target of the same shape
		vt = toLib(genDense<T>(c, vr, n));
	op(job, u, s, vt);
	CHECK(s.size() == k, s.size() << " singular values instead of " << k);
	CHECK(u.rows() == m && u.cols() == uc, "left vectors are " << u.rows() << "x" << u.cols());
	CHECK(vt.rows() == vr && vt.cols() == n, "right vectors are " << vt.rows() << "x" << vt.cols());
	double scale = maxAbs(a), tol = 60 * (m + n + 1) * epsOf<T>();
	RM<Cd> U = wide(fromLib(u)), V = wide(fromLib(vt));
	orthonormalColumns<T>(U, tol, "left singular vectors");
	orthonormalColumns<T>(rtc(V), tol, "right singular vectors");
	RM<Cd> us(m, k), v(k, n);
	for (size_t i = 0; i < k; ++i) {
		CHECK(s[i] >= 0, "negative singular value");
		CHECK(i == 0 || s[i] <= s[i - 1], "singular values are not descending");
		for (size_t j = 0; j < m; ++j)
			us(j, i) = U(j, i) * static_cast<double>(s[i]);
		for (size_t j = 0; j < n; ++j)
			v(i, j) = V(i, j);
	}
	CHECK(maxDiff(rmul(us, v), wide(a)) <= tol * scale * std::max(m, n) + 1e-300, "U s V does not give the matrix back, deviation " << maxDiff(rmul(us, v), wide(a)));
}

template <typename T> static void invert(pbt::Ctx& c)
{
	size_t n = order(c);
	RM<T>  a = genDense<T>(c, n, n);
	bool   singular = c.chance(1, 4);
	if (singular) { // structurally singular, so that rounding cannot hide it
		size_t k = c.below(n);
		bool   row = c.flip();
		for (size_t i = 0; i < n; ++i)
			(row ? a(k, i) : a(i, k)) = T(0);
	} else if (c.chance(1, 3)) { // permutation-like: needs pivoting
		a = RM<T>(n, n);
		std::vector<size_t> p(n);
		for (size_t i = 0; i < n; ++i)
			p[i] = i;
		for (size_t i = 1; i < n; ++i)
			std::swap(p[i], p[c.below(i + 1)]);
		for (size_t i = 0; i < n; ++i)
			a(i, p[i]) = genNonZero<T>(c);
	}
	DESC("inverse " << a);
	if (n >= 2)
		c.nontrivial();
	c.labelIf(singular, "singular");
	Matrix<T> m      = toLib(a);
	bool      threw  = pbt::throws([&] { inverse(m); });
	if (singular) {
		CHECK(threw, "a singular matrix was inverted");
		return;
	}
	if (threw) { // must really be singular: check by elimination in extended precision
		RM<std::complex<long double>> w(n, n);
		for (size_t i = 0; i < a.d.size(); ++i)
			w.d[i] = std::complex<long double>(std::real(a.d[i]), std::imag(a.d[i]));
		for (size_t k = 0; k < n; ++k) {
			size_t p = k;
			for (size_t i = k; i < n; ++i)
				if (std::abs(w(i, k)) > std::abs(w(p, k)))
					p = i;
			if (std::abs(w(p, k)) < 1e-4L)
				return;
			for (size_t j = 0; j < n; ++j)
				std::swap(w(p, j), w(k, j));
			for (size_t i = k + 1; i < n; ++i) {
				auto f = w(i, k) / w(k, k);
				for (size_t j = k; j < n; ++j)
					w(i, j) -= f * w(k, j);
			}
		}
		FAIL("a regular matrix was refused");
	}
	RM<Cd> x = wide(fromLib(m)), A = wide(a);
	CHECK(x.r == n && x.c == n, "shape of the inverse");
	double tol = 40.0 * n * n * epsOf<T>() * std::max(1.0, maxAbs(A) * maxAbs(x) * n);
	if (!(tol < 0.01))
		return; // numerically singular
	CHECK(maxDiff(rmul(A, x), reye<Cd>(n)) <= tol * std::max(1.0, maxAbs(A) * maxAbs(x)), "matrix times inverse is off by " << maxDiff(rmul(A, x), reye<Cd>(n)));
	c.label("inverted");
}

// reference exponential by scaling and Taylor series
static RM<std::complex<long double>> refExp(const RM<Cd>& a, std::complex<long double> f)
{
	typedef std::complex<long double> L;
	size_t n = a.r;
	RM<L>  x(n, n);
	for (size_t i = 0; i < a.d.size(); ++i)
		x.d[i] = L(a.d[i].real(), a.d[i].imag()) * f;
	long double nrm = 0;
	for (auto& v : x.d)
		nrm = std::max(nrm, std::abs(v) * n);
	int k = 0;
	while (nrm > 0.1L) {
		nrm /= 2;
		++k;
	}
	for (auto& v : x.d)
		v *= std::pow(2.0L, -k);
	RM<L> s = reye<L>(n), t = reye<L>(n);
	for (int i = 1; i < 22; ++i) {
		t = rscale(rmul(t, x), L(1.0L / i));
		s = rlin(s, L(1), t, L(1));
	}
	for (int i = 0; i < k; ++i)
		s = rmul(s, s);
	return s;
}

template <typename T> static void exponential(pbt::Ctx& c)
{
	size_t n = c.skew(1, 7);
	RM<T>  a = hermitian<T>(c, n);
	double s = maxAbs(a) * n;
	if (s > 12) // keep the values representable and the tolerance meaningful
		for (auto& v : a.d)
			v = v * T(12.0 / s);
	double shift = !IsCplx<T>::value && c.chance(1, 4) ? c.range(1, sizeof(T) < 8 ? 20 : 60) / (c.flip() ? 1. : -4.) : 0; // moves all eigenvalues down, or up
	for (size_t i = 0; i < n; ++i)
		a(i, i) -= T(shift);
	c.labelIf(shift != 0, "shifted spectrum");
	DESC("exp " << a);
	if (n >= 2)
		c.nontrivial();
	Matrix<T> m = toLib(a);
	PsimagLite::exp(m);
	RM<Cd> r = wide(fromLib(m));
	bool   cx = IsCplx<T>::value;
	auto   e  = refExp(wide(a), cx ? std::complex<long double>(0, 1) : std::complex<long double>(1, 0));
	double big = 0, d = 0;
	for (size_t i = 0; i < e.d.size(); ++i) {
		big = std::max(big, static_cast<double>(std::abs(e.d[i])));
		d   = std::max(d, std::abs(r.d[i] - Cd(e.d[i].real(), e.d[i].imag())));
	}
	// relative to the largest element, which is e^(largest eigenvalue) up to a factor n
	CHECK(d <= 400 * n * epsOf<T>() * big * (13 + std::abs(shift)), "exponential is off by " << d);
	if constexpr (IsCplx<T>::value) {
		for (auto& v : a.d)
			v = v / typename RealOf<T>::Type(3);
		Matrix<T> p = toLib(a);
		expIpi(p);
		RM<Cd> q = wide(fromLib(p));
		auto   f = refExp(wide(a), std::complex<long double>(0, 3.14159265358979323846264338327950288L));
		d        = 0;
		for (size_t i = 0; i < f.d.size(); ++i)
			d = std::max(d, std::abs(q.d[i] - Cd(f.d[i].real(), f.d[i].imag())));
		CHECK(d <= 400 * n * epsOf<T>() * 13, "exp(i pi A) is off by " << d);
	}
}

PROP(geev, 3)
{
	size_t n = order(c);
	RM<Cd> a = general<Cd>(c, n, n);
	if (c.chance(1, 4)) // triangular: not diagonalizable now and then
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < i; ++j)
				a(i, j) = 0;
	DESC("geev " << a);
	if (n >= 2)
		c.nontrivial();
	bool wl = c.flip(), wr = c.flip();
	Matrix<Cd>      m = toLib(a), vl(n, n), vr(n, n);
	std::vector<Cd> w(n);
	geev(wl ? 'V' : 'N', wr ? 'V' : 'N', m, w, vl, vr);
	double scale = maxAbs(a), tol = 60 * (n + 1) * epsOf<Cd>() * (scale + 1e-300) * n;
	Cd     tr = 0, sw = 0;
	for (size_t i = 0; i < n; ++i) {
		tr += a(i, i);
		sw += w[i];
	}
	CHECK(std::abs(tr - sw) <= tol, "sum of eigenvalues " << sw << " is not the trace " << tr);
	for (size_t k = 0; k < n; ++k) {
		double nl = 0, nr = 0, rl = 0, rr = 0;
		for (size_t i = 0; i < n; ++i) {
			Cd x = 0, y = 0;
			for (size_t j = 0; j < n; ++j) {
				x += a(i, j) * vr(j, k);
				y += std::conj(vl(j, k)) * a(j, i);
			}
			rr = std::max(rr, std::abs(x - w[k] * vr(i, k)));
			rl = std::max(rl, std::abs(y - w[k] * std::conj(vl(i, k))));
			nr += std::norm(vr(i, k));
			nl += std::norm(vl(i, k));
		}
		if (wr)
			CHECK(std::fabs(nr - 1) < 1e-10 && rr <= tol, "right eigenvector " << k << ": norm " << nr << " residual " << rr);
		if (wl)
			CHECK(std::fabs(nl - 1) < 1e-10 && rl <= tol, "left eigenvector " << k << ": norm " << nl << " residual " << rl);
	}
	Matrix<Cd>      m2 = toLib(a);
	std::vector<Cd> w2(n);
	geev('V', 'V', m2, w2, vl, vr);
	// same multiset of eigenvalues up to conditioning: compare elementary symmetric functions only for the trace
	Cd sw2 = 0;
	for (auto& x : w2)
		sw2 += x;
	CHECK(std::abs(sw2 - sw) <= 2 * tol, "eigenvalues depend on the job");
}

PROP(refusals, 1)
{
	c.nontrivial();
	size_t r = c.range(1, 5), cc = c.range(1, 5);
	RM<Cd> a = genDense<Cd>(c, r, cc);
	if (r != cc) {
		Matrix<Cd> m = toLib(a);
		CHECK(pbt::throws([&] { expIpi(m); }), "exponential of a rectangular matrix");
	}
	Matrix<double> d = toLib(genDense<double>(c, r, r));
	CHECK(pbt::throws([&] { expIpi(d); }), "complex exponential stored in a real matrix");
	char job = c.pickOf({ 'N', 'O', 'a', 's', ' ', 'V' });
	PsimagLite::Svd<Cd> op;
	std::vector<double> s;
	Matrix<Cd>          vt, u = toLib(a);
	CHECK(pbt::throws([&] { op(job, u, s, vt); }), "unknown job " << job << " accepted");
	PsimagLite::Svd<Cd> unknown(c.pickOf({ "gesd", "gesdd ", "GESDD", "", "svd" }));
	Matrix<Cd>          u2 = toLib(a), vt2;
	CHECK(pbt::throws([&] { unknown('A', u2, s, vt2); }), "unknown backend accepted");
	Matrix<double>      z;
	std::vector<double> e;
	CHECK(pbt::throws([&] { diag(z, e, 'V'); }), "empty matrix diagonalized");
}

#define FOUR(name, w, fn)                                                                           \
	PROP(name##_float, w) { fn<float>(c); }                                                     \
	PROP(name##_double, w) { fn<double>(c); }                                                   \
	PROP(name##_cfloat, w) { fn<Cf>(c); }                                                       \
	PROP(name##_cdouble, w) { fn<Cd>(c); }
FOUR(diag, 3, diagonalize)
FOUR(svd, 3, svd)
FOUR(inverse, 2, invert)
FOUR(exp, 2, exponential)
PBT_MAIN
