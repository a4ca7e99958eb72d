// refmat.h - reference dense matrices (independent of the code under test) and generators.
// Element values are small dyadic rationals, so sums and products of generated operands are exact
// in double precision and results are compared for equality.
#pragma once
#include "pbt.h"
#include <cmath>
#include <memory>

template <typename T> struct IsCplx {
	static const bool value = false;
};
template <typename T> struct IsCplx<std::complex<T>> {
	static const bool value = true;
};

template <typename T> T cj(const T& x) { return x; }
template <typename T> std::complex<T> cj(const std::complex<T>& x) { return std::conj(x); }

template <typename T> double absv(const T& x) { return std::abs(x); }

template <typename T> struct RM {
	size_t r = 0, c = 0;
	std::vector<T> d;
	RM() { }
	RM(size_t r_, size_t c_)
	    : r(r_)
	    , c(c_)
	    , d(r_ * c_, T(0))
	{ }
	T&       operator()(size_t i, size_t j) { return d[i * c + j]; }
	const T& operator()(size_t i, size_t j) const { return d[i * c + j]; }
	bool     operator==(const RM& o) const { return r == o.r && c == o.c && d == o.d; }
	bool     operator!=(const RM& o) const { return !(*this == o); }
};

template <typename T> std::ostream& operator<<(std::ostream& os, const RM<T>& m)
{
	os << m.r << "x" << m.c << "[";
	for (size_t i = 0; i < m.r; ++i) {
		os << (i ? "; " : "");
		for (size_t j = 0; j < m.c; ++j)
			os << (j ? " " : "") << m(i, j);
	}
	return os << "]";
}

template <typename T> RM<T> rmul(const RM<T>& a, const RM<T>& b)
{
	RM<T> x(a.r, b.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < b.c; ++j)
			for (size_t k = 0; k < a.c; ++k)
				x(i, j) += a(i, k) * b(k, j);
	return x;
}

template <typename T> RM<T> rlin(const RM<T>& a, T f, const RM<T>& b, T g)
{
	RM<T> x(std::max(a.r, b.r), std::max(a.c, b.c));
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			x(i, j) += a(i, j) * f;
	for (size_t i = 0; i < b.r; ++i)
		for (size_t j = 0; j < b.c; ++j)
			x(i, j) += b(i, j) * g;
	return x;
}

template <typename T> RM<T> rscale(const RM<T>& a, T f)
{
	RM<T> x = a;
	for (auto& v : x.d)
		v *= f;
	return x;
}

template <typename T> RM<T> rtc(const RM<T>& a)
{
	RM<T> x(a.c, a.r);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			x(j, i) = cj(a(i, j));
	return x;
}

template <typename T> RM<T> reye(size_t n)
{
	RM<T> x(n, n);
	for (size_t i = 0; i < n; ++i)
		x(i, i) = 1;
	return x;
}

// ---- generators
// a power of two, now and then far from one: exact results stay exact
inline double magnitude(pbt::Ctx& c)
{
	if (!c.chance(1, 8))
		return 1;
	return std::ldexp(1., c.pickOf({ -10, -22, -31, -60, 31, 60 }));
}

inline double genReal(pbt::Ctx& c) // small dyadic, 0 simplest
{
	long v = c.sint(8);
	return c.chance(1, 4) ? v / 4.0 : v;
}

template <typename T> struct Gen {
	static T any(pbt::Ctx& c) { return static_cast<T>(genReal(c)); }
};
template <> struct Gen<int> {
	static int any(pbt::Ctx& c) { return c.sint(9); }
};
template <typename T> struct Gen<std::complex<T>> {
	static std::complex<T> any(pbt::Ctx& c)
	{
		T re = static_cast<T>(genReal(c));
		T im = c.chance(1, 4) ? T(0) : static_cast<T>(genReal(c));
		return std::complex<T>(re, im);
	}
};

template <typename T> T genNonZero(pbt::Ctx& c)
{
	T v = Gen<T>::any(c);
	if (v == T(0))
		v = T(1);
	return v;
}

template <typename T> RM<T> genDense(pbt::Ctx& c, size_t r, size_t cc)
{
	RM<T> m(r, cc);
	std::unique_ptr<pbt::Ctx::Bulk> bulk(r * cc > 150 ? new pbt::Ctx::Bulk(c) : nullptr);
	for (auto& v : m.d)
		v = Gen<T>::any(c);
	return m;
}

// density chosen per matrix, with whole rows emptied now and then
template <typename T> RM<T> genSparse(pbt::Ctx& c, size_t r, size_t cc)
{
	RM<T>    m(r, cc);
	std::unique_ptr<pbt::Ctx::Bulk> bulk(r * cc > 150 ? new pbt::Ctx::Bulk(c) : nullptr);
	unsigned dens = c.below(5); // 0..4 of 4
	bool     holes = c.chance(1, 3);
	for (size_t i = 0; i < r; ++i) {
		if (holes && c.chance(1, 3))
			continue;
		for (size_t j = 0; j < cc; ++j)
			if (c.below(4) < dens)
				m(i, j) = genNonZero<T>(c);
	}
	return m;
}

// while it lives one of two dimensions is up to n
struct LongDims {
	static size_t& most()
	{
		static thread_local size_t n = 0;
		return n;
	}
	explicit LongDims(size_t n) { most() = n; }
	~LongDims() { most() = 0; }
};

// now and then all the dimensions of a case are several times larger
inline size_t genDim(pbt::Ctx& c, size_t lo, size_t hi)
{
	if (LongDims::most() > 0)
		return c.flip() ? c.skew(lo, std::min<size_t>(hi, 4)) : c.skew(lo, LongDims::most());
	return c.skew(lo, c.large() && hi > 2 ? 5 * hi : hi);
}

template <typename T> size_t nnz(const RM<T>& m)
{
	size_t n = 0;
	for (auto& v : m.d)
		n += (v != T(0));
	return n;
}

template <typename T> size_t emptyRows(const RM<T>& m)
{
	size_t n = 0;
	for (size_t i = 0; i < m.r; ++i) {
		bool e = true;
		for (size_t j = 0; j < m.c; ++j)
			if (m(i, j) != T(0))
				e = false;
		n += e;
	}
	return n;
}

template <typename T> double maxDiff(const RM<T>& a, const RM<T>& b)
{
	if (a.r != b.r || a.c != b.c)
		return 1e300;
	double x = 0;
	for (size_t i = 0; i < a.d.size(); ++i) {
		double d = absv(a.d[i] - b.d[i]);
		if (!(d <= x))
			x = std::isnan(d) ? 1e300 : d;
	}
	return x;
}
