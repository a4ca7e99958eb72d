#pragma once
#include "CrsMatrix.h"
#include "LanczosSolver.h"
#include "ParametersForSolver.h"
#include "refmat.h"
#include "sparse.h"

typedef PsimagLite::ParametersForSolver<double> Params;

// a caller's own matrix type, as the interface documents it: rows() and x += H y
template <typename T> struct OwnMatrix {
	typedef T value_type;
	const RM<T>& m;
	size_t       rows() const { return m.r; }
	void         matrixVectorProduct(std::vector<T>& x, const std::vector<T>& y) const
	{
		for (size_t i = 0; i < m.r; ++i)
			for (size_t j = 0; j < m.c; ++j)
				x[i] += m(i, j) * y[j];
	}
};

template <typename T> struct Problem {
	RM<T>               h;      // Hermitian
	RM<T>               q;      // eigenvectors in columns (constructed)
	std::vector<double> e;      // eigenvalues of those columns
	std::vector<T>      start;  // a starting vector
	double              scale = 1;
};

// random unitary as a product of Householder reflections
template <typename T> RM<T> unitary(pbt::Ctx& c, size_t n)
{
	RM<T> q = reye<T>(n);
	for (unsigned s = 0; s < 3; ++s) {
		std::vector<T> v(n);
		double         nn = 0;
		for (auto& x : v) {
			x = Gen<T>::any(c);
			nn += std::norm(x);
		}
		if (nn == 0)
			continue;
		for (size_t j = 0; j < n; ++j) {
			T d = T(0);
			for (size_t i = 0; i < n; ++i)
				d += cj(v[i]) * q(i, j);
			d *= T(2.0 / nn);
			for (size_t i = 0; i < n; ++i)
				q(i, j) -= v[i] * d;
		}
	}
	return q;
}

template <typename T> double rmNorm(const std::vector<T>& v)
{
	double s = 0;
	for (auto& x : v)
		s += std::norm(x);
	return std::sqrt(s);
}

template <typename T> std::vector<T> mulV(const RM<T>& a, const std::vector<T>& v)
{
	std::vector<T> w(a.r, T(0));
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			w[i] += a(i, j) * v[j];
	return w;
}

template <typename T> T dotV(const std::vector<T>& a, const std::vector<T>& b)
{
	T s = T(0);
	for (size_t i = 0; i < a.size(); ++i)
		s += cj(a[i]) * b[i];
	return s;
}

// distinct eigenvalues with gaps, start vector with weight on every eigenvector
template <typename T> Problem<T> genericProblem(pbt::Ctx& c, size_t n)
{
	Problem<T> p;
	p.e.resize(n);
	double x = c.range(-60, 20) / 10.0;
	for (size_t i = 0; i < n; ++i) {
		p.e[i] = x;
		x += c.range(2, 12) / 10.0;
	}
	bool diagonal = c.chance(1, 6);
	c.labelIf(diagonal, "diagonal matrix");
	p.q = diagonal ? reye<T>(n) : unitary<T>(c, n);
	p.h = RM<T>(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			for (size_t k = 0; k < n; ++k)
				p.h(i, j) += p.q(i, k) * T(p.e[k]) * cj(p.q(j, k));
	for (size_t i = 0; i < n; ++i) {
		p.h(i, i) = std::real(p.h(i, i));
		for (size_t j = 0; j < i; ++j)
			p.h(i, j) = cj(p.h(j, i));
	}
	p.start.assign(n, T(0));
	double f = c.pickOf({ 1.0, 1.0, 0.125, 50.0 });
	for (size_t k = 0; k < n; ++k) {
		double w = (c.flip() ? 1 : -1) * c.range(30, 100) / 100.0 * f;
		for (size_t i = 0; i < n; ++i)
			p.start[i] += p.q(i, k) * T(w);
	}
	for (double v : p.e)
		p.scale = std::max(p.scale, std::fabs(v));
	return p;
}
