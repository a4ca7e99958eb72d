// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 2000000
// PBT-THOROUGH: 50000000
// PBT-RULE: a case makes a matrix that has the asked structure exactly, or has it except in one or a few elements (deviation at least 1/512, or at rounding level 1e-9), stored densely and sparsely with or without explicit zeros,
// PBT-RULE: and compares every structure question with its definition; non-trivial = order at least 2 and the matrix is not zero
#include "sparse.h"

template <typename T> static bool refHerm(const RM<T>& a, double sign)
{
	if (a.r != a.c)
		return false;
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			if (a(i, j) != T(sign) * cj(a(j, i)))
				return false;
	return true;
}

template <typename T> static T bump(pbt::Ctx& c)
{
	T v = genNonZero<T>(c);
	return c.chance(1, 3) ? v / T(128) : v;
}

// deviations at rounding level are within the tolerance of the questions that have one
template <typename T> static void rounding(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 6);
	unsigned kind = c.below(4);
	RM<T> a(n, n);
	if (kind < 2) {
		RM<T> x = genSparse<T>(c, n, n);
		a       = rlin(x, T(1), rtc(x), T(kind == 0 ? 1 : -1));
	} else
		a = reye<T>(n);
	if (kind == 3)
		for (size_t i = 0; i < n; ++i)
			a(i, i) = genNonZero<T>(c);
	unsigned dev = c.range(1, 3);
	for (unsigned k = 0; k < dev; ++k)
		a(c.below(n), c.below(n)) += T(1e-9) * genNonZero<T>(c);
	if (n >= 2)
		c.nontrivial();
	DESC("structure " << kind << " up to rounding: " << a);
	CrsMatrix<T> m;
	pushBuild(m, a, c, c.flip());
	Matrix<T> d = toLib(a);
	if (kind == 0) {
		CHECK(isHermitian(m), "sparse: rounding makes it not hermitian");
		CHECK(isHermitian(d), "dense: rounding makes it not hermitian");
	} else if (kind == 1) {
		CHECK(isAntiHermitian(m), "sparse: rounding makes it not antihermitian");
		CHECK(isAntiHermitian(d), "dense: rounding makes it not antihermitian");
	} else if (kind == 2) {
		CHECK(isTheIdentity(m), "sparse: rounding makes it not the identity");
		CHECK(PsimagLite::isTheIdentity(d), "dense: rounding makes it not the identity");
		CHECK(isDiagonal(m), "sparse: rounding makes it not diagonal");
	} else
		CHECK(isDiagonal(m), "sparse: rounding makes it not diagonal");
}

template <typename T> static void questions(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 7);
	RM<T>  a(n, n);
	unsigned kind = c.below(7);
	switch (kind) {
	case 0: // hermitian
	case 1: { // antihermitian
		RM<T> x = genSparse<T>(c, n, n);
		a       = rlin(x, T(1), rtc(x), T(kind == 0 ? 1 : -1));
		break;
	}
	case 2: // diagonal
		for (size_t i = 0; i < n; ++i)
			a(i, i) = Gen<T>::any(c);
		break;
	case 3: // identity
		a = reye<T>(n);
		break;
	case 4: // zero
		break;
	case 5:
		a = genSparse<T>(c, n, n);
		break;
	case 6:
		a = genSparse<T>(c, n, genDim(c, 1, 7));
		if (c.chance(1, 4)) // ones and zeros as in the identity
			for (size_t i = 0; i < a.r; ++i)
				for (size_t j = 0; j < a.c; ++j)
					a(i, j) = T(i == j);
		break;
	}
	unsigned dev = c.weighted({ 3, 4, 2 });
	RM<T>    before = a;
	for (unsigned k = 0; k < dev; ++k) {
		size_t i = c.below(a.r), j = c.below(a.c);
		if (c.chance(1, 4))
			a(i, j) = T(0);
		else
			a(i, j) += bump<T>(c);
	}
	if (a.r >= 2 && nnz(a) > 0)
		c.nontrivial();
	c.label(dev == 0 ? "structure kept" : (dev == 1 ? "one element deviates" : "two elements deviate"));
	bool   sq   = a.r == a.c;
	bool   herm = refHerm(a, 1), anti = refHerm(a, -1), diag = sq, id = sq, zero = nnz(a) == 0;
	for (size_t i = 0; i < a.r && sq; ++i)
		for (size_t j = 0; j < a.c; ++j) {
			if (i != j && a(i, j) != T(0))
				diag = id = false;
			if (i == j && a(i, j) != T(1))
				id = false;
		}
	DESC("matrix " << a << " hermitian " << herm << " antihermitian " << anti << " diagonal " << diag << " identity " << id << " zero " << zero);
	c.labelIf(herm, "hermitian");
	c.labelIf(anti, "antihermitian");
	c.labelIf(id, "identity");
	c.labelIf(diag, "diagonal");
	// sparse
	CrsMatrix<T> m;
	bool ez = c.flip();
	pushBuild(m, a, c, ez);
	CHECK(isHermitian(m) == herm, "sparse hermitian question on " << a);
	CHECK(isAntiHermitian(m) == anti, "sparse antihermitian question on " << a);
	CHECK(isDiagonal(m) == diag, "sparse diagonal question on " << a);
	CHECK(isTheIdentity(m) == id, "sparse identity question on " << a);
	CHECK(isZero(m) == zero, "sparse zero question on " << a);
	CHECK(isZero(m, 1e3) == true, "sparse zero question with a large tolerance");
	// dense
	Matrix<T> d = toLib(a);
	CHECK(isZero(d) == zero, "dense zero question on " << a);
	CHECK(PsimagLite::isTheIdentity(d) == id, "dense identity question on " << a);
	if (sq) {
		CHECK(isHermitian(d) == herm, "dense hermitian question on " << a);
		CHECK(isAntiHermitian(d) == anti, "dense antihermitian question on " << a);
		CHECK(isHermitian(d, true) == herm, "dense hermitian question (verbose)");
	} else {
		CHECK(pbt::throws([&] { isHermitian(d); }), "hermitian question on a rectangular dense matrix is not refused");
	}
	// equality
	Matrix<T> b = toLib(before);
	CHECK((d == b) == (a == before), "dense equality of " << a << " and " << before);
	Matrix<T> d2 = toLib(a);
	CHECK(d == d2, "dense equality with an equal matrix");
	CrsMatrix<T> s1(d), s2(b), s3(d2);
	CHECK((s1 == s2) == (a == before), "sparse equality of " << a << " and " << before);
	CHECK(s1 == s3, "sparse equality with an equal matrix");
	if (a.r != a.c) { // same data, other shape
		RM<T> t(a.c, a.r);
		t.d = a.d;
		CHECK(!(toLib(t) == d), "dense equality ignores the shape");
		CHECK(!(CrsMatrix<T>(toLib(t)) == s1), "sparse equality ignores the shape");
	}
	{ // the same entries, and rows or columns of zeros besides
		size_t more = 1 + c.skew(0, 2);
		RM<T>  wide(a.r, a.c + more), tall(a.r + more, a.c);
		for (size_t i = 0; i < a.r; ++i)
			for (size_t j = 0; j < a.c; ++j)
				wide(i, j) = tall(i, j) = a(i, j);
		CrsMatrix<T> w(toLib(wide)), t(toLib(tall));
		CHECK(!(w == s1) && !(s1 == w), "sparse equality ignores columns of zeros");
		CHECK(!(t == s1) && !(s1 == t), "sparse equality ignores rows of zeros");
		CHECK(!(toLib(wide) == d) && !(d == toLib(tall)), "dense equality ignores rows or columns of zeros");
	}
	{ // zero within a tolerance, whatever the magnitude
		double mag = magnitude(c), top = 0, sum = 0;
		RM<T>  small = rscale(a, T(mag));
		for (size_t i = 0; i < small.d.size(); ++i) {
			top = std::max(top, static_cast<double>(std::abs(small.d[i])));
			sum += std::abs(small.d[i]) * std::abs(small.d[i]);
		}
		CrsMatrix<T> sm;
		pushBuild(sm, small, c, ez);
		CHECK(isZero(sm) == zero, "sparse zero question on " << small);
		CHECK(isZero(toLib(small)) == zero, "dense zero question on " << small);
		CHECK(isZero(sm, top), "sparse zero question with the largest element " << top << " as the tolerance on " << small);
		if (!zero)
			CHECK(!isZero(sm, top * (1 - 1e-6)), "sparse zero question with a tolerance below the largest element on " << small);
		if (sizeof(std::real(T(0))) == 8 || mag == 1)
			CHECK(std::abs(norm2(sm) - sum) <= 4e-7 * sum, "sum of squares " << norm2(sm) << " instead of " << sum);
	}
	CHECK(static_cast<size_t>(d.nonZeros()) == nnz(a), "dense count of non-zeros");
	CHECK(readCrs(m, "operand afterwards") == a, "question modified its operand");
	CHECK(fromLib(d) == a, "question modified its operand");
}

PROP(real, 3) { questions<double>(c); }
PROP(complex, 3) { questions<Cd>(c); }
PROP(rounding_real, 1) { rounding<double>(c); }
PROP(rounding_complex, 1) { rounding<Cd>(c); }
PROP(long_rows, 1)
{
	if (!c.chance(1, 100))
		return questions<double>(c);
	LongDims dims(c.flip() ? 300 : 70);
	c.label("long rows or columns");
	questions<Cd>(c);
}
PROP(single, 1) { questions<float>(c); }
PBT_MAIN
