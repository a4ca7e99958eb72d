// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 1000000
// PBT-THOROUGH: 24000000
// PBT-RULE: a case applies one algebraic operation to generated sparse operands (shapes 1..7, any density, unordered columns, explicit zeros, used targets, aliasing) and compares exactly
// PBT-RULE: with dense textbook arithmetic on dyadic values; non-trivial = every operand has at least two stored entries
#include "sparse.h"
using PsimagLite::multiply;

template <typename T> static CrsMatrix<T> mk(pbt::Ctx& c, const RM<T>& a)
{
	CrsMatrix<T> m;
	if (a.r == 0)
		return m;
	pushBuild(m, a, c, c.chance(1, 5));
	return m;
}

// a target object that may hold something already
template <typename T> static CrsMatrix<T> target(pbt::Ctx& c)
{
	CrsMatrix<T> m;
	if (c.flip())
		pushBuild(m, genSparse<T>(c, genDim(c, 1, 5), genDim(c, 1, 5)), c);
	return m;
}

template <typename T> static void same(const CrsMatrix<T>& m, const RM<T>& a, const char* what)
{
	CHECK(m.rows() == a.r && m.cols() == a.c,
	      what << ": shape " << m.rows() << "x" << m.cols() << " instead of " << a.r << "x" << a.c);
	RM<T> x = readCrs(m, what);
	CHECK(x == a, what << ": result " << x << " instead of " << a);
}

template <typename T> static void big(pbt::Ctx& c, const RM<T>& a)
{
	if (nnz(a) >= 2)
		c.nontrivial();
}

template <typename T> static void big(pbt::Ctx& c, const RM<T>& a, const RM<T>& b)
{
	c.labelIf(a.r != a.c || b.r != b.c, "rectangular");
	c.labelIf(emptyRows(a) + emptyRows(b) > 0, "empty rows");
	if (nnz(a) >= 2 && nnz(b) >= 2)
		c.nontrivial();
}

template <typename T> static void product(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 7), k = genDim(c, 1, 7), m = genDim(c, 1, 7);
	RM<T>  a = rscale(genSparse<T>(c, n, k), T(magnitude(c))), b = rscale(genSparse<T>(c, k, m), T(magnitude(c)));
	DESC("product of " << a << " and " << b);
	big(c, a, b);
	CrsMatrix<T> x = mk(c, a), y = mk(c, b);
	CrsMatrix<T> z = target<T>(c);
	multiply(z, x, y);
	RM<T> r = rmul(a, b);
	same(z, r, "multiply");
	CrsMatrix<T> z2 = x * y;
	same(z2, r, "lazy product (construction)");
	CrsMatrix<T> z3 = target<T>(c);
	z3 = x * y;
	same(z3, r, "lazy product (assignment)");
	same(x, a, "left operand afterwards");
	same(y, b, "right operand afterwards");
	if (n == k && k == m) {
		CrsMatrix<T> w = x;
		w = w * y;
		same(w, r, "x = x*y");
		CrsMatrix<T> v = y;
		v = x * v;
		same(v, r, "y = x*y");
		c.label("assigned to an operand");
	}
	RM<T> full = fromLib(multiplyTc(x, CrsMatrix<T>(toLib(rtc(b)))));
	CHECK(full == r, "product with adjoint: " << full << " instead of " << r);
}

static void mixedProduct(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 6), k = genDim(c, 1, 6), m = genDim(c, 1, 6);
	RM<double> a = genSparse<double>(c, n, k);
	RM<Cd>     b = genSparse<Cd>(c, k, m), ac(n, k);
	for (size_t i = 0; i < a.d.size(); ++i)
		ac.d[i] = a.d[i];
	DESC("mixed product of " << a << " and " << b);
	big(c, ac, b);
	CrsMatrix<double> x = mk(c, a);
	CrsMatrix<Cd>     y = mk(c, b), z;
	multiply(z, x, y);
	same(z, rmul(ac, b), "real times complex");
}

template <typename T> static void sums(pbt::Ctx& c)
{
	size_t r1 = genDim(c, 1, 7), c1 = genDim(c, 1, 7);
	bool   smaller = c.chance(1, 3);
	size_t r2 = smaller ? c.range(1, r1) : r1, c2 = smaller ? c.range(1, c1) : c1;
	RM<T>  a = genSparse<T>(c, r1, c1), b = genSparse<T>(c, r2, c2);
	if (!smaller && c.chance(1, 4)) { // cancellation
		b = a;
		c.label("cancelling sum");
	}
	double mag = magnitude(c);
	a          = rscale(a, T(mag));
	b          = rscale(b, T(c.chance(1, 8) ? mag / (1 << 22) : mag));
	T f = Gen<T>::any(c), g = c.chance(1, 4) ? -f : Gen<T>::any(c);
	DESC("sum " << f << "*" << a << " + " << g << "*" << b);
	big(c, a, b);
	CrsMatrix<T> x = mk(c, a), y = mk(c, b), z = target<T>(c);
	operatorPlus(z, x, f, y, g);
	same(z, rlin(a, f, b, g), "scaled sum");
	same(x, a, "left operand afterwards");
	same(y, b, "right operand afterwards");
}

template <typename T> static void manySums(pbt::Ctx& c)
{
	size_t n = c.rare(1, 5, 30, 200);
	std::vector<CrsMatrix<T>> store(n);
	std::vector<const CrsMatrix<T>*> ptrs;
	std::vector<T> f;
	RM<T> ref;
	size_t r = genDim(c, 1, 6), cc = genDim(c, 1, 6);
	bool vary = c.chance(1, 4);
	size_t big2 = 0;
	double mag  = magnitude(c);
	DESC("sum of");
	for (size_t i = 0; i < n; ++i) {
		RM<T> a = genSparse<T>(c, vary ? genDim(c, 1, 6) : r, vary ? genDim(c, 1, 6) : cc);
		T     g = Gen<T>::any(c);
		a        = rscale(a, T(c.chance(1, 12) ? mag / (1 << 22) : mag));
		store[i] = mk(c, a);
		f.push_back(g);
		ref = (i == 0) ? rscale(a, g) : rlin(ref, T(1), a, g);
		big2 += nnz(a) >= 2;
		DESC(" " << g << "*" << a);
	}
	for (auto& s : store)
		ptrs.push_back(&s);
	if (big2 >= 2)
		c.nontrivial();
	CrsMatrix<T> z = target<T>(c);
	PsimagLite::sum(z, ptrs, f);
	same(z, ref, "weighted sum of a list");
}

template <typename T> static void accumulate(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 6);
	RM<T>  acc;
	CrsMatrix<T> x;
	if (c.chance(2, 3)) {
		acc = genSparse<T>(c, n, n);
		x   = mk(c, acc);
	} else
		c.label("accumulating into an empty matrix");
	RM<T> a = genSparse<T>(c, n, n), b = genSparse<T>(c, n, n);
	CrsMatrix<T> y = mk(c, a), z = mk(c, b);
	DESC("start " << acc << " a=" << a << " b=" << b << ":");
	big(c, a, b);
	unsigned steps = c.range(1, 4);
	typedef typename PsimagLite::Real<T>::Type R;
	for (unsigned s = 0; s < steps; ++s) {
		T f = Gen<T>::any(c);
		R g = genReal(c);
		switch (c.below(9)) {
		case 0:
			DESC(" +=a");
			x += y;
			acc = rlin(acc, T(1), a, T(1));
			break;
		case 1:
			DESC(" +=" << f << "*a");
			x += f * y;
			acc = rlin(acc, T(1), a, f);
			break;
		case 2:
			DESC(" +=" << g << "*b(real)");
			x += g * z;
			acc = rlin(acc, T(1), b, T(g));
			break;
		case 3:
			DESC(" +=" << f << "*a*b");
			x += f * y * z;
			acc = rlin(acc, T(1), rmul(a, b), f);
			break;
		case 4:
			DESC(" =" << f << "*a");
			x = f * y;
			acc = rscale(a, f);
			break;
		case 5:
			if (acc.r == 0)
				break;
			DESC(" +=self");
			x += x;
			acc = rlin(acc, T(1), acc, T(1));
			break;
		case 6:
			if (acc.r == 0)
				break;
			DESC(" +=" << f << "*self");
			x += f * x;
			acc = rlin(acc, T(1), acc, f);
			break;
		case 7:
			DESC(" =" << f << "*self");
			x = f * x;
			acc = rscale(acc, f);
			break;
		case 8:
			if (acc.r == 0)
				break;
			DESC(" =self*b");
			x = x * z;
			acc = rmul(acc, b);
			break;
		}
		same(x, acc, "accumulated value");
	}
	same(y, a, "operand a afterwards");
	same(z, b, "operand b afterwards");
	{
		T f = Gen<T>::any(c);
		CrsMatrix<T> q(f * y);
		same(q, rscale(a, f), "constructed from scaled");
	}
}

template <typename T> static void adjoint(pbt::Ctx& c)
{
	RM<T> a = genSparse<T>(c, genDim(c, 1, 8), genDim(c, 1, 8));
	a       = rscale(a, T(magnitude(c)));
	DESC("adjoint of " << a);
	big(c, a);
	CrsMatrix<T> x = mk(c, a), z = target<T>(c);
	transposeConjugate(z, x);
	same(z, rtc(a), "conjugate transpose");
	same(x, a, "operand afterwards");
	CrsMatrix<T> w;
	transposeConjugate(w, z);
	same(w, a, "adjoint of the adjoint");
	double ref = 0;
	for (auto& v : a.d)
		ref += std::norm(v);
	CHECK(norm2(x) == ref, "squared norm " << norm2(x) << " instead of " << ref);
	x.conjugate();
	RM<T> cc = a;
	for (auto& v : cc.d)
		v = cj(v);
	same(x, cc, "conjugate");
}

template <typename T> static void matvec(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 8), cc = c.flip() ? r : genDim(c, 1, 8);
	double mag = magnitude(c);
	RM<T>  a   = rscale(genSparse<T>(c, r, cc), T(mag));
	std::vector<T> y(cc), x0(r), ref(r, T(0));
	for (auto& v : y)
		v = Gen<T>::any(c);
	for (auto& v : x0)
		v = Gen<T>::any(c) * T(mag);
	DESC("matrix-vector " << a);
	big(c, a);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < cc; ++j)
			ref[i] += a(i, j) * y[j];
	CrsMatrix<T> m = mk(c, a);
	std::vector<T> out = x0;
	std::vector<T> ycopy = y;
	PsimagLite::multiply<T>(out, m, y);
	CHECK(out == ref, "matrix times vector is wrong");
	CHECK(y == ycopy, "vector operand modified");
	if (r == cc) {
		c.label("accumulating matrix-vector");
		std::vector<T> x = x0;
		m.matrixVectorProduct(x, y);
		for (size_t i = 0; i < r; ++i)
			CHECK(x[i] == x0[i] + ref[i], "accumulating product differs in element " << i);
	}
	same(m, a, "operand afterwards");
}

static std::vector<size_t> genPerm(pbt::Ctx& c, size_t n)
{
	std::vector<size_t> p(n);
	for (size_t i = 0; i < n; ++i)
		p[i] = i;
	std::unique_ptr<pbt::Ctx::Bulk> bulk(n > 64 ? new pbt::Ctx::Bulk(c) : nullptr);
	if (c.chance(3, 4))
		for (size_t k = 1; k < n; ++k)
			std::swap(p[k], p[k - c.below(k + 1)]);
	return p;
}

template <typename T> static void kronEye(pbt::Ctx& c)
{
	size_t na = genDim(c, 1, 5), nout = genDim(c, 1, 5);
	RM<T>  a = rscale(genSparse<T>(c, na, na), T(magnitude(c)));
	bool   order = c.flip();
	std::vector<double> signs(nout);
	for (auto& s : signs)
		s = c.flip() ? -1 : 1;
	std::vector<size_t> p = genPerm(c, na * nout);
	DESC("external product with identity " << nout << " order " << order << " of " << a);
	if (nnz(a) >= 2 && nout > 1)
		c.nontrivial();
	RM<T> ref(na * nout, na * nout);
	for (size_t i = 0; i < na; ++i)
		for (size_t j = 0; j < na; ++j)
			for (size_t e = 0; e < nout; ++e) {
				if (order)
					ref(p[i + e * na], p[j + e * na]) = a(i, j);
				else
					ref(p[e + i * nout], p[e + j * nout]) = a(i, j) * signs[e];
			}
	CrsMatrix<T> x = mk(c, a), z = target<T>(c);
	externalProduct(z, x, nout, signs, order, p);
	same(z, ref, "external product with identity");
	same(x, a, "operand afterwards");
}

template <typename T> static void kron(pbt::Ctx& c)
{
	size_t na = genDim(c, 1, 5), nb = genDim(c, 1, 5);
	RM<T>  a = rscale(genSparse<T>(c, na, na), T(magnitude(c))), b = rscale(genSparse<T>(c, nb, nb), T(magnitude(c)));
	bool   order = c.flip();
	size_t nf = order ? na : nb;
	std::vector<double> signs(nf);
	for (auto& s : signs)
		s = c.flip() ? -1 : 1;
	std::vector<size_t> p = genPerm(c, na * nb);
	DESC("external product order " << order << " of " << a << " and " << b);
	big(c, a, b);
	const RM<T>& fast = order ? a : b;
	const RM<T>& slow = order ? b : a;
	RM<T> ref(na * nb, na * nb);
	for (size_t i1 = 0; i1 < fast.r; ++i1)
		for (size_t j1 = 0; j1 < slow.r; ++j1)
			for (size_t i2 = 0; i2 < fast.r; ++i2)
				for (size_t j2 = 0; j2 < slow.r; ++j2)
					ref(p[i1 + j1 * nf], p[i2 + j2 * nf]) = fast(i1, i2) * slow(j1, j2) * signs[i1];
	CrsMatrix<T> x = mk(c, a), y = mk(c, b), z = target<T>(c);
	externalProduct(z, x, y, signs, order, p);
	same(z, ref, "external product");
	same(x, a, "left operand afterwards");
	same(y, b, "right operand afterwards");
}

template <typename T> static void block(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 8);
	size_t r = c.range(1, n), off = c.range(0, n - r);
	RM<T>  b = rscale(genSparse<T>(c, r, r), T(magnitude(c))), ref(n, n);
	DESC("block at " << off << " of " << n << ": " << b);
	big(c, b);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < r; ++j)
			ref(i + off, j + off) = b(i, j);
	CrsMatrix<T> x = mk(c, b), full(n, n);
	if (c.flip())
		pushBuild(full, genSparse<T>(c, n, n), c);
	fromBlockToFull(full, x, off);
	same(full, ref, "block embedded in a larger matrix");
	same(x, b, "operand afterwards");
}

#define BOTH(name, w)                                                                               \
	PROP(name##_real, w) { name<double>(c); }                                                   \
	PROP(name##_complex, w) { name<Cd>(c); }
BOTH(product, 2)
BOTH(sums, 2)
BOTH(manySums, 1)
BOTH(accumulate, 2)
BOTH(adjoint, 1)
BOTH(matvec, 1)
BOTH(kronEye, 1)
BOTH(kron, 1)
BOTH(block, 1)
PROP(mixed_product, 1) { mixedProduct(c); }

// rows and columns of hundreds of entries
PROP(longRows, 1)
{
	if (!c.chance(1, 60))
		return product<double>(c);
	LongDims dims(c.flip() ? 300 : 70);
	c.label("long rows or columns");
	switch (c.below(7)) {
	case 0: return product<double>(c);
	case 1: return product<Cd>(c);
	case 2: return sums<double>(c);
	case 3: return manySums<Cd>(c);
	case 4: return accumulate<double>(c);
	case 5: return c.flip() ? adjoint<Cd>(c) : matvec<Cd>(c);
	default: return block<double>(c);
	}
}
PBT_MAIN
