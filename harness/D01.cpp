// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-QUICK: 1500000
// PBT-THOROUGH: 36000000
// PBT-RULE: a case evaluates a sequence of matrix or vector operations and deferred expressions on generated dense operands (shapes 0..7, rectangular, aliased destinations) and compares exactly
// PBT-RULE: with element-wise definitions on dyadic values; non-trivial = operands with at least four elements
#include "MatrixNonOwned.h"
#include "sparse.h"

template <typename T> static void same(const Matrix<T>& m, const RM<T>& a, const char* what)
{
	CHECK(m.rows() == a.r && m.cols() == a.c,
	      what << ": shape " << m.rows() << "x" << m.cols() << " instead of " << a.r << "x" << a.c);
	RM<T> x = fromLib(m);
	CHECK(x == a, what << ": " << x << " instead of " << a);
}

template <typename T> static Matrix<T> target(pbt::Ctx& c, size_t r, size_t cc)
{
	// fresh, or a used object of the same shape
	if (c.flip())
		return Matrix<T>();
	return toLib(genDense<T>(c, r, cc));
}

// ------------------------------------------------------------ construction and reshaping
template <typename T> static void construct(pbt::Ctx& c)
{
	size_t r = genDim(c, 0, 7), cc = r ? genDim(c, 1, 7) : 0;
	RM<T>  a = genDense<T>(c, r, cc);
	DESC("construct " << a);
	if (a.d.size() >= 4)
		c.nontrivial();
	std::vector<T> cm;
	for (size_t j = 0; j < cc; ++j)
		for (size_t i = 0; i < r; ++i)
			cm.push_back(a(i, j));
	size_t extra = c.below(3);
	for (size_t k = 0; k < extra; ++k)
		cm.push_back(T(7));
	Matrix<T> m(cm, r, cc);
	same(m, a, "from column-major data");
	if (r * cc > 0) {
		std::vector<T> tooShort(r * cc - 1);
		CHECK(pbt::throws([&] { Matrix<T> z(tooShort, r, cc); }), "too little data accepted");
	}
	CHECK(m.data() == std::vector<T>(cm.begin(), cm.begin() + r * cc), "data() is not the column-major content");
	CHECK(m.nonZeros() == nnz(a), "count of non-zeros");
	Matrix<T> z(r, cc);
	same(z, RM<T>(r, cc), "default content");
	T v = Gen<T>::any(c);
	Matrix<T> f(r, cc, v);
	RM<T> fr(r, cc);
	for (auto& x : fr.d)
		x = v;
	same(f, fr, "constant content");
	f.setTo(T(2));
	for (auto& x : fr.d)
		x = T(2);
	same(f, fr, "setTo");
	if (r == cc) {
		f.setToIdentity();
		same(f, reye<T>(r), "setToIdentity");
	} else
		CHECK(pbt::throws([&] { f.setToIdentity(); }), "identity of a rectangular matrix");
	// copy, swap, clear
	Matrix<T> cp(m);
	Matrix<T> other = toLib(genDense<T>(c, genDim(c, 1, 5), genDim(c, 1, 5)));
	RM<T>     oref  = fromLib(other);
	cp.swap(other);
	same(cp, oref, "swap");
	same(other, a, "swap");
	cp.clear();
	same(cp, RM<T>(), "clear");
	same(m, a, "source of a copy");
	// resize
	if (r > 0) {
		size_t nc = genDim(c, 1, 9);
		RM<T>  rr(r, nc);
		for (size_t i = 0; i < r; ++i)
			for (size_t j = 0; j < std::min(cc, nc); ++j)
				rr(i, j) = a(i, j);
		m.resize(r, nc);
		same(m, rr, "changing the number of columns");
		CHECK(pbt::throws([&] { m.resize(r + 1, nc); }), "changing a non-zero number of rows");
		same(m, rr, "refused reshape");
	}
	Matrix<T> e;
	e.resize(r, cc, v);
	RM<T> er(r, cc);
	for (auto& x : er.d)
		x = v;
	same(e, er, "resize with value");
	if (r > 0) {
		// more columns: those there were stay, the new ones get the value
		size_t    more = cc + genDim(c, 0, 4);
		T         w = c.flip() ? T(0) : Gen<T>::any(c);
		Matrix<T> g(toLib(a));
		g.resize(r, more, w);
		RM<T> gr(r, more);
		for (size_t i = 0; i < r; ++i)
			for (size_t j = 0; j < more; ++j)
				gr(i, j) = j < cc ? a(i, j) : w;
		same(g, gr, "more columns, filled with a value");
		if (cc > 0) {
			size_t i0 = c.below(r), j0 = c.below(cc);
			g.setTo(g(i0, j0));
			for (auto& x : gr.d)
				x = a(i0, j0);
			same(g, gr, "setTo an element of its own");
		}
	}
}

// ------------------------------------------------------------ expressions
template <typename T> static void expressions(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 6), cc = c.flip() ? r : genDim(c, 1, 6);
	RM<T>  a = genDense<T>(c, r, cc), b = genDense<T>(c, r, cc);
	Matrix<T> A = toLib(a), B = toLib(b);
	T f = Gen<T>::any(c);
	unsigned op = c.below(13);
	unsigned alias = c.below(3); // destination: fresh/used, A, B
	c.labelIf(alias > 0, "destination is an operand");
	c.labelIf(r != cc, "rectangular");
	if (a.d.size() >= 4)
		c.nontrivial();
	DESC("expression " << op << " alias " << alias << " f=" << f << " a=" << a << " b=" << b);
	Matrix<T> Z = target<T>(c, r, cc);
	if ((op == 9 || op == 10) && r != cc)
		op = 0;
	Matrix<T>& D = (alias == 1) ? A : (alias == 2 ? B : Z);
	RM<T> zero(r, cc), ref;
	switch (op) {
	case 0:
		D   = A + B;
		ref = rlin(a, T(1), b, T(1));
		break;
	case 1:
		D   = A - B;
		ref = rlin(a, T(1), b, T(-1));
		break;
	case 2:
		D   = f * A;
		ref = rscale(a, f);
		break;
	case 3:
		D   = A * f;
		ref = rscale(a, f);
		break;
	case 4:
		D   = f * (A + B);
		ref = rscale(rlin(a, T(1), b, T(1)), f);
		break;
	case 5:
		D   = f * (A - B);
		ref = rscale(rlin(a, T(1), b, T(-1)), f);
		break;
	case 6:
		D   = A + f * B;
		ref = rlin(a, T(1), b, f);
		break;
	case 7:
		D   = f * A + B;
		ref = rlin(a, f, b, T(1));
		break;
	case 8: { // accumulate a multiple
		RM<T> old = (alias == 1) ? a : (alias == 2 ? b : (Z.rows() ? fromLib(Z) : zero));
		if (c.flip())
			D += f * A;
		else
			D += A * f;
		ref = rlin(old, T(1), a, f);
		break;
	}
	case 9:
		D   = A * B;
		ref = rmul(a, b);
		break;
	case 10:
		D   = f * A * B;
		ref = rscale(rmul(a, b), f);
		break;
	case 11: {
		if (Z.rows() == 0 && alias == 0)
			Z = toLib(zero);
		RM<T> old = fromLib(D);
		D += A;
		ref = rlin(old, T(1), a, T(1));
		break;
	}
	case 12: {
		if (Z.rows() == 0 && alias == 0)
			Z = toLib(zero);
		RM<T> old = fromLib(D);
		D -= B;
		ref = rlin(old, T(1), b, T(-1));
		break;
	}
	}
	same(D, ref, "expression");
	if (alias != 1)
		same(A, a, "operand a afterwards");
	if (alias != 2)
		same(B, b, "operand b afterwards");
	if (alias == 0) {
		D *= f;
		same(D, rscale(ref, f), "*= scalar");
	}
}

template <typename T> static void product(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 6), k = genDim(c, 1, 6), m = genDim(c, 1, 6);
	RM<T>  a = genDense<T>(c, n, k), b = genDense<T>(c, k, m);
	DESC("product " << a << " " << b);
	if (a.d.size() >= 4 && b.d.size() >= 4)
		c.nontrivial();
	Matrix<T> A = toLib(a), B = toLib(b);
	Matrix<T> X(A * B);
	same(X, rmul(a, b), "product (construction)");
	Matrix<T> Y;
	Y = A * B;
	same(Y, rmul(a, b), "product (assignment)");
	if (n == k) {
		Matrix<T> Bc = B;
		Bc = A * Bc;
		same(Bc, rmul(a, b), "b = a*b");
	}
	if (k == m) {
		Matrix<T> Ac = A;
		Ac = Ac * B;
		same(Ac, rmul(a, b), "a = a*b");
	}
	std::vector<T> v(k), w(n);
	for (auto& x : v)
		x = Gen<T>::any(c);
	for (auto& x : w)
		x = Gen<T>::any(c);
	std::vector<T> rv(n, T(0)), rw(k, T(0));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < k; ++j) {
			rv[i] += a(i, j) * v[j];
			rw[j] += w[i] * a(i, j);
		}
	std::vector<T> o(c.below(9));
	o <= A * v;
	CHECK(o == rv, "matrix times vector");
	std::vector<T> o2(c.below(9));
	o2 <= w * A;
	CHECK(o2 == rw, "vector times matrix");
}

template <typename T> static void shapes(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 6), cc = genDim(c, 1, 6);
	RM<T>  a = genDense<T>(c, r, cc);
	DESC("transpose etc of " << a);
	if (a.d.size() >= 4)
		c.nontrivial();
	Matrix<T> A = toLib(a);
	RM<T> t(cc, r), cj_ = a;
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < cc; ++j)
			t(j, i) = a(i, j);
	for (auto& v : cj_.d)
		v = cj(v);
	Matrix<T> X = target<T>(c, cc, r), Y = target<T>(c, cc, r);
	transpose(X, A);
	same(X, t, "transpose");
	transposeConjugate(Y, A);
	same(Y, rtc(a), "conjugate transpose");
	same(PsimagLite::transposeConjugate(A), rtc(a), "conjugate transpose (returned)");
	same(A, a, "operand afterwards");
	Matrix<T> Z(A);
	Z.conjugate();
	same(Z, cj_, "conjugate");
	double n2 = 0;
	for (auto& v : a.d)
		n2 += std::norm(v);
	CHECK(PsimagLite::norm2(A) == n2, "squared norm " << PsimagLite::norm2(A) << " instead of " << n2);
	// outer product
	RM<T> b = genDense<T>(c, genDim(c, 1, 4), genDim(c, 1, 4));
	RM<T> o(r * b.r, cc * b.c);
	for (size_t i1 = 0; i1 < r; ++i1)
		for (size_t j1 = 0; j1 < cc; ++j1)
			for (size_t i2 = 0; i2 < b.r; ++i2)
				for (size_t j2 = 0; j2 < b.c; ++j2)
					o(i1 + i2 * r, j1 + j2 * cc) = a(i1, j1) * b(i2, j2);
	Matrix<T> O = target<T>(c, o.r, o.c);
	outerProduct(O, A, toLib(b));
	same(O, o, "outer product");
	// change of basis m := t^+ m t
	size_t k = genDim(c, 1, 6);
	RM<T>  m = genDense<T>(c, r, r), tr = genDense<T>(c, r, k);
	Matrix<T> M = toLib(m), TR = toLib(tr);
	rotate(M, TR);
	same(M, rmul(rmul(rtc(tr), m), tr), "change of basis");
	same(TR, tr, "transformation afterwards");
	// square adjoint product
	RM<T> p = genDense<T>(c, r, r), q = genDense<T>(c, r, r);
	same(multiplyTransposeConjugate(toLib(p), toLib(q)), rmul(rtc(p), q), "adjoint times matrix");
	RM<T> pt(r, r);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < r; ++j)
			pt(i, j) = p(j, i);
	same(multiplyTransposeConjugate(toLib(p), toLib(q), 'N'), rmul(pt, q), "transpose times matrix");
}

static void realToComplex(pbt::Ctx& c)
{
	RM<double> a = genDense<double>(c, genDim(c, 0, 6), genDim(c, 1, 6));
	if (a.d.size() >= 4)
		c.nontrivial();
	RM<Cd> b(a.r, a.c);
	for (size_t i = 0; i < a.d.size(); ++i)
		b.d[i] = a.d[i];
	Matrix<double> A = toLib(a);
	Matrix<Cd> B(A);
	same(B, b, "complex from real");
}

template <typename T> static void views(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 5), cc = genDim(c, 1, 5), off = c.below(6), tail = c.below(6);
	std::vector<T> data(off + r * cc + tail);
	for (auto& v : data)
		v = Gen<T>::any(c);
	std::vector<T> ref = data;
	DESC("view " << r << "x" << cc << " at " << off);
	if (r * cc >= 4)
		c.nontrivial();
	PsimagLite::MatrixNonOwned<const T> v(r, cc, data, off);
	PsimagLite::MatrixNonOwned<T>       w(r, cc, data, off);
	for (unsigned s = 0; s < 6; ++s) {
		size_t i = c.below(r), j = c.below(cc);
		T      x = Gen<T>::any(c);
		w(i, j)  = x;
		ref[off + i + j * r] = x;
		CHECK(v(i, j) == x, "element read through a view");
		CHECK(w.getVector() == ref && data == ref, "view wrote elsewhere");
	}
	Matrix<T> m = toLib(genDense<T>(c, r, cc));
	RM<T>     mr = fromLib(m);
	PsimagLite::MatrixNonOwned<T> u(m);
	const Matrix<T>& cm = m;
	PsimagLite::MatrixNonOwned<const T> cu(cm);
	size_t i = c.below(r), j = c.below(cc);
	u(i, j) = T(5);
	mr(i, j) = T(5);
	same(m, mr, "matrix written through a view");
	for (i = 0; i < r; ++i)
		for (j = 0; j < cc; ++j)
			CHECK(cu(i, j) == mr(i, j), "matrix read through a view");
}

// ------------------------------------------------------------ vectors
template <typename T> static std::vector<T> genVec(pbt::Ctx& c, size_t n)
{
	std::vector<T> v(n);
	for (auto& x : v)
		x = Gen<T>::any(c);
	return v;
}

template <typename T> static void vectors(pbt::Ctx& c)
{
	size_t n = genDim(c, 0, 12);
	typedef std::vector<T> V;
	V a = genVec<T>(c, n), b = genVec<T>(c, n), k3 = genVec<T>(c, n), k4 = genVec<T>(c, n);
	V a0 = a, b0 = b;
	T f = Gen<T>::any(c), g = Gen<T>::any(c), h = Gen<T>::any(c), e = Gen<T>::any(c);
	V z = genVec<T>(c, c.below(14));
	unsigned alias = c.below(3);
	V& d = alias == 1 ? a : (alias == 2 ? b : z);
	if (n >= 4)
		c.nontrivial();
	c.labelIf(alias > 0, "destination is an operand");
	unsigned op = c.below(18);
	DESC("vector op " << op << " n=" << n << " alias " << alias);
	V ref(n);
	auto each = [&](std::function<T(size_t)> fn) {
		for (size_t i = 0; i < n; ++i)
			ref[i] = fn(i);
	};
	V d0 = d;
	switch (op) {
	case 0:
		d <= a + b;
		each([&](size_t i) { return a0[i] + b0[i]; });
		break;
	case 1:
		d <= a - b;
		each([&](size_t i) { return a0[i] - b0[i]; });
		break;
	case 2:
		d <= f * a;
		each([&](size_t i) { return f * a0[i]; });
		break;
	case 3:
		d <= a * f;
		each([&](size_t i) { return f * a0[i]; });
		break;
	case 4:
		d <= f * (g * a);
		each([&](size_t i) { return a0[i] * (f * g); });
		break;
	case 5:
		d <= a + f * b;
		each([&](size_t i) { return a0[i] + f * b0[i]; });
		break;
	case 6:
		d <= f * a + b;
		each([&](size_t i) { return f * a0[i] + b0[i]; });
		break;
	case 7:
		d <= f * (a + b);
		each([&](size_t i) { return f * (a0[i] + b0[i]); });
		break;
	case 8:
		d <= f * (a - b);
		each([&](size_t i) { return f * (a0[i] - b0[i]); });
		break;
	case 9:
		d <= a - f * b;
		each([&](size_t i) { return a0[i] - f * b0[i]; });
		break;
	case 10:
		d <= f * a + g * b + h * k3 + e * k4;
		each([&](size_t i) { return f * a0[i] + g * b0[i] + h * k3[i] + e * k4[i]; });
		break;
	case 11:
		d <= a - f * b + g * k3;
		each([&](size_t i) { return a0[i] - f * b0[i] + g * k3[i]; });
		break;
	case 12:
		if (alias == 0)
			z = d0 = k3;
		d += a;
		each([&](size_t i) { return d0[i] + a0[i]; });
		break;
	case 13:
		if (alias == 0)
			z = d0 = k3;
		d -= b;
		each([&](size_t i) { return d0[i] - b0[i]; });
		break;
	case 14:
		if (alias == 0)
			z = d0 = k3;
		d += f * a;
		each([&](size_t i) { return d0[i] + f * a0[i]; });
		break;
	case 15:
		if (alias == 0)
			z = d0 = k3;
		d -= f * b;
		each([&](size_t i) { return d0[i] - f * b0[i]; });
		break;
	case 16:
		if (alias == 0)
			z = d0 = k3;
		d *= f;
		each([&](size_t i) { return d0[i] * f; });
		break;
	case 17:
		if (alias == 0)
			z = d0 = k3;
		d /= T(4);
		each([&](size_t i) { return d0[i] / T(4); });
		break;
	}
	CHECK(d == ref, "vector operation " << op << " (alias " << alias << ") is wrong");
	if (alias != 1)
		CHECK(a == a0, "operand a modified");
	if (alias != 2)
		CHECK(b == b0, "operand b modified");
}

template <typename T> static void vectorReductions(pbt::Ctx& c)
{
	size_t n = genDim(c, 0, 12);
	std::vector<T> a = genVec<T>(c, n), b = genVec<T>(c, n);
	DESC("reductions n=" << n);
	if (n >= 4)
		c.nontrivial();
	T ip = T(0), sp = T(0), s = T(0);
	double n2 = 0;
	for (size_t i = 0; i < n; ++i) {
		ip += a[i] * cj(b[i]);
		sp += cj(a[i]) * b[i];
		s += a[i];
		n2 += std::norm(a[i]);
	}
	CHECK(a * b == ip, "inner product " << a * b << " instead of " << ip);
	CHECK(scalarProduct(a, b) == sp, "scalar product");
	CHECK(PsimagLite::sum(a) == s, "sum of elements");
	double nn = std::abs(PsimagLite::norm(a));
	CHECK(std::fabs(nn - std::sqrt(n2)) <= 1e-12 * (1 + nn), "norm " << nn << " of squared norm " << n2);
	std::vector<T> shorter = a;
	shorter.push_back(T(1));
	CHECK(pbt::throws([&] { (void)(a * shorter); }), "inner product of different sizes");
	CHECK(pbt::throws([&] { (void)scalarProduct(shorter, a); }), "scalar product of different sizes");
	T   x = Gen<T>::any(c);
	int where = -1;
	for (size_t i = n; i-- > 0;)
		if (a[i] == x)
			where = i;
	CHECK(PsimagLite::indexOrMinusOne(a, x) == where, "index of an element");
	// rows given as vectors
	size_t m = n ? c.range(1, n) : 0;
	std::vector<std::vector<T>> rows(n);
	for (auto& r : rows)
		r = genVec<T>(c, n);
	std::vector<T> y = rows * b, ry(n, T(0));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			ry[i] += rows[i][j] * b[j];
	(void)m;
	CHECK(y == ry, "list of rows times vector");
}

#define BOTH(name, w)                                                                               \
	PROP(name##_real, w) { name<double>(c); }                                                   \
	PROP(name##_complex, w) { name<Cd>(c); }
BOTH(construct, 1)
BOTH(expressions, 4)
BOTH(product, 1)
BOTH(shapes, 1)
BOTH(views, 1)
BOTH(vectors, 4)
BOTH(vectorReductions, 1)
// hundreds of rows or columns
PROP(long_rows, 1)
{
	if (!c.chance(1, 60))
		return shapes<float>(c);
	LongDims dims(c.flip() ? 300 : 70);
	c.label("long rows or columns");
	switch (c.below(7)) {
	case 0: return construct<double>(c);
	case 1: return expressions<Cd>(c);
	case 2: return product<double>(c);
	case 3: return shapes<Cd>(c);
	case 4: return views<double>(c);
	case 5: return vectors<double>(c);
	default: return vectorReductions<Cd>(c);
	}
}
PROP(expressions_int, 1) { expressions<int>(c); }
PROP(construct_int, 1) { construct<int>(c); }
PROP(real_to_complex, 1) { realToComplex(c); }
PBT_MAIN
