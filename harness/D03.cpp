// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Concurrency.cpp Mpi.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-QUICK: 1500000
// PBT-THOROUGH: 40000000
// PBT-RULE: a case calls one dense kernel entry point (plain or multi-threaded GEMM, GEMV, SYMM, HEMM, SYRK, HERK, GER, AXPY, COPY, SCAL, DOT) with generated shapes (0..12), flags, leading dimensions, strides,
// PBT-RULE: scalars, block sizes and thread counts, and compares the whole output memory including padding and guards exactly with the reference definition; non-trivial = output of at least four elements (threaded: at least two blocks)
#include "GemmR.h"
#include "refmat.h"
typedef std::complex<double> Cd;
typedef std::complex<float>  Cf;
namespace B = psimag::BLAS;

static const size_t GUARD = 6;

template <typename T> struct Mem { // column-major block inside guarded memory
	std::vector<T> d;
	int            ld;
	int            r, c;
	Mem(pbt::Ctx& x, int rows, int cols)
	    : ld(std::max(1, rows) + static_cast<int>(x.chance(1, 2) ? x.below(4) : 0))
	    , r(rows)
	    , c(cols)
	{
		d.resize(2 * GUARD + static_cast<size_t>(ld) * std::max(1, cols));
		std::unique_ptr<pbt::Ctx::Bulk> bulk(rows * cols > 150 ? new pbt::Ctx::Bulk(x) : nullptr);
		for (auto& v : d)
			v = T(77);
		for (int j = 0; j < c; ++j)
			for (int i = 0; i < r; ++i)
				(*this)(i, j) = Gen<T>::any(x);
	}
	T&       operator()(int i, int j) { return d[GUARD + i + static_cast<size_t>(j) * ld]; }
	const T& operator()(int i, int j) const { return d[GUARD + i + static_cast<size_t>(j) * ld]; }
	T*       p() { return &d[GUARD]; }
};

template <typename T> struct Str { // strided vector in guarded memory
	std::vector<T> d;
	int            n, inc;
	Str(pbt::Ctx& x, int n_)
	    : n(n_)
	    , inc(x.chance(1, 3) ? x.range(2, 4) : 1)
	{
		d.assign(2 * GUARD + static_cast<size_t>(n) * inc, T(55));
		std::unique_ptr<pbt::Ctx::Bulk> bulk(n > 150 ? new pbt::Ctx::Bulk(x) : nullptr);
		for (int i = 0; i < n; ++i)
			(*this)(i) = Gen<T>::any(x);
	}
	T& operator()(int i) { return d[GUARD + static_cast<size_t>(i) * inc]; }
	T* p() { return &d[GUARD]; }
};

static char flagN(pbt::Ctx& c) { return c.pickOf({ 'N', 'T', 'C', 'n', 't', 'c' }); }
static bool isN(char f) { return f == 'N' || f == 'n'; }

template <typename T> static T op(const Mem<T>& a, char f, int i, int j)
{
	if (isN(f))
		return a(i, j);
	return (f == 'C' || f == 'c') ? cj(a(j, i)) : a(j, i);
}

template <typename T> static T scalar(pbt::Ctx& c)
{
	unsigned k = c.below(4);
	return k == 0 ? T(1) : (k == 1 ? T(0) : Gen<T>::any(c));
}

template <typename T> static void gemm(pbt::Ctx& c, bool threaded)
{
	bool large = c.large();
	int  m = c.skew(0, large ? 90 : 12), n = c.skew(0, large ? 90 : 12), k = c.skew(0, large ? 24 : 7);
	char fa = flagN(c), fb = flagN(c);
	Mem<T> A(c, isN(fa) ? m : k, isN(fa) ? k : m), Bm(c, isN(fb) ? k : n, isN(fb) ? n : k), C(c, m, n);
	T alpha = scalar<T>(c), beta = scalar<T>(c);
	Mem<T> ref = C, A0 = A, B0 = Bm;
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < n; ++j) {
			T s = T(0);
			for (int l = 0; l < k; ++l)
				s += op(A, fa, i, l) * op(Bm, fb, l, j);
			ref(i, j) = alpha * s + beta * C(i, j);
		}
	if (threaded) {
		size_t nb = c.skew(0, large ? 80 : 13), nt = c.range(1, large ? 12 : 4);
		DESC("GemmR " << fa << fb << " m=" << m << " n=" << n << " k=" << k << " ld " << A.ld << "," << Bm.ld << "," << C.ld << " alpha=" << alpha << " beta=" << beta << " nb=" << nb << " threads=" << nt);
		if (nb && (static_cast<size_t>(m) > nb || static_cast<size_t>(n) > nb) && m * n >= 4)
			c.nontrivial();
		PsimagLite::GemmR<T> g(false, nb, nt);
		g(fa, fb, m, n, k, alpha, A.p(), A.ld, Bm.p(), Bm.ld, beta, C.p(), C.ld);
	} else {
		DESC("GEMM " << fa << fb << " m=" << m << " n=" << n << " k=" << k << " ld " << A.ld << "," << Bm.ld << "," << C.ld << " alpha=" << alpha << " beta=" << beta);
		if (m * n >= 4)
			c.nontrivial();
		B::GEMM(fa, fb, m, n, k, alpha, A.p(), A.ld, Bm.p(), Bm.ld, beta, C.p(), C.ld);
	}
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < n; ++j)
			CHECK(C(i, j) == ref(i, j), "element " << i << "," << j << " is " << C(i, j) << " instead of " << ref(i, j));
	CHECK(C.d == ref.d, "memory outside the result was changed");
	CHECK(A.d == A0.d && Bm.d == B0.d, "operands were changed");
}

template <typename T> static void gemv(pbt::Ctx& c)
{
	int    m = c.skew(0, c.large() ? 60 : 10), n = c.skew(0, c.large() ? 60 : 10);
	char   f = flagN(c);
	Mem<T> A(c, m, n);
	Str<T> x(c, isN(f) ? n : m), y(c, isN(f) ? m : n);
	T      alpha = scalar<T>(c), beta = scalar<T>(c);
	DESC("GEMV " << f << " " << m << "x" << n << " ld " << A.ld << " inc " << x.inc << "," << y.inc << " alpha=" << alpha << " beta=" << beta);
	if (m * n >= 4)
		c.nontrivial();
	Str<T> ref = y;
	if (m > 0 && n > 0) // the reference routine returns at once when the matrix is empty
		for (int i = 0; i < y.n; ++i) {
			T s = T(0);
			for (int l = 0; l < x.n; ++l)
				s += op(A, f, i, l) * x(l);
			ref(i) = alpha * s + beta * y(i);
		}
	else
		return;
	B::GEMV(f, m, n, alpha, A.p(), A.ld, x.p(), x.inc, beta, y.p(), y.inc);
	CHECK(y.d == ref.d, "matrix-vector product is wrong or wrote elsewhere");
}

// C := alpha A B + beta C (left) or alpha B A + beta C (right), A given by one triangle
template <typename T> static void symmhemm(pbt::Ctx& c)
{
	int    m = c.skew(1, c.large() ? 30 : 9), n = c.skew(1, c.large() ? 30 : 9);
	char   side = c.pickOf({ 'L', 'R' }), uplo = c.pickOf({ 'U', 'L' });
	bool   herm = IsCplx<T>::value && c.flip();
	int    na = side == 'L' ? m : n;
	Mem<T> A(c, na, na), Bm(c, m, n), C(c, m, n);
	T      alpha = scalar<T>(c), beta = scalar<T>(c);
	DESC((herm ? "HEMM " : "SYMM ") << side << uplo << " " << m << "x" << n << " ld " << A.ld << "," << Bm.ld << "," << C.ld);
	if (m * n >= 4)
		c.nontrivial();
	auto a = [&](int i, int j) {
		if (i == j)
			return herm ? T(std::real(A(i, i))) : A(i, i);
		bool stored = (uplo == 'U') == (i < j);
		return stored ? A(i, j) : (herm ? cj(A(j, i)) : A(j, i));
	};
	Mem<T> ref = C;
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < n; ++j) {
			T s = T(0);
			for (int l = 0; l < na; ++l)
				s += side == 'L' ? a(i, l) * Bm(l, j) : Bm(i, l) * a(l, j);
			ref(i, j) = alpha * s + beta * C(i, j);
		}
	if constexpr (IsCplx<T>::value) {
		if (herm)
			B::HEMM(side, uplo, m, n, alpha, A.p(), A.ld, Bm.p(), Bm.ld, beta, C.p(), C.ld);
	}
	if (!herm)
		B::SYMM(side, uplo, m, n, alpha, A.p(), A.ld, Bm.p(), Bm.ld, beta, C.p(), C.ld);
	CHECK(C.d == ref.d, "symmetric/Hermitian product is wrong or wrote elsewhere");
}

template <typename T> static void rankk(pbt::Ctx& c)
{
	int    n = c.skew(1, c.large() ? 50 : 9), k = c.skew(1, c.large() ? 24 : 6);
	bool   herm = IsCplx<T>::value && c.flip();
	char   uplo = c.pickOf({ 'U', 'L' }), tr = c.flip() ? 'N' : (herm ? 'C' : 'T');
	Mem<T> A(c, tr == 'N' ? n : k, tr == 'N' ? k : n), C(c, n, n);
	T      alpha = scalar<T>(c), beta = scalar<T>(c);
	if (herm) {
		alpha = std::real(alpha);
		beta  = std::real(beta);
		for (int i = 0; i < n; ++i)
			C(i, i) = std::real(C(i, i));
	}
	DESC((herm ? "HERK " : "SYRK ") << uplo << tr << " n=" << n << " k=" << k << " ld " << A.ld << "," << C.ld);
	if (n > 1)
		c.nontrivial();
	Mem<T> ref = C;
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j) {
			if (i != j && (uplo == 'U') != (i < j))
				continue;
			T s = T(0);
			for (int l = 0; l < k; ++l) {
				T x = tr == 'N' ? A(i, l) : A(l, i), y = tr == 'N' ? A(j, l) : A(l, j);
				if (herm)
					s += tr == 'N' ? x * cj(y) : cj(x) * y;
				else
					s += x * y;
			}
			ref(i, j) = alpha * s + beta * C(i, j);
		}
	if constexpr (IsCplx<T>::value) {
		if (herm)
			B::HERK(uplo, tr, n, k, alpha, A.p(), A.ld, beta, C.p(), C.ld);
	}
	if (!herm)
		B::SYRK(uplo, tr, n, k, alpha, A.p(), A.ld, beta, C.p(), C.ld);
	CHECK(C.d == ref.d, "rank-k update is wrong or wrote elsewhere");
}

template <typename T> static void level1(pbt::Ctx& c)
{
	int      n = c.skew(0, c.large() ? 300 : 14), m = c.skew(1, 8);
	Str<T>   x(c, n), y(c, n), ref = y;
	T        a    = scalar<T>(c);
	unsigned what = c.below(5);
	DESC("level 1 op " << what << " n=" << n << " inc " << x.inc << "," << y.inc);
	if (n >= 4)
		c.nontrivial();
	switch (what) {
	case 0:
		for (int i = 0; i < n; ++i)
			ref(i) += a * x(i);
		B::AXPY(n, a, x.p(), x.inc, y.p(), y.inc);
		break;
	case 1:
		for (int i = 0; i < n; ++i)
			ref(i) = x(i);
		B::COPY(n, x.p(), x.inc, y.p(), y.inc);
		break;
	case 2:
		for (int i = 0; i < n; ++i)
			ref(i) = a * y(i);
		B::SCAL(n, a, y.p(), y.inc);
		break;
	case 3:
		if constexpr (std::is_same<T, double>::value) {
			double s = 0;
			for (int i = 0; i < n; ++i)
				s += x(i) * y(i);
			double d = B::DOT(n, x.p(), x.inc, y.p(), y.inc);
			CHECK(d == s, "dot product " << d << " instead of " << s);
		}
		break;
	case 4: {
		Mem<T> A(c, m, n), R = A;
		Str<T> u(c, m);
		bool   conj = IsCplx<T>::value && c.flip();
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j)
				R(i, j) += a * u(i) * (conj ? cj(x(j)) : x(j));
		if constexpr (IsCplx<T>::value) {
			if (conj)
				B::GERC(m, n, a, u.p(), u.inc, x.p(), x.inc, A.p(), A.ld);
			else
				B::GERU(m, n, a, u.p(), u.inc, x.p(), x.inc, A.p(), A.ld);
		} else
			B::GER(m, n, a, u.p(), u.inc, x.p(), x.inc, A.p(), A.ld);
		CHECK(A.d == R.d, "rank-one update is wrong or wrote elsewhere");
		break;
	}
	}
	CHECK(y.d == ref.d, "level 1 operation " << what << " is wrong or wrote elsewhere");
}

#define FOUR(name, w, ...)                                                                          \
	PROP(name##_float, w) { __VA_ARGS__(float) }                                                \
	PROP(name##_double, w) { __VA_ARGS__(double) }                                              \
	PROP(name##_cfloat, w) { __VA_ARGS__(Cf) }                                                  \
	PROP(name##_cdouble, w) { __VA_ARGS__(Cd) }
#define G0(T) gemm<T>(c, false);
#define G1(T) gemm<T>(c, true);
#define V0(T) gemv<T>(c);
#define S0(T) symmhemm<T>(c);
#define R0(T) rankk<T>(c);
#define L0(T) level1<T>(c);
FOUR(gemm, 4, G0)
FOUR(gemm_threads, 5, G1)
FOUR(gemv, 3, V0)
FOUR(symm, 3, S0)
FOUR(rankk, 2, R0)
FOUR(level1, 3, L0)

PROP(gemm_refuses_bad_ld, 1)
{
	int  m = c.range(2, 6), n = c.range(1, 4), k = c.range(2, 6);
	char fa  = flagN(c);
	int  min = isN(fa) ? m : k;
	int  ld  = c.range(0, min - 1);
	c.nontrivial();
	std::vector<Cd> a(100), b(100), x(100);
	CHECK(pbt::throws([&] { B::GEMM(fa, 'N', m, n, k, Cd(1), a.data(), ld, b.data(), k, Cd(0), x.data(), m); }),
	      "leading dimension " << ld << " accepted");
}
PBT_MAIN
