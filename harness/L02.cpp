// PBT-SOURCES: Matrix.cpp PsimagLite.cpp TridiagonalMatrix.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp
// PBT-PARTS: lapackguard.cpp
// PBT-QUICK: 250000
// PBT-THOROUGH: 3000000
// PBT-RULE: decompose cases: one Hermitian matrix (order 1..48) and start vector, all basis vectors compared with orthonormality and the projection identity; non-trivial = at least three steps taken.
// PBT-RULE: tridiagonal cases: one tridiagonal matrix (order 1..12) whose eigenvalues, dense form, stored form and textual form are compared with a reference Jacobi diagonalization; non-trivial = order at least two
#include "lanczos.h"
#include "Io/IoSimple.h"
#include "TridiagonalMatrix.h"
using namespace PsimagLite;

// eigenvalues of a real symmetric matrix by cyclic Jacobi rotations, ascending
static std::vector<double> jacobi(RM<double> a)
{
	size_t n = a.r;
	for (int sweep = 0; sweep < 60; ++sweep) {
		double off = 0;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < i; ++j)
				off += a(i, j) * a(i, j);
		if (off < 1e-30)
			break;
		for (size_t p = 0; p < n; ++p)
			for (size_t q = p + 1; q < n; ++q) {
				if (a(p, q) == 0)
					continue;
				double th = (a(q, q) - a(p, p)) / (2 * a(p, q));
				double t  = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
				double cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
				for (size_t k = 0; k < n; ++k) {
					double x = a(k, p), y = a(k, q);
					a(k, p) = cs * x - sn * y;
					a(k, q) = sn * x + cs * y;
				}
				for (size_t k = 0; k < n; ++k) {
					double x = a(p, k), y = a(q, k);
					a(p, k) = cs * x - sn * y;
					a(q, k) = sn * x + cs * y;
				}
			}
	}
	std::vector<double> e(n);
	for (size_t i = 0; i < n; ++i)
		e[i] = a(i, i);
	std::sort(e.begin(), e.end());
	return e;
}

template <typename T, typename M> static void decomposeWith(pbt::Ctx& c, const Problem<T>& p, const M& m, const Params& par, bool reortho)
{
	size_t                                   n = p.h.r;
	LanczosSolver<Params, M, std::vector<T>> solver(m, par);
	TridiagonalMatrix<double>                ab;
	Matrix<T> v;
	if (c.chance(1, 4)) { // used before, from another start
		size_t         q = c.below(n);
		std::vector<T> s(n);
		for (size_t i = 0; i < n; ++i)
			s[i] = p.q(i, q);
		if (c.flip())
			s[c.below(n)] += T(0.5);
		if (rmNorm(s) > 0.1) {
			solver.decomposition(s, ab);
			if (c.flip())
				solver.lanczosVectorsSwap(v);
		}
	}
	solver.decomposition(p.start, ab);
	solver.lanczosVectorsSwap(v);
	size_t k = ab.size();
	CHECK(k == solver.steps(), "order of the tridiagonal matrix " << k << " but steps " << solver.steps());
	CHECK(k >= 1 && k <= n && k <= par.steps, "steps " << k << " of at most " << par.steps << " for order " << n);
	CHECK(v.rows() == n && v.cols() == k, "basis of shape " << v.rows() << "x" << v.cols());
	if (par.tolerance < 0)
		CHECK(k == std::min<size_t>(n, par.steps) || n <= 0, "stopped after " << k << " steps without a stopping condition");
	else
		CHECK(k == std::min<size_t>(n, par.steps) || k > par.minSteps || n <= 4, "stopped after " << k << " steps, before the minimum " << par.minSteps);
	if (k >= 3)
		c.nontrivial();
	c.labelIf(k < n, "partial basis");
	double tol = reortho ? 1e-8 : 1e-5;
	double ns  = rmNorm(p.start);
	for (size_t i = 0; i < n; ++i)
		CHECK(absv(v(i, 0) - p.start[i] / ns) <= 1e-12, "first basis vector element " << i << " is " << v(i, 0) << " instead of " << p.start[i] / ns);
	std::vector<std::vector<T>> cols(k, std::vector<T>(n)), hcols(k);
	for (size_t j = 0; j < k; ++j) {
		for (size_t i = 0; i < n; ++i)
			cols[j][i] = v(i, j);
		hcols[j] = mulV(p.h, cols[j]);
	}
	for (size_t a = 0; a < k; ++a)
		for (size_t b = 0; b < k; ++b) {
			T d = dotV(cols[a], cols[b]);
			CHECK(absv(d - T(a == b ? 1 : 0)) <= tol, "overlap of basis vectors " << a << " and " << b << " is " << d);
			T      h    = dotV(cols[a], hcols[b]);
			double want = a == b ? ab.a(a) : (a + 1 == b ? ab.b(b) : (b + 1 == a ? ab.b(a) : 0));
			CHECK(absv(h - T(want)) <= tol * p.scale * 10, "projection element " << a << "," << b << " is " << h << " but the tridiagonal matrix has " << want);
		}
	for (size_t j = 1; j < k; ++j)
		CHECK(ab.b(j) > 0, "off-diagonal element " << j << " is " << ab.b(j));
	Matrix<double> dense;
	ab.buildDenseMatrix(dense);
	RM<double> t(k, k);
	for (size_t a = 0; a < k; ++a)
		for (size_t b = 0; b < k; ++b)
			t(a, b) = dense(a, b);
	std::vector<double> e = jacobi(t), eigs;
	ab.diag(eigs, k);
	for (size_t i = 0; i < k; ++i)
		CHECK(std::fabs(eigs[i] - e[i]) <= 1e-10 * p.scale * 10, "eigenvalue " << i << " " << eigs[i] << " instead of " << e[i]);
	if (k == n)
		for (size_t i = 0; i < n; ++i)
			CHECK(std::fabs(e[i] - p.e[i]) <= 1e-6 * p.scale, "eigenvalue " << i << " of the full projection is " << e[i] << " instead of " << p.e[i]);
	for (size_t i = 0; i < std::min(k, par.eigsForStop); ++i)
		if (k > par.minSteps && k < std::min<size_t>(n, par.steps) && par.tolerance > 0)
			CHECK(std::fabs(e[i] - p.e[i]) <= 1e-5 * p.scale, "stopped with eigenvalue " << i << " at " << e[i] << " instead of " << p.e[i]);
}

template <typename T> static void decompose(pbt::Ctx& c)
{
	bool       reortho = c.chance(2, 3);
	size_t     n       = reortho ? c.skew(1, 16) : c.range(1, 6);
	Problem<T> p       = genericProblem<T>(c, n);
	Params     par;
	par.lotaMemory = true;
	par.options    = reortho ? "reortho" : "none";
	par.steps      = c.chance(1, 3) ? c.range(1, n) : (c.flip() ? 200 : n);
	par.tolerance  = c.flip() ? -1 : 1e-12;
	par.minSteps   = c.range(0, n + 1);
	par.eigsForStop = c.range(1, 3);
	DESC("n=" << n << " reortho " << reortho << " steps " << par.steps << " tol " << par.tolerance << " H=" << p.h);
	if (c.flip()) {
		CrsMatrix<T> m(toLib(p.h));
		decomposeWith(c, p, m, par, reortho);
	} else {
		OwnMatrix<T> m { p.h };
		decomposeWith(c, p, m, par, reortho);
	}
}


// spectra for which Lanczos vectors lose their orthogonality or run out: outliers, clusters, widely spread
// values, multiplets; starts with small or no weight on some of them
template <typename T> static void hard(pbt::Ctx& c)
{
	size_t n     = c.chance(1, 15) ? c.range(17, 48) : c.range(1, 16);
	int    kind  = c.below(5);
	double base  = c.sint(30) / 10.0;
	Problem<T> p;
	p.e.resize(n);
	size_t distinct = c.range(1, std::min<size_t>(n, 7));
	for (size_t i = 0; i < n; ++i)
		switch (kind) {
		case 0: // outliers
			p.e[i] = base + (i < 3 && c.flip() ? (c.flip() ? 1 : -1) * c.range(10, 100) : c.unit());
			break;
		case 1: // widely spread
			p.e[i] = (c.flip() ? 1 : -1) * std::pow(10.0, -double(c.below(13)) / 2);
			break;
		case 2: // multiplets
			p.e[i] = base + 0.9 * (i < distinct ? i : c.below(distinct));
			break;
		case 3: // clusters
			p.e[i] = base + c.below(distinct) + 1e-7 * c.unit();
			break;
		default:
			p.e[i] = base + c.unit() * 5;
		}
	bool diagonal = c.chance(1, 8);
	p.q           = diagonal ? reye<T>(n) : unitary<T>(c, n);
	p.h           = RM<T>(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = i; j < n; ++j) {
			for (size_t k = 0; k < n; ++k)
				p.h(i, j) += p.q(i, k) * T(p.e[k]) * cj(p.q(j, k));
			if (i == j)
				p.h(i, i) = std::real(p.h(i, i));
			p.h(j, i) = cj(p.h(i, j));
		}
	int weights = c.below(3);
	p.start.assign(n, T(0));
	std::vector<double> held;
	for (size_t k = 0; k < n; ++k) {
		double w = (c.flip() ? 1 : -1) * c.range(30, 100) / 100.0;
		if (weights == 1 && c.flip() && !held.empty())
			continue;
		if (weights == 2 && c.flip())
			w *= 1e-6;
		held.push_back(p.e[k]);
		for (size_t i = 0; i < n; ++i)
			p.start[i] += p.q(i, k) * T(w);
	}
	std::sort(held.begin(), held.end());
	size_t krylov = std::unique(held.begin(), held.end()) - held.begin();
	p.scale       = 0;
	for (double v : p.e)
		p.scale = std::max(p.scale, std::fabs(v));
	Params par;
	par.lotaMemory  = true;
	par.options     = "reortho";
	par.steps       = c.chance(1, 4) ? c.range(1, n) : n + c.below(3);
	par.tolerance   = c.pickOf({ -1.0, -1.0, 1e-12, 1e-5 });
	par.minSteps    = c.range(0, 6);
	par.eigsForStop = c.range(1, 3);
	DESC("hard spectrum " << kind << " weights " << weights << " n=" << n << " krylov " << krylov << " steps " << par.steps << " tol " << par.tolerance << " min " << par.minSteps << " H=" << p.h);
	static const char* names[] = { "outliers", "widely spread", "multiplets", "clusters", "random" };
	c.label(names[kind]);
	c.labelIf(n > 16, "more than 16");
	OwnMatrix<T>                                        m { p.h };
	LanczosSolver<Params, OwnMatrix<T>, std::vector<T>> solver(m, par);
	TridiagonalMatrix<double>                           ab;
	solver.decomposition(p.start, ab);
	Matrix<T> v;
	solver.lanczosVectorsSwap(v);
	size_t k = ab.size();
	if (k >= 3)
		c.nontrivial();
	c.labelIf(k < n && par.tolerance < 0 && par.steps >= n, "exhausted");
	c.labelIf(k < std::min(n, par.steps) && par.tolerance > 0, "stopped early");
	CHECK(k == solver.steps(), "order of the tridiagonal matrix " << k << " but steps " << solver.steps());
	CHECK(k >= 1 && k <= n && k <= par.steps, "steps " << k << " of at most " << par.steps << " for order " << n);
	CHECK(v.rows() == n && v.cols() == k, "basis of shape " << v.rows() << "x" << v.cols() << " but " << k << " steps");
	if (par.tolerance < 0 && kind == 2 && weights < 2)
		CHECK(k >= std::min(krylov, par.steps), "stopped after " << k << " steps but the start contains " << krylov << " distinct states");
	double ns = rmNorm(p.start);
	std::vector<std::vector<T>> cols(k, std::vector<T>(n)), hcols(k);
	for (size_t j = 0; j < k; ++j) {
		for (size_t i = 0; i < n; ++i)
			cols[j][i] = v(i, j);
		hcols[j] = mulV(p.h, cols[j]);
	}
	for (size_t i = 0; i < n; ++i)
		CHECK(absv(v(i, 0) - p.start[i] / ns) <= 1e-12, "first basis vector element " << i << " is " << v(i, 0) << " instead of " << p.start[i] / ns);
	for (size_t a = 0; a < k; ++a)
		for (size_t b = 0; b < k; ++b) {
			T d = dotV(cols[a], cols[b]);
			CHECK(absv(d - T(a == b ? 1 : 0)) <= 1e-11, "overlap of basis vectors " << a << " and " << b << " is " << d);
			T      h    = dotV(cols[a], hcols[b]);
			double want = a == b ? ab.a(a) : (a + 1 == b ? ab.b(b) : (b + 1 == a ? ab.b(a) : 0));
			CHECK(absv(h - T(want)) <= 1e-11 * p.scale, "projection element " << a << "," << b << " is " << h << " but the tridiagonal matrix has " << want);
		}
}

template <typename R> static void tridiag(pbt::Ctx& c)
{
	size_t               n = c.skew(1, 12);
	std::vector<double>  a(n), b(n, 0);
	double               unit = c.pickOf({ 1.0, 1.0, 0.25 });
	double               sc = 1;
	for (size_t i = 0; i < n; ++i) {
		a[i] = c.sint(8) * unit;
		b[i] = i > 0 && !c.chance(1, 6) ? c.sint(6) * unit : 0;
		sc   = std::max(sc, std::fabs(a[i]) + 2 * std::fabs(b[i]));
	}
	double ignored = c.sint(3); // b(0) is not part of the matrix
	TridiagonalMatrix<R> t;
	bool                 pushed = c.flip();
	if (pushed) {
		for (size_t i = 0; i < n; ++i)
			t.push(a[i], i == 0 ? ignored : b[i]);
	} else {
		if (c.flip())
			t.resize(n + 1);
		t.resize(n, R(7));
		for (size_t i = 0; i < n; ++i) {
			t.a(i) = a[i];
			t.b(i) = i == 0 ? ignored : b[i];
		}
	}
	DESC("tridiagonal n=" << n << " pushed " << pushed << " first diagonal " << a[0]);
	if (n >= 2)
		c.nontrivial();
	CHECK(t.size() == n, "size " << t.size());
	double tol = sizeof(R) == 4 ? 2e-5 : 1e-12;
	auto   refDense = [&](size_t k) {
		RM<double> m(k, k);
		for (size_t i = 0; i < k; ++i) {
			m(i, i) = a[i];
			if (i + 1 < k)
				m(i, i + 1) = m(i + 1, i) = b[i + 1];
		}
		return m;
	};
	// eigenvalues of every leading block
	size_t              k = c.flip() ? n : c.range(1, n);
	std::vector<R>      eigs;
	if (c.flip())
		eigs.assign(c.below(20), R(3));
	t.diag(eigs, k);
	std::vector<double> e = jacobi(refDense(k));
	CHECK(eigs.size() >= k, "only " << eigs.size() << " eigenvalues of " << k);
	for (size_t i = 0; i < k; ++i)
		CHECK(std::fabs(eigs[i] - e[i]) <= tol * sc * 20, "eigenvalue " << i << " of the leading " << k << " block is " << eigs[i] << " instead of " << e[i]);
	// dense form, into a fresh or a used target
	Matrix<R> dense;
	if (c.flip()) {
		dense.resize(c.range(1, 5), c.range(1, 5), R(9));
		if (c.flip()) {
			dense.clear();
			dense.resize(k, k, R(9));
		}
	}
	if (k == n && c.flip())
		t.buildDenseMatrix(dense);
	else
		t.buildDenseMatrix(dense, k);
	RM<double> rd = refDense(k);
	CHECK(dense.rows() == k && dense.cols() == k, "dense form of shape " << dense.rows() << "x" << dense.cols());
	for (size_t i = 0; i < k; ++i)
		for (size_t j = 0; j < k; ++j)
			CHECK(dense(i, j) == R(rd(i, j)), "dense element " << i << "," << j << " is " << dense(i, j) << " instead of " << rd(i, j));
	std::vector<R> ed(k);
	Matrix<R>      vecs = dense;
	diag(vecs, ed, 'V');
	for (size_t i = 0; i < k; ++i) {
		CHECK(std::fabs(ed[i] - e[i]) <= tol * sc * 20, "eigenvalue " << i << " of the dense form is " << ed[i] << " instead of " << e[i]);
		for (size_t r = 0; r < k; ++r) {
			double s = 0;
			for (size_t q = 0; q < k; ++q)
				s += rd(r, q) * vecs(q, i);
			CHECK(std::fabs(s - e[i] * vecs(r, i)) <= tol * sc * 50, "eigenvector " << i << " violates the eigen equation");
		}
	}
	// copies are independent
	const TridiagonalMatrix<R>& ct = t;
	TridiagonalMatrix<R> copy(ct);
	copy.a(0) += 1;
	CHECK(t.a(0) == R(a[0]), "a copy shares storage");
}

static void textual(pbt::Ctx& c)
{
	size_t                    n = c.range(1, 8), many = c.range(1, 3);
	std::vector<TridiagonalMatrix<double>> ts(many);
	for (auto& t : ts) {
		n = c.range(1, 8);
		for (size_t i = 0; i < n; ++i)
			t.push(c.flip() ? c.unit() * 1e3 : c.sint(9) / 4.0, c.flip() ? c.unit() : c.sint(9) / 4.0);
	}
	DESC("text round trip of " << many << " matrices, last of order " << n);
	if (many > 1 || n > 1)
		c.nontrivial();
	std::string fn = pbt::scratch() + "/t.txt";
	{
		IoSimple::Out io(fn);
		io.setPrecision(17);
		for (auto& t : ts) {
			io.printline("SomethingElse=3");
			t.write(io);
		}
	}
	IoSimple::In io(fn);
	for (auto& t : ts) {
		TridiagonalMatrix<double> back(io);
		CHECK(back.size() == t.size(), "order " << back.size() << " instead of " << t.size());
		for (size_t i = 0; i < t.size(); ++i) {
			CHECK(back.a(i) == t.a(i), "diagonal element " << i << " is " << back.a(i) << " instead of " << t.a(i));
			CHECK(back.b(i) == t.b(i), "off-diagonal element " << i << " is " << back.b(i) << " instead of " << t.b(i));
		}
	}
}

PROP(decompose_real, 4) { decompose<double>(c); }
PROP(decompose_complex, 4) { decompose<Cd>(c); }
PROP(hard_real, 3) { hard<double>(c); }
PROP(hard_complex, 3) { hard<Cd>(c); }
PROP(tridiagonal_double, 3) { tridiag<double>(c); }
PROP(tridiagonal_float, 2) { tridiag<float>(c); }
PROP(tridiagonal_text, 1) { textual(c); }
PBT_MAIN
