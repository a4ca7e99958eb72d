// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 1500000
// PBT-THOROUGH: 40000000
// PBT-RULE: a case builds a sparse matrix in one of the supported ways from generated entries (shape 0..9, density 0..1, emptied rows, unordered columns, explicit zeros)
// PBT-RULE: and compares it with an independent dense reference; non-trivial = at least two stored entries and (an empty row, a rectangular shape, unordered columns or a history of at least two edits)
#include "sparse.h"
#include <cmath>
#include <memory>
#include <sstream>
#include "SampleCRSMatrix.h"

template <typename T> static void checkAll(const CrsMatrix<T>& m, const RM<T>& a, const char* what)
{
	CHECK(m.rows() == a.r && m.cols() == a.c, what << ": shape " << m.rows() << "x" << m.cols() << " instead of " << a.r << "x" << a.c);
	RM<T> x = readCrs(m, what);
	CHECK(x == a, what << ": holds " << x << " instead of " << a);
	if (a.r > 0 && a.c > 0) {
		CHECK(static_cast<size_t>(m.nonZeros()) >= nnz(a), what << ": entry count");
		RM<T> y = fromLib(m.toDense());
		CHECK(y == a, what << ": dense form " << y << " instead of " << a);
		m.checkValidity();
	}
}

template <typename T> static void note(pbt::Ctx& c, const RM<T>& a)
{
	size_t e = emptyRows(a);
	c.labelIf(e > 0 && nnz(a) > 0, "some rows empty");
	c.labelIf(a.r != a.c, "rectangular");
	c.labelIf(nnz(a) == 0, "no entries");
	if (nnz(a) >= 2 && (e > 0 || a.r != a.c || nnz(a) > a.r))
		c.nontrivial();
}

template <typename T> static void triplets(pbt::Ctx& c)
{
	size_t n = genDim(c, 1, 9);
	RM<T>  a = rscale(genSparse<T>(c, n, n), T(magnitude(c)));
	std::vector<size_t> rows, cols;
	std::vector<T> vals;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			if (a(i, j) != T(0)) {
				rows.push_back(i);
				cols.push_back(j);
				vals.push_back(a(i, j));
			}
	if (rows.empty() && c.flip()) {
		a(n - 1, 0) = T(2);
		rows.push_back(n - 1);
		cols.push_back(0);
		vals.push_back(T(2));
	}
	std::unique_ptr<pbt::Ctx::Bulk> bulk(rows.size() > 150 ? new pbt::Ctx::Bulk(c) : nullptr);
	for (size_t k = 1; k < rows.size(); ++k) {
		size_t l = k - c.below(k + 1);
		std::swap(rows[k], rows[l]);
		std::swap(cols[k], cols[l]);
		std::swap(vals[k], vals[l]);
	}
	DESC("triplets of " << a);
	note(c, a);
	CrsMatrix<T> m(n, rows, cols, vals);
	checkAll(m, a, "triplets");
}

template <typename T> static void dense(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 9), cc = genDim(c, 1, 9);
	RM<T>  a = rscale(genSparse<T>(c, r, cc), T(magnitude(c)));
	DESC("dense conversion of " << a);
	note(c, a);
	Matrix<T> d = toLib(a);
	CrsMatrix<T> m(d);
	checkAll(m, a, "constructed from dense");
	CHECK(static_cast<size_t>(m.nonZeros()) == nnz(a), "explicit zeros stored from a dense matrix");
	CHECK(fromLib(d) == a, "dense source modified");
	CrsMatrix<T> m2;
	if (c.flip()) { // a target with previous content
		RM<T> old = genSparse<T>(c, genDim(c, 1, 6), genDim(c, 1, 6));
		m2        = CrsMatrix<T>(toLib(old));
		c.label("conversion into a used target");
	}
	fullMatrixToCrsMatrix(m2, d);
	checkAll(m2, a, "fullMatrixToCrsMatrix");
	CHECK(m == m2, "two conversions of the same dense matrix differ");
	Matrix<T> back;
	if (c.flip()) {
		back = toLib(genDense<T>(c, genDim(c, 1, 6), genDim(c, 1, 6)));
		c.label("dense target used before");
		DESC(" into a dense target holding " << fromLib(back));
	}
	crsMatrixToFullMatrix(back, m);
	CHECK(fromLib(back) == a, "crsMatrixToFullMatrix gives " << fromLib(back) << " instead of " << a);
}

template <typename T> struct VerySparse { // the interface the assignment operator documents
	size_t r, cc;
	std::vector<size_t> ri, ci;
	std::vector<T> v;
	bool   isSorted;
	bool   sorted() const { return isSorted; }
	size_t nonZeros() const { return v.size(); }
	size_t rows() const { return r; }
	size_t cols() const { return cc; }
	size_t getRow(size_t k) const { return ri[k]; }
	size_t getColumn(size_t k) const { return ci[k]; }
	T      getValue(size_t k) const { return v[k]; }
};

template <typename T> static void verySparse(pbt::Ctx& c)
{
	size_t r = genDim(c, 1, 9), cc = genDim(c, 1, 9);
	RM<T>  a = rscale(genSparse<T>(c, r, cc), T(magnitude(c)));
	DESC("sorted coordinate list of " << a);
	note(c, a);
	VerySparse<T> s;
	s.r = r;
	s.cc = cc;
	s.isSorted = true;
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < cc; ++j)
			if (a(i, j) != T(0)) {
				s.ri.push_back(i);
				s.ci.push_back(j);
				s.v.push_back(a(i, j));
			}
	CrsMatrix<T> m;
	if (c.flip())
		m = CrsMatrix<T>(toLib(genSparse<T>(c, genDim(c, 1, 6), genDim(c, 1, 6))));
	CrsMatrix<T> copy = m;
	m = s;
	checkAll(m, a, "from sorted coordinate list");
	s.isSorted = false;
	CHECK(pbt::throws([&] { copy = s; }), "unsorted coordinate list accepted");
}

// histories of edits on two matrices
template <typename T> static void history(pbt::Ctx& c)
{
	CrsMatrix<T> m[2];
	RM<T>        a[2];
	unsigned     steps = c.range(1, 10);
	unsigned     done  = 0;
	size_t       most  = 0;
	for (unsigned s = 0; s < steps; ++s) {
		unsigned w = c.below(2);
		unsigned op = c.below(15);
		switch (op) {
		case 0: { // push
			a[w] = rscale(genSparse<T>(c, genDim(c, 1, 7), genDim(c, 1, 7)), T(magnitude(c)));
			bool ez = c.chance(1, 4);
			DESC(w << ":push " << a[w] << (ez ? " with explicit zeros" : "") << "\n");
			pushBuild(m[w], a[w], c, ez);
			break;
		}
		case 1: {
			size_t n = genDim(c, 0, 7);
			T      v = Gen<T>::any(c);
			DESC(w << ":makeDiagonal " << n << " " << v << "\n");
			if (c.chance(1, 5)) { // stored zeros
				v = T(0);
				m[w].makeDiagonal(n);
			} else
				m[w].makeDiagonal(n, v);
			a[w] = rscale(reye<T>(n), v);
			break;
		}
		case 2:
			DESC(w << ":assign from the other\n");
			m[w] = m[1 - w];
			a[w] = a[1 - w];
			break;
		case 3:
			DESC("swap\n");
			m[0].swap(m[1]);
			std::swap(a[0], a[1]);
			break;
		case 4:
			DESC(w << ":clear\n");
			m[w].clear();
			a[w] = RM<T>();
			CHECK(m[w] == CrsMatrix<T>(), "a cleared matrix is not the empty matrix");
			break;
		case 5: { // fresh shape without entries
			size_t r = genDim(c, 1, 7), cc = genDim(c, 1, 7);
			DESC(w << ":resize " << r << " " << cc << "\n");
			m[w].resize(r, cc);
			a[w] = RM<T>(r, cc);
			break;
		}
		case 6: {
			T f = Gen<T>::any(c);
			DESC(w << ":*= " << f << "\n");
			m[w] *= f;
			a[w] = rscale(a[w], f);
			break;
		}
		case 7: { // edit one stored value in place
			if (a[w].r == 0 || m[w].nonZeros() == 0)
				break;
			size_t k = c.below(m[w].nonZeros());
			T      v = Gen<T>::any(c);
			size_t i = 0;
			while (static_cast<size_t>(m[w].getRowPtr(i + 1)) <= k)
				++i;
			DESC(w << ":setValues " << k << " " << v << "\n");
			a[w](i, m[w].getCol(k)) = v;
			m[w].setValues(k, v);
			break;
		}
		case 8: {
			DESC(w << ":conjugate\n");
			m[w].conjugate();
			for (auto& v : a[w].d)
				v = cj(v);
			break;
		}
		case 9: { // raw arrays: resize with a number of entries, then set
			RM<T> x = rscale(genSparse<T>(c, genDim(c, 1, 7), genDim(c, 1, 7)), T(magnitude(c)));
			DESC(w << ":raw arrays " << x << "\n");
			m[w].resize(x.r, x.c, nnz(x));
			size_t k = 0;
			for (size_t i = 0; i < x.r; ++i) {
				m[w].setRow(i, k);
				for (size_t j = 0; j < x.c; ++j)
					if (x(i, j) != T(0)) {
						m[w].setCol(k, j);
						m[w].setValues(k, x(i, j));
						++k;
					}
			}
			m[w].setRow(x.r, k);
			a[w] = x;
			break;
		}
		case 10: {
			DESC(w << ":copy-construct, then edit the copy\n");
			CrsMatrix<T> z(m[w]);
			checkAll(z, a[w], "copy");
			z *= T(3);
			break;
		}
		case 11: {
			size_t r = genDim(c, 1, 7), cc = genDim(c, 1, 7);
			DESC(w << ":constructed empty " << r << " " << cc << "\n");
			m[w] = CrsMatrix<T>(r, cc);
			a[w] = RM<T>(r, cc);
			break;
		}
		case 12: { // equality
			bool same = (m[0] == m[1]);
			if (same)
				CHECK(a[0] == a[1], "equal matrices represent different ones");
			CrsMatrix<T> z = m[w];
			CHECK(z == m[w], "a copy compares unequal");
			break;
		}
		case 13: {
			DESC(w << ":reserve\n");
			m[w].reserve(c.below(40));
			break;
		}
		case 14: {
			RM<T> x = rscale(genSparse<T>(c, genDim(c, 1, 7), genDim(c, 1, 7)), T(magnitude(c)));
			DESC(w << ":from dense " << x << "\n");
			m[w] = CrsMatrix<T>(toLib(x));
			a[w] = x;
			break;
		}
		}
		++done;
		most = std::max(most, std::max(nnz(a[0]), nnz(a[1])));
		checkAll(m[0], a[0], "matrix 0");
		checkAll(m[1], a[1], "matrix 1");
	}
	c.labelIf(done >= 4, "four or more edits");
	if (done >= 2 && most >= 2)
		c.nontrivial();
}

PROP(triplets_real, 2) { triplets<double>(c); }
PROP(triplets_complex, 1) { triplets<Cd>(c); }
PROP(dense_real, 2) { dense<double>(c); }
PROP(dense_complex, 1) { dense<Cd>(c); }
PROP(coordinate_list, 2)
{
	if (c.flip())
		verySparse<Cd>(c);
	else
		verySparse<double>(c);
}
PROP(history_real, 4) { history<double>(c); }
PROP(history_complex, 2) { history<Cd>(c); }
// rows and columns of hundreds of entries
PROP(long_rows, 1)
{
	if (!c.chance(1, 60))
		return dense<float>(c);
	LongDims dims(c.flip() ? 300 : 70);
	c.label("long rows or columns");
	switch (c.below(4)) {
	case 0: return triplets<double>(c);
	case 1: return dense<Cd>(c);
	default: return history<double>(c);
	}
}
PROP(history_float, 1) { history<float>(c); }
// a matrix of entries that are drawn: what the generator of the C library gives for the seed
struct Drand {
	uint64_t x;
	Drand(uint32_t seed)
	    : x((uint64_t(seed) << 16) | 0x330E)
	{
	}
	double operator()()
	{
		x = (x * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1);
		return double(x) / double(1ULL << 48);
	}
};

typedef PsimagLite::SampleCRSMatrix<double> Sample;

static void checkSample(pbt::Ctx& c, const Sample& m, size_t n, const RM<double>& sum, size_t stored, double scale, const char* what)
{
	CHECK(m.rank() == n, what << ": rank " << m.rank());
	CHECK(m.getRowPtr(0) == 0 && m.getRowPtr(n) == stored, what << ": rows from " << m.getRowPtr(0) << " to " << m.getRowPtr(n) << " of " << stored);
	RM<double> got(n, n);
	for (size_t i = 0; i < n; ++i) {
		CHECK(m.getRowPtr(i) <= m.getRowPtr(i + 1), what << ": row " << i);
		for (size_t k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) {
			CHECK(m.getCol(k) < n, what << ": column " << m.getCol(k));
			got(i, m.getCol(k)) += m.getValues(k);
		}
	}
	std::vector<double> x(n), y(n), want(n);
	for (size_t i = 0; i < n; ++i)
		x[i] = want[i] = c.sint(9), y[i] = c.sint(9);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) {
			CHECK(std::fabs(got(i, j) - sum(i, j)) <= 1e-12 * scale, what << ": (" << i << "," << j << ") is " << got(i, j) << " and not " << sum(i, j));
			want[i] += sum(i, j) * y[j];
		}
	m.matrixVectorProduct(x, y);
	for (size_t i = 0; i < n; ++i)
		CHECK(std::fabs(x[i] - want[i]) <= 1e-11 * scale, what << ": product " << i << " is " << x[i] << " and not " << want[i]);
}

PROP(sample, 2)
{
	bool       large = c.large();
	size_t     n = c.range(1, large ? 90 : 9), stored = 0;
	RM<double> sum(n, n);
	double     scale = 1;
	std::unique_ptr<Sample> m;
	if (c.flip()) {
		stored        = c.skew(0, large ? 3000 : 30);
		uint32_t seed = c.skew(0, 100000);
		double   top  = c.range(1, 40) / 4.0;
		DESC("random entries: rank " << n << " seed " << seed << " entries " << stored << " up to " << top);
		Drand d(seed);
		for (size_t k = 0; k < stored; ++k) {
			size_t i = size_t(d() * n), j = size_t(d() * n);
			sum(i, j) += d() * top;
		}
		scale = 1 + stored * top;
		m.reset(new Sample(n, seed, stored, top));
	} else {
		m.reset(new Sample(n));
		DESC("pushed entries: rank " << n << ":");
		for (size_t i = 0; i < n; ++i) {
			m->setRow(i, stored);
			for (size_t k = c.skew(0, 3); k > 0; --k, ++stored) {
				size_t j = c.below(n);
				double v = c.sint(9) / 4.0;
				m->pushCol(j);
				m->pushValue(v);
				sum(i, j) += v;
				c.log << " (" << i << "," << j << ")=" << v;
			}
		}
		m->setRow(n, stored);
		scale = 100;
	}
	if (stored > 1 && n > 1)
		c.nontrivial();
	checkSample(c, *m, n, sum, stored, scale, "matrix");
	std::stringstream s;
	s.precision(17);
	s << *m;
	Sample r(s);
	checkSample(c, r, n, sum, stored, scale, "matrix read again");
}

PBT_MAIN
