// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 1200000
// PBT-THOROUGH: 40000000
// PBT-RULE: a case is a history of insertions (repeated, unordered, cancelling), scalings, differences, sorts, chunk copies and clears of a sparse vector, or the rows of a sparse matrix accumulated one entry at a time
// PBT-RULE: non-trivial = some index had two or more insertions, or insertions were out of order
#include "pbt.h"
#include <memory>
#include <cmath>
#include <complex>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "PsimagLite.h"
#include "CrsMatrix.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#include "SparseVector.h"

static bool smallValues = false; // some numbers are small, but not so much that they are dropped

static double part(pbt::Ctx& c)
{
	return smallValues && c.chance(1, 4) ? c.sint(4) / 16384.0 : c.sint(4) * 0.5;
}

template <typename T> struct Num;
template <> struct Num<double> {
	static double gen(pbt::Ctx& c) { return part(c); }
	static double conj(double x) { return x; }
};
template <> struct Num<std::complex<double>> {
	static std::complex<double> gen(pbt::Ctx& c)
	{
		double re = part(c);
		return std::complex<double>(re, part(c));
	}
	static std::complex<double> conj(const std::complex<double>& x) { return std::conj(x); }
};

struct Parts {
	std::vector<SizeType> offsets; // one more than partitions
	SizeType partition(SizeType i) const { return offsets[i]; }
	SizeType partition() const { return offsets.size() - 1; }
};

template <typename T> static std::vector<T> dense(const PsimagLite::SparseVector<T>& v, size_t n)
{
	std::vector<T> d(n, T(0));
	for (size_t i = 0; i < v.indices(); ++i) {
		CHECK(v.index(i) < n, "entry " << i << " has index " << v.index(i));
		d[v.index(i)] += v.value(i);
	}
	return d;
}

template <typename T> static void sortedForm(const PsimagLite::SparseVector<T>& v, const std::vector<T>& want, const char* when)
{
	size_t k = 0;
	for (size_t i = 0; i < want.size(); ++i) {
		if (want[i] == T(0))
			continue;
		CHECK(k < v.indices(), when << ": nothing stored for index " << i);
		CHECK(v.index(k) == i && v.value(k) == want[i], when << ": entry " << k << " is " << v.index(k) << " " << v.value(k) << " want " << i << " " << want[i]);
		++k;
	}
	CHECK(k == v.indices(), when << ": " << v.indices() << " entries stored, " << k << " are not zero");
}

template <typename T> static std::string show(const std::vector<T>& d)
{
	std::ostringstream os;
	for (const T& x : d)
		os << x << " ";
	return os.str();
}

template <typename T> static void fill(pbt::Ctx& c, PsimagLite::SparseVector<T>& v, std::vector<T>& d, size_t count)
{
	for (size_t i = 0; i < count; ++i) {
		size_t at = c.below(d.size());
		T x = Num<T>::gen(c);
		if (c.chance(1, 6))
			x = -d[at]; // cancels what is there
		v.add(at, x);
		d[at] += x;
	}
}

template <typename T> static void history(pbt::Ctx& c)
{
	typedef PsimagLite::SparseVector<T> SparseVectorType;
	typedef typename PsimagLite::Vector<T>::Type VectorType;
	const bool                       large = c.chance(1, 300);
	size_t                           most = large ? c.range(11, 400) : 10, many = large ? 60 : 12;
	std::unique_ptr<pbt::Ctx::Bulk> bulk(large ? new pbt::Ctx::Bulk(c) : nullptr);
	c.labelIf(large, "large");
	smallValues = c.chance(1, 8);
	size_t n = 1 + c.below(most);
	std::vector<T> d(n, T(0));
	bool sorted = false;
	SparseVectorType v(n);
	std::string log = "size " + std::to_string(n) + ":";
	if (c.chance(1, 3)) {
		VectorType from(n);
		for (size_t i = 0; i < n; ++i)
			from[i] = d[i] = c.flip() ? Num<T>::gen(c) : T(0);
		v = SparseVectorType(from);
		sortedForm(v, d, "from a dense vector");
		log += " from dense";
	}
	size_t steps = c.below(many);
	for (size_t s = 0; s < steps; ++s) {
		switch (c.weighted({ 8, 2, 3, 3, 1, 1, 2, 3, 2 })) {
		case 0: {
			size_t at = c.below(n);
			T x = Num<T>::gen(c);
			if (c.chance(1, 6))
				x = -d[at];
			size_t before = v.indices();
			CHECK(v.add(at, x) == before, "add does not return where the entry is");
			d[at] += x;
			sorted = false;
			log += " add " + std::to_string(at);
			if (before > 0)
				c.nontrivial();
			break;
		}
		case 1: {
			T x = smallValues ? T(c.sint(4)) : Num<T>::gen(c);
			v *= x;
			for (T& y : d)
				y *= x;
			log += " scale";
			break;
		}
		case 2: {
			v.sort();
			log += " sort";
			// scaling by zero leaves explicit zeros in what was sorted already
			if (!sorted)
				sortedForm(v, d, "after sorting");
			sorted = true;
			break;
		}
		case 3: {
			std::vector<T> e(n, T(0));
			SparseVectorType w(n);
			fill(c, w, e, c.below(most / 2));
			v -= w;
			for (size_t i = 0; i < n; ++i)
				d[i] -= e[i];
			sorted = false;
			log += " minus";
			break;
		}
		case 4:
			v.clear();
			d.assign(n, T(0));
			sorted = false;
			log += " clear";
			break;
		case 5:
			n = 1 + c.below(most);
			v.resize(n);
			d.assign(n, T(0));
			log += " resize " + std::to_string(n);
			break;
		case 6: {
			size_t offset = c.below(n), len = c.below(n - offset + 1);
			VectorType chunk(len);
			d.assign(n, T(0));
			for (size_t i = 0; i < len; ++i)
				d[offset + i] = chunk[i] = Num<T>::gen(c);
			v.fromChunk(chunk, offset, n);
			log += " fromChunk " + std::to_string(offset) + "+" + std::to_string(len);
			break;
		}
		case 7: {
			VectorType dest(c.below(4), T(7));
			size_t lo = n, hi = 0;
			for (size_t i = 0; i < v.indices(); ++i) {
				lo = std::min<size_t>(lo, v.index(i));
				hi = std::max<size_t>(hi, v.index(i));
			}
			if (v.indices() == 0) {
				v.toChunk(dest, 0, n);
				CHECK(dest.size() == n, "chunk has " << dest.size());
				for (size_t i = 0; i < n; ++i)
					CHECK(dest[i] == T(0), "chunk of nothing is not zero at " << i);
				CHECK(pbt::throws([&] { v.toChunk(dest, 0, n, true); }), "checked chunk of nothing accepted");
				break;
			}
			size_t i0 = c.below(lo + 1), total = hi + 1 - i0 + c.below(n - hi);
			v.toChunk(dest, i0, total, c.flip());
			CHECK(dest.size() == total, "chunk has " << dest.size() << " want " << total);
			for (size_t i = 0; i < total; ++i)
				CHECK(dest[i] == d[i0 + i], "chunk at " << i << " is " << dest[i] << " want " << d[i0 + i]);
			size_t badStart = lo + 1, badTotal = hi - i0;
			VectorType keep;
			CHECK(pbt::throws([&] { v.toChunk(keep, badStart, n, true); }), "chunk that starts after the first entry accepted");
			CHECK(pbt::throws([&] { v.toChunk(keep, i0, badTotal, true); }), "chunk that ends before the last entry accepted");
			SparseVectorType back(3);
			back.fromChunk(dest, i0, n);
			std::vector<T> b = dense(back, n);
			CHECK(back.size() == n && b == d, "from chunk and back");
			log += " chunk";
			break;
		}
		default: {
			Parts parts;
			parts.offsets.push_back(0);
			for (size_t i = 1; i < n; ++i)
				if (c.chance(1, 4))
					parts.offsets.push_back(i);
			parts.offsets.push_back(n);
			int only = -1; // -2: several
			for (size_t i = 0; i < v.indices(); ++i) {
				int p = 0;
				while (parts.offsets[p + 1] <= v.index(i))
					++p;
				only = (only == -1 || only == p) ? p : -2;
			}
			log += " partition";
			VectorType dest(c.below(3), T(7));
			if (only < 0) {
				CHECK(pbt::throws([&] { (void)v.findPartition(parts); }), "partition of what has " << (only == -1 ? "no" : "more than one") << " partition");
				CHECK(pbt::throws([&] { (void)v.toChunk(dest, parts); }), "chunk of what has " << (only == -1 ? "no" : "more than one") << " partition");
				break;
			}
			CHECK((int)v.findPartition(parts) == only, "partition " << v.findPartition(parts) << " want " << only);
			CHECK((int)v.toChunk(dest, parts) == only, "partition of the chunk");
			size_t offset = parts.offsets[only];
			CHECK(dest.size() == parts.offsets[only + 1] - offset, "size of the partition's chunk " << dest.size());
			for (size_t i = 0; i < dest.size(); ++i)
				CHECK(dest[i] == d[offset + i], "partition's chunk at " << i);
		}
		}
		DESC(log);
		CHECK(v.size() == n, "size " << v.size() << " want " << n);
		std::vector<T> now = dense(v, n);
		CHECK(now == d, "holds " << show(now) << " want " << show(d));
	}
	DESC(log);
	std::ostringstream os, text;
	os << v;
	text << "SparseVector, " << n << ", " << v.indices() << ", ";
	for (size_t i = 0; i < v.indices(); ++i)
		text << v.index(i) << " " << v.value(i) << ",";
	CHECK(os.str() == text.str() + "\n", "printed '" << os.str() << "'");

	T f = Num<T>::gen(c);
	SparseVectorType scaled = f * v;
	std::vector<T> sd = dense(scaled, n);
	for (size_t i = 0; i < n; ++i)
		CHECK(sd[i] == f * d[i], "scaled copy at " << i);
	CHECK(dense(v, n) == d, "scaling a copy changed the original");

	v.sort();
	CHECK(dense(v, n) == d, "sorting changed the content");
	// against another one
	std::vector<T> e(n, T(0));
	SparseVectorType w(n);
	if (c.flip()) {
		fill(c, w, e, c.below(most / 2 + 1));
	} else {
		// the same content, entered in another way, perhaps with one difference
		size_t extra = c.below(3);
		for (size_t k = 0; k < extra; ++k) {
			size_t at = c.below(n);
			T x = Num<T>::gen(c);
			w.add(at, x);
			e[at] += x;
		}
		for (size_t i = n; i > 0; --i) {
			T x = d[i - 1] - e[i - 1];
			if (x != T(0))
				w.add(i - 1, x);
			e[i - 1] += x;
		}
		if (c.chance(1, 3)) {
			size_t at = c.below(n);
			T x = Num<T>::gen(c);
			w.add(at, x);
			e[at] += x;
		}
	}
	w.sort();
	sortedForm(w, e, "the other one, sorted");
	T dot = 0, norm2 = 0;
	for (size_t i = 0; i < n; ++i) {
		dot += d[i] * Num<T>::conj(e[i]);
		norm2 += d[i] * Num<T>::conj(d[i]);
	}
	c.labelIf(d == e, "equal");
	CHECK((v == w) == (d == e), "compared " << (v == w) << " want " << (d == e) << ": " << show(d) << " and " << show(e));
	CHECK((w == v) == (d == e), "compared the other way " << (w == v));
	CHECK(v.scalarProduct(w) == dot && v * w == dot, "scalar product " << v * w << " want " << dot);
	double nn = std::abs(PsimagLite::norm(v));
	CHECK(std::fabs(nn - std::sqrt(std::abs(norm2))) <= 1e-13 * (1 + nn), "norm " << nn << " of " << norm2);
	SparseVectorType longer(n + 1);
	for (size_t i = 0; i < n; ++i)
		if (d[i] != T(0))
			longer.add(i, d[i]);
	longer.sort();
	CHECK(!(longer == v), "equal to a longer one");
}

PROP(realVectors, 2) { history<double>(c); }
PROP(complexVectors, 2) { history<std::complex<double>>(c); }

template <typename T> static void checkRow(const PsimagLite::CrsMatrix<T>& m, size_t row, const std::vector<std::vector<T>>& sums, const std::vector<std::vector<char>>& touched)
{
	size_t k = m.getRowPtr(row);
	for (size_t j = 0; j < touched[row].size(); ++j) {
		if (!touched[row][j])
			continue;
		CHECK((int)k < m.getRowPtr(row + 1), "row " << row << " has nothing stored for column " << j);
		CHECK((size_t)m.getCol(k) == j && m.getValue(k) == sums[row][j], "row " << row << " stores " << m.getCol(k) << " " << m.getValue(k) << " want " << j << " " << sums[row][j]);
		++k;
	}
	CHECK((int)k == m.getRowPtr(row + 1), "row " << row << " stores more than was added");
}

template <typename T> static void rows(pbt::Ctx& c)
{
	typedef PsimagLite::CrsMatrix<T> CrsMatrixType;
	typedef typename PsimagLite::Vector<T>::Type VectorType;
	const bool                       large = c.chance(1, 300);
	std::unique_ptr<pbt::Ctx::Bulk> bulk(large ? new pbt::Ctx::Bulk(c) : nullptr);
	c.labelIf(large, "large");
	size_t nr = 1 + c.below(4), nc = 1 + c.below(large ? 300 : 7);
	CrsMatrixType a, b;
	a.resize(nr, nc);
	b.resize(nr, nc);
	size_t cache = c.below(large ? 200 : 5);
	PsimagLite::SparseRowCached<CrsMatrixType> cached(cache);
	std::vector<std::vector<T>> sums(nr, std::vector<T>(nc, T(0)));
	std::vector<std::vector<char>> touched(nr, std::vector<char>(nc, 0));
	std::string log = std::to_string(nr) + "x" + std::to_string(nc) + " cache " + std::to_string(cache) + ":";
	VectorType y(nc);
	for (T& x : y)
		x = Num<T>::gen(c);
	size_t ca = 0, cb = 0;
	for (size_t row = 0; row < nr; ++row) {
		a.setRow(row, ca);
		b.setRow(row, cb);
		PsimagLite::SparseRow<CrsMatrixType> r;
		size_t count = c.below(large ? 300 : 9), distinct = 0;
		log += " |";
		T product = 0;
		std::vector<std::pair<size_t, T>> entries;
		for (size_t i = 0; i < count; ++i) {
			size_t col = c.below(nc);
			T x = Num<T>::gen(c);
			log += " " + std::to_string(col);
			r.add(col, x);
			entries.push_back(std::make_pair(col, x));
			if (touched[row][col])
				c.nontrivial();
			distinct += !touched[row][col];
			touched[row][col] = 1;
			sums[row][col] += x;
			product += x * y[col];
		}
		DESC(log);
		CHECK(r.matrixVectorProduct(y) == product, "product of row " << row << " is " << r.matrixVectorProduct(y) << " want " << product);
		CHECK(r.finalize(y) == product, "row " << row << " finalized with a vector");
		size_t got = r.finalize(a);
		CHECK(got == distinct, "row " << row << " has " << got << " entries want " << distinct);
		ca += got;
		// the values are still with their columns
		CHECK(r.matrixVectorProduct(y) == product, "product of row " << row << " after finalizing it is " << r.matrixVectorProduct(y) << " want " << product);
		// the cached one is used for all the rows
		if (c.flip()) {
			for (auto& e : entries)
				cached.add(e.first, e.second);
			CHECK(cached.matrixVectorProduct(y) == product, "cached product of row " << row);
		}
		for (auto& e : entries)
			cached.add(e.first, e.second);
		got = cached.finalize(b);
		CHECK(got == distinct, "cached row " << row << " has " << got << " entries want " << distinct);
		cb += got;
	}
	a.setRow(nr, ca);
	b.setRow(nr, cb);
	a.checkValidity();
	b.checkValidity();
	CHECK(a.nonZeros() == ca && b.nonZeros() == cb, "stored " << a.nonZeros() << " and " << b.nonZeros());
	for (size_t row = 0; row < nr; ++row) {
		checkRow(a, row, sums, touched);
		checkRow(b, row, sums, touched);
	}
}

PROP(realRows, 1) { rows<double>(c); }
PROP(complexRows, 1) { rows<std::complex<double>>(c); }

PBT_MAIN
