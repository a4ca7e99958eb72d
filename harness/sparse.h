#pragma once
#include "CrsMatrix.h"
#include "refmat.h"
using PsimagLite::CrsMatrix;
using PsimagLite::Matrix;
typedef std::complex<double> Cd;

// Reads a sparse matrix entry by entry through its public accessors and checks that the
// representation is a valid compressed-row one.
template <typename T> RM<T> readCrs(const CrsMatrix<T>& m, const char* what)
{
	RM<T> x(m.rows(), m.cols());
	if (m.rows() == 0)
		return x;
	CHECK(m.getRowPtr(0) == 0, what << ": first row pointer is " << m.getRowPtr(0));
	size_t total = m.nonZeros();
	CHECK(static_cast<size_t>(m.getRowPtr(m.rows())) == total,
	      what << ": last row pointer " << m.getRowPtr(m.rows()) << " is not the entry count " << total);
	std::vector<char> seen(m.cols());
	for (size_t i = 0; i < m.rows(); ++i) {
		CHECK(m.getRowPtr(i) <= m.getRowPtr(i + 1), what << ": row pointers decrease at row " << i);
		std::fill(seen.begin(), seen.end(), 0);
		for (int k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) {
			CHECK(k >= 0 && static_cast<size_t>(k) < total, what << ": entry index out of range");
			int col = m.getCol(k);
			CHECK(col >= 0 && static_cast<size_t>(col) < m.cols(),
			      what << ": column " << col << " out of range in row " << i);
			CHECK(!seen[col], what << ": column " << col << " twice in row " << i);
			seen[col] = 1;
			x(i, col) = m.getValue(k);
		}
	}
	return x;
}

template <typename T> Matrix<T> toLib(const RM<T>& m)
{
	Matrix<T> x(m.r, m.c);
	for (size_t i = 0; i < m.r; ++i)
		for (size_t j = 0; j < m.c; ++j)
			x(i, j) = m(i, j);
	return x;
}

template <typename T> RM<T> fromLib(const Matrix<T>& m)
{
	RM<T> x(m.rows(), m.cols());
	for (size_t i = 0; i < x.r; ++i)
		for (size_t j = 0; j < x.c; ++j)
			x(i, j) = m(i, j);
	return x;
}

// build by the documented protocol: setRow, pushCol, pushValue, final setRow.
// columns within a row are pushed in a generated order
template <typename T>
void pushBuild(CrsMatrix<T>& m, const RM<T>& a, pbt::Ctx& c, bool explicitZeros = false, bool shuffle = true)
{
	m.resize(a.r, a.c);
	size_t counter = 0;
	std::unique_ptr<pbt::Ctx::Bulk> bulk(a.r * a.c > 150 ? new pbt::Ctx::Bulk(c) : nullptr);
	for (size_t i = 0; i < a.r; ++i) {
		m.setRow(i, counter);
		std::vector<size_t> cols;
		for (size_t j = 0; j < a.c; ++j)
			if (a(i, j) != T(0) || (explicitZeros && c.chance(1, 4)))
				cols.push_back(j);
		if (shuffle)
			for (size_t k = 1; k < cols.size(); ++k)
				std::swap(cols[k], cols[k - c.below(k + 1)]);
		for (size_t j : cols) {
			m.pushCol(j);
			m.pushValue(a(i, j));
			++counter;
		}
	}
	m.setRow(a.r, counter);
	if (a.r > 0 && a.c > 0)
		m.checkValidity();
}
