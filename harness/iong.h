// generators, models and bitwise comparisons for the binary-file checks
#pragma once
#include "CrsMatrix.h"
#include "Io/IoNg.h"
#include "Matrix.h"
#include "pbt.h"
#include <memory>
#include <set>
#include <stack>

using PsimagLite::CrsMatrix;
using PsimagLite::IoNg;
using PsimagLite::IoNgSerializer;
using PsimagLite::Matrix;
typedef std::complex<double> Cplx;
typedef std::complex<float>  CplxF;

enum PlainEnum { PE_A, PE_B = 5, PE_BIG = 70000, PE_LAST = 2000000000 };
enum class ByteEnum : unsigned char { A, B = 7, C = 255 };
enum class SignedEnum : int { A = -70000, B = -1, C = 0, D = 300, E = 2147483647 };
enum class ShortEnum : unsigned short { A = 0, B = 256, C = 65535 };

struct QuietHdf5 {
	QuietHdf5() { IoNg::dontPrintDebug(); }
};
static QuietHdf5 quietHdf5_;

// the serializer reports refusals on cerr; silence it while a case runs
struct QuietCerr {
	std::streambuf*   old;
	std::stringstream sink;
	QuietCerr()
	    : old(std::cerr.rdbuf(sink.rdbuf()))
	{ }
	~QuietCerr() { std::cerr.rdbuf(old); }
};

// ------------------------------------------------------------- bitwise equality
template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, bool>::type
bitEq(const T& a, const T& b)
{
	return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename T> bool bitEq(const std::complex<T>& a, const std::complex<T>& b)
{
	return bitEq(a.real(), b.real()) && bitEq(a.imag(), b.imag());
}
inline bool bitEq(const std::string& a, const std::string& b) { return a == b; }
template <typename A, typename B> bool bitEq(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <typename T> bool bitEq(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j)
			if (!bitEq(a(i, j), b(i, j)))
				return false;
	return true;
}
template <typename T> bool bitEq(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros())
		return false;
	if (a.rows() == 0)
		return true;
	for (size_t i = 0; i <= a.rows(); ++i)
		if (a.getRowPtr(i) != b.getRowPtr(i))
			return false;
	for (int k = 0; k < a.getRowPtr(a.rows()); ++k)
		if (a.getCol(k) != b.getCol(k) || !bitEq(a.getValue(k), b.getValue(k)))
			return false;
	return true;
}
template <typename T> bool bitEq(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (!bitEq(static_cast<T>(a[i]), static_cast<T>(b[i])))
			return false;
	return true;
}
template <typename T> bool bitEq(std::stack<T> a, std::stack<T> b)
{
	if (a.size() != b.size())
		return false;
	for (; !a.empty(); a.pop(), b.pop())
		if (!bitEq(a.top(), b.top()))
			return false;
	return true;
}
template <typename A, typename B> bool bitEq(const std::pair<A, B>& a, const std::pair<A, B>& b)
{
	return bitEq(a.first, b.first) && bitEq(a.second, b.second);
}

// ------------------------------------------------------------- generators
template <typename T>
typename std::enable_if<std::is_integral<T>::value>::type gen(pbt::Ctx& c, T& x)
{
	switch (c.weighted({ 4, 1, 1, 3 })) {
	case 0:
		x = static_cast<T>(c.sint(20));
		break;
	case 1:
		x = std::numeric_limits<T>::max();
		break;
	case 2:
		x = std::numeric_limits<T>::min();
		break;
	default:
		x = static_cast<T>(c.bits64());
	}
}
inline void gen(pbt::Ctx& c, bool& x) { x = c.flip(); }
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value>::type gen(pbt::Ctx& c, T& x)
{
	switch (c.weighted({ 4, 2, 3 })) {
	case 0:
		x = static_cast<T>(c.sint(1000)) / 8;
		break;
	case 1:
		x = c.pickOf<T>({ T(0), -T(0), std::numeric_limits<T>::infinity(),
		                  -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(),
		                  std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(),
		                  std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(),
		                  T(1) / T(3) });
		break;
	default: {
		uint64_t b = c.bits64();
		std::memcpy(&x, &b, sizeof(T));
	}
	}
}
inline void gen(pbt::Ctx& c, PlainEnum& x) { x = c.pickOf({ PE_A, PE_B, PE_BIG, PE_LAST }); }
inline void gen(pbt::Ctx& c, ByteEnum& x) { x = c.pickOf({ ByteEnum::A, ByteEnum::B, ByteEnum::C }); }
inline void gen(pbt::Ctx& c, ShortEnum& x) { x = c.pickOf({ ShortEnum::A, ShortEnum::B, ShortEnum::C }); }
inline void gen(pbt::Ctx& c, SignedEnum& x)
{
	x = c.pickOf({ SignedEnum::C, SignedEnum::A, SignedEnum::B, SignedEnum::D, SignedEnum::E });
}
template <typename T> void gen(pbt::Ctx& c, std::complex<T>& x)
{
	T a, b;
	gen(c, a);
	gen(c, b);
	x = std::complex<T>(a, b);
}
inline void gen(pbt::Ctx& c, std::string& x)
{
	size_t n = c.skew(0, 40);
	x.clear();
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (!c.bulk() && c.chance(1, 50)) {
		n = c.skew(41, 70000);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("string of more than 40 bytes");
	}
	for (size_t i = 0; i < n; ++i)
		x += c.chance(1, 6) ? c.pickOf<char>({ '\0', '\n', ' ', '/', '\t', '\xff', '\x80' })
		                    : static_cast<char>('a' + c.below(26));
}
template <typename T> void gen(pbt::Ctx& c, std::vector<T>& x);
template <typename A, typename B> void gen(pbt::Ctx& c, std::pair<A, B>& x);
template <typename T> void gen(pbt::Ctx& c, Matrix<T>& m)
{
	size_t r = c.skew(0, 5), k = c.skew(0, 5);
	m.clear();
	if (r == 0 || k == 0)
		r = k = 0;
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (!c.bulk() && c.chance(1, 50)) {
		r = c.skew(1, 80);
		k = c.skew(1, 80);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("matrix of up to 80 by 80");
	}
	m.resize(r, k);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < k; ++j)
			gen(c, m(i, j));
}
template <typename T> void gen(pbt::Ctx& c, CrsMatrix<T>& m)
{
	size_t r = c.skew(0, 5), k = c.skew(1, 5);
	m = CrsMatrix<T>();
	if (r == 0)
		return;
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (!c.bulk() && c.chance(1, 50)) {
		r = c.skew(1, 100);
		k = c.skew(1, 100);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("sparse matrix of up to 100 by 100");
	}
	m.resize(r, k);
	size_t counter = 0;
	unsigned dens = c.below(4);
	for (size_t i = 0; i < r; ++i) {
		m.setRow(i, counter);
		for (size_t j = 0; j < k; ++j) {
			if (c.below(4) >= dens)
				continue;
			T v;
			gen(c, v);
			m.pushCol(j);
			m.pushValue(v);
			++counter;
		}
	}
	m.setRow(r, counter);
}
template <typename T> void gen(pbt::Ctx& c, std::stack<T>& x)
{
	x = std::stack<T>();
	size_t n = c.skew(0, 4);
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (!c.bulk() && c.chance(1, 15)) {
		n = c.skew(5, 40);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("stack of more than four");
	}
	for (size_t i = 0; i < n; ++i) {
		T t;
		gen(c, t);
		x.push(t);
	}
}
template <typename A, typename B> void gen(pbt::Ctx& c, std::pair<A, B>& x)
{
	gen(c, x.first);
	gen(c, x.second);
}
template <typename T> void gen(pbt::Ctx& c, std::vector<T>& x)
{
	size_t n = (std::is_arithmetic<T>::value && c.chance(1, 12)) ? c.skew(0, 300) : c.skew(0, 9);
	x.clear();
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (!c.bulk() && c.chance(1, 30)) {
		n = std::is_arithmetic<T>::value ? c.skew(10, 9000) : c.skew(10, 120);
		if (std::is_arithmetic<T>::value && c.chance(1, 20))
			n = c.range(65530, 140000);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("vector of more than nine");
	}
	for (size_t i = 0; i < n; ++i) {
		T t;
		gen(c, t);
		x.push_back(t);
	}
}

// ------------------------------------------------------------- erased values
struct Val {
	enum Kind { DATASET, COMPOSITE };
	const char* type;
	Kind        kind; // stored as one dataset, or as a group
	bool        canOverwrite;
	virtual ~Val() { }
	virtual void write(IoNg::Out& out, const std::string& label, IoNgSerializer::WriteMode mode) const = 0;
	// reads into a used target and compares
	virtual void check(IoNg::In& in, const std::string& label, pbt::Ctx& c, const std::string& when) const = 0;
	virtual void checkS(IoNgSerializer& s, const std::string& label, pbt::Ctx& c, const std::string& when) const = 0;
	// true if the label can be read as this type
	virtual bool readable(IoNg::In& in, const std::string& label) const = 0;
	virtual bool readableS(IoNgSerializer& s, const std::string& label) const = 0;
	virtual bool same(IoNg::In& in, const std::string& label) const = 0;
	virtual std::shared_ptr<Val> another(pbt::Ctx& c) const = 0;
	virtual void object_overwrite(IoNg::Out&, const std::string&) const { }
	virtual bool hasObjectOverwrite() const { return false; }
	virtual bool isReturning() const { return false; } // write() tells whether it was done
	virtual bool writeReturning(IoNg::Out&, const std::string&, IoNgSerializer::WriteMode) const { return true; }
	virtual void vectorEntry(IoNg::Out&, const std::string&, size_t) const = 0;
	virtual void checkLast(IoNg::In&, const std::string&, pbt::Ctx&, const std::string&) const = 0;
	virtual size_t weight() const = 0;
};
typedef std::shared_ptr<Val> PVal;

template <typename T> size_t weightOf(const T&) { return 1; }
template <typename T> size_t weightOf(const std::vector<T>& x) { return x.size(); }
inline size_t weightOf(const std::string& x) { return x.size(); }
template <typename T> size_t weightOf(const Matrix<T>& x) { return x.rows() * x.cols(); }
template <typename T> size_t weightOf(const CrsMatrix<T>& x) { return x.nonZeros(); }
template <typename T> size_t weightOf(const std::stack<T>& x) { return x.size(); }

template <typename T> struct IsObj { enum { True = false }; };
template <typename T> struct IsObj<Matrix<T>> { enum { True = true }; };
template <typename T> struct IsObj<CrsMatrix<T>> { enum { True = true }; };
template <typename T> struct IsStk { enum { True = false }; };
template <typename T> struct IsStk<std::stack<T>> { enum { True = true }; };
template <typename T> struct IsVecObj { enum { True = false }; };
template <typename T> struct IsVecObj<std::vector<T>> { enum { True = IsObj<T>::True }; };

template <typename T> struct ValT : public Val {
	T v;

	void write(IoNg::Out& out, const std::string& label, IoNgSerializer::WriteMode mode) const override
	{
		if constexpr (IsStk<T>::True) {
			T copy = v;
			out.write(copy, label, mode);
		} else {
			out.write(v, label, mode);
		}
	}

	void vectorEntry(IoNg::Out& out, const std::string& label, size_t i) const override
	{
		if constexpr (std::is_arithmetic<T>::value || IsObj<T>::True || std::is_same<T, std::vector<double>>::value
		              || std::is_same<T, std::vector<Cplx>>::value || std::is_same<T, std::vector<int>>::value) {
			if constexpr (IsObj<T>::True)
				out.write(v, label, IoNgSerializer::NO_OVERWRITE);
			else
				out.writeVectorEntry(v, label, i);
		}
	}

	template <typename F> void compare(F f, pbt::Ctx& c, const std::string& label, const std::string& when) const
	{
		T x;
		gen(c, x); // what the target held before
		try {
			f(x);
		} catch (H5::Exception& e) {
			FAIL(when << ": cannot read " << type << " " << label << ": " << e.getDetailMsg());
		} catch (std::exception& e) {
			FAIL(when << ": cannot read " << type << " " << label << ": " << e.what());
		}
		CHECK(bitEq(x, v), when << ": " << type << " at " << label << " differs from what was written last");
	}

	void check(IoNg::In& in, const std::string& label, pbt::Ctx& c, const std::string& when) const override
	{
		compare([&](T& x) { in.read(x, label); }, c, label, when);
	}

	void checkS(IoNgSerializer& s, const std::string& label, pbt::Ctx& c, const std::string& when) const override
	{
		compare(
		    [&](T& x) {
			    if constexpr (IsObj<T>::True)
				    x.read(label, s);
			    else
				    s.read(x, label);
		    },
		    c, label, when);
	}

	void checkLast(IoNg::In& in, const std::string& label, pbt::Ctx& c, const std::string& when) const override
	{
		if constexpr (!IsObj<T>::True && !IsStk<T>::True)
			compare([&](T& x) { in.readLastVectorEntry(x, label); }, c, label, when);
	}

	bool readable(IoNg::In& in, const std::string& label) const override
	{
		T x {};
		return !pbt::throws([&]() { in.read(x, label); });
	}

	bool readableS(IoNgSerializer& s, const std::string& label) const override
	{
		T x {};
		return !pbt::throws([&]() {
			if constexpr (IsObj<T>::True)
				x.read(label, s);
			else
				s.read(x, label);
		});
	}

	bool same(IoNg::In& in, const std::string& label) const override
	{
		T x {};
		return !pbt::throws([&]() { in.read(x, label); }) && bitEq(x, v);
	}

	std::shared_ptr<Val> another(pbt::Ctx& c) const override
	{
		auto p = std::make_shared<ValT<T>>(*this);
		gen(c, p->v);
		return p;
	}

	bool hasObjectOverwrite() const override { return IsVecObj<T>::True || IsObj<T>::True; }
	void object_overwrite(IoNg::Out& out, const std::string& label) const override
	{
		if constexpr (IsVecObj<T>::True || IsObj<T>::True)
			out.overwrite(v, label);
	}
	bool isReturning() const override { return std::is_arithmetic<T>::value && !std::is_same<T, bool>::value; }
	bool writeReturning(IoNg::Out& out, const std::string& label, IoNgSerializer::WriteMode m) const override
	{
		if constexpr (std::is_arithmetic<T>::value && !std::is_same<T, bool>::value)
			return out.serializer().write(label, v, m);
		else
			return true;
	}
	size_t weight() const override { return weightOf(v); }
};

template <typename T> PVal mkv(pbt::Ctx& c, const char* type, Val::Kind k, bool over)
{
	auto p          = std::make_shared<ValT<T>>();
	p->type         = type;
	p->kind         = k;
	p->canOverwrite = over;
	gen(c, p->v);
	return p;
}

inline PVal genVal(pbt::Ctx& c)
{
	const Val::Kind D = Val::DATASET, G = Val::COMPOSITE;
	switch (c.below(41)) {
	case 0: return mkv<int>(c, "int", D, true);
	case 1: return mkv<char>(c, "char", D, true);
	case 2: return mkv<unsigned char>(c, "unsigned char", D, true);
	case 3: return mkv<bool>(c, "bool", D, true);
	case 4: return mkv<short>(c, "short", D, true);
	case 5: return mkv<long>(c, "long", D, true);
	case 6: return mkv<unsigned int>(c, "unsigned int", D, true);
	case 7: return mkv<unsigned short>(c, "unsigned short", D, true);
	case 8: return mkv<unsigned long>(c, "unsigned long", D, true);
	case 9: return mkv<float>(c, "float", D, true);
	case 10: return mkv<double>(c, "double", D, true);
	case 11: return mkv<PlainEnum>(c, "plain enum", D, true);
	case 12: return mkv<ByteEnum>(c, "byte enum class", D, true);
	case 13: return mkv<ShortEnum>(c, "short enum class", D, true);
	case 14: return mkv<SignedEnum>(c, "signed enum class", D, true);
	case 15: return mkv<std::string>(c, "string", D, false);
	case 16: return mkv<std::vector<int>>(c, "vector<int>", D, true);
	case 17: return mkv<std::vector<SizeType>>(c, "vector<SizeType>", D, true);
	case 18: return mkv<std::vector<double>>(c, "vector<double>", D, true);
	case 19: return mkv<std::vector<float>>(c, "vector<float>", D, true);
	case 20: return mkv<std::vector<char>>(c, "vector<char>", D, true);
	case 21: return mkv<std::vector<unsigned char>>(c, "vector<unsigned char>", D, true);
	case 22: return mkv<std::vector<bool>>(c, "vector<bool>", D, true);
	case 23: return mkv<std::vector<Cplx>>(c, "vector<complex<double>>", D, true);
	case 24: return mkv<std::vector<CplxF>>(c, "vector<complex<float>>", D, true);
	case 25: return mkv<std::vector<long>>(c, "vector<long>", D, true);
	case 26: return mkv<std::pair<int, double>>(c, "pair<int,double>", G, true);
	case 27: return mkv<std::pair<double, SizeType>>(c, "pair<double,SizeType>", G, true);
	case 28: return mkv<std::pair<int, Matrix<double>>>(c, "pair<int,Matrix<double>>", G, false);
	case 29: return mkv<std::vector<std::vector<double>>>(c, "vector<vector<double>>", G, true);
	case 30: return mkv<std::vector<std::vector<int>>>(c, "vector<vector<int>>", G, true);
	case 31: return mkv<std::vector<std::vector<Cplx>>>(c, "vector<vector<complex>>", G, true);
	case 32: return mkv<std::vector<std::pair<int, double>>>(c, "vector<pair<int,double>>", G, false);
	case 33: return mkv<std::vector<SignedEnum>>(c, "vector<enum class>", G, false);
	case 34: return mkv<Matrix<double>>(c, "Matrix<double>", G, true);
	case 35: return mkv<Matrix<Cplx>>(c, "Matrix<complex>", G, true);
	case 36: return mkv<CrsMatrix<double>>(c, "CrsMatrix<double>", G, true);
	case 37: return mkv<CrsMatrix<Cplx>>(c, "CrsMatrix<complex>", G, true);
	case 38: return mkv<std::vector<Matrix<double>>>(c, "vector<Matrix<double>>", G, true);
	case 39: return mkv<std::vector<CrsMatrix<Cplx>>>(c, "vector<CrsMatrix<complex>>", G, true);
	default: return mkv<std::stack<Matrix<double>>>(c, "stack<Matrix<double>>", G, false);
	}
}
