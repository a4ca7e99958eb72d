// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 150000
// PBT-THOROUGH: 2500000
// PBT-RULE: a case writes generated objects (all shapes including empty, full or reduced stream precision) to a text stream, or a generated sequence of labelled items to a text file, and reads them back
// PBT-RULE: into used targets with a generated sequence of labelled reads, levels and rewinds checked against a token-list model; non-trivial = an object of four or more elements, or three or more labelled reads
#include "CrsMatrix.h"
#include "Io/IoSimple.h"
#include "Matrix.h"
#include "Stack.h"
#include "pbt.h"
#include <fcntl.h>
#include <memory>
#include <stack>

using PsimagLite::CrsMatrix;
using PsimagLite::IoSimple;
using PsimagLite::Matrix;
using PsimagLite::operator<<;
using PsimagLite::operator>>;
typedef std::complex<double> Cplx;

static int prec = 17;

// text with less than full precision
inline bool close1(double a, double b)
{
	if (prec >= 17)
		return a == b;
	return std::abs(a - b) <= (0.5 * std::pow(10.0, 1 - prec) + 4e-16) * std::abs(b);
}
template <typename T> typename std::enable_if<std::is_integral<T>::value, bool>::type near1(T a, T b) { return a == b; }
inline bool near1(double a, double b) { return close1(a, b); }
inline bool near1(const Cplx& a, const Cplx& b) { return close1(a.real(), b.real()) && close1(a.imag(), b.imag()); }
inline bool near1(const std::string& a, const std::string& b) { return a == b; }
template <typename A, typename B> bool near1(const std::pair<A, B>& a, const std::pair<A, B>& b)
{
	return near1(a.first, b.first) && near1(a.second, b.second);
}
template <typename T> bool near1(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (!near1(a[i], b[i]))
			return false;
	return true;
}
template <typename T> bool near1(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j)
			if (!near1(a(i, j), b(i, j)))
				return false;
	return true;
}
template <typename T> bool near1(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros())
		return false;
	if (a.rows() == 0)
		return true;
	for (size_t i = 0; i <= a.rows(); ++i)
		if (a.getRowPtr(i) != b.getRowPtr(i))
			return false;
	for (int k = 0; k < a.getRowPtr(a.rows()); ++k)
		if (a.getCol(k) != b.getCol(k) || !near1(a.getValue(k), b.getValue(k)))
			return false;
	return true;
}
template <typename T> bool near1(std::stack<T> a, std::stack<T> b)
{
	if (a.size() != b.size())
		return false;
	for (; !a.empty(); a.pop(), b.pop())
		if (!near1(a.top(), b.top()))
			return false;
	return true;
}

template <typename T> typename std::enable_if<std::is_integral<T>::value>::type gen(pbt::Ctx& c, T& x)
{
	x = static_cast<T>(c.chance(1, 4) ? c.bits64() : static_cast<uint64_t>(c.sint(100)));
}
inline void gen(pbt::Ctx& c, double& x)
{
	switch (c.weighted({ 4, 3, 1 })) {
	case 0:
		x = c.sint(1000) / 8.0;
		break;
	case 1:
		x = c.unit() * std::pow(10.0, c.sint(20)) / 3;
		break;
	default:
		x = c.pickOf({ 0.0, 1e-300, 1.7e308, -1.7e308, 1.0 / 3, 123456789012345.0 });
	}
}
inline void gen(pbt::Ctx& c, Cplx& x)
{
	double a, b;
	gen(c, a);
	gen(c, b);
	x = Cplx(a, b);
}
inline void gen(pbt::Ctx& c, std::string& x)
{
	x.clear();
	size_t n = c.bulk() ? c.skew(1, 10) : c.skewRare(1, 10, 300, 200);
	for (size_t i = 0; i < n; ++i)
		x += c.pickOf<char>({ 'q', '=', '0', '-', '(', ',', 'z' });
}
template <typename T> void gen(pbt::Ctx& c, Matrix<T>& m)
{
	bool   big = !c.bulk() && c.chance(1, 200);
	size_t r = big ? c.skew(0, 40) : c.skew(0, 5), k = big ? c.skew(0, 40) : c.skew(0, 5);
	m.clear();
	m.resize(r, k);
	std::unique_ptr<pbt::Ctx::Bulk> b(big ? new pbt::Ctx::Bulk(c) : nullptr);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < k; ++j)
			gen(c, m(i, j));
}
template <typename T> void gen(pbt::Ctx& c, CrsMatrix<T>& m)
{
	bool   big = !c.bulk() && c.chance(1, 200);
	size_t r = big ? c.skew(0, 60) : c.skew(0, 5), k = big ? c.skew(1, 60) : c.skew(1, 5);
	m = CrsMatrix<T>();
	if (r == 0)
		return;
	std::unique_ptr<pbt::Ctx::Bulk> b(big ? new pbt::Ctx::Bulk(c) : nullptr);
	m.resize(r, k);
	size_t   counter = 0;
	unsigned dens = c.below(4);
	for (size_t i = 0; i < r; ++i) {
		m.setRow(i, counter);
		for (size_t j = 0; j < k; ++j) {
			if (c.below(4) >= dens)
				continue;
			T v;
			gen(c, v);
			m.pushCol(j);
			m.pushValue(v);
			++counter;
		}
	}
	m.setRow(r, counter);
}
template <typename A, typename B> void gen(pbt::Ctx& c, std::pair<A, B>& x)
{
	gen(c, x.first);
	gen(c, x.second);
}
template <typename T> void gen(pbt::Ctx& c, std::vector<T>& x)
{
	bool   big = !c.bulk() && c.chance(1, 200);
	size_t n = big ? c.skew(0, 1500) : c.bulk() ? c.skew(0, 4) : c.skew(0, 9);
	x.clear();
	std::unique_ptr<pbt::Ctx::Bulk> b(big ? new pbt::Ctx::Bulk(c) : nullptr);
	for (size_t i = 0; i < n; ++i) {
		T t;
		gen(c, t);
		x.push_back(t);
	}
}
template <typename T> void gen(pbt::Ctx& c, std::stack<T>& x)
{
	x = std::stack<T>();
	bool   big = !c.bulk() && c.chance(1, 200);
	size_t n = big ? c.skew(0, 600) : c.skew(0, 5);
	std::unique_ptr<pbt::Ctx::Bulk> b(big ? new pbt::Ctx::Bulk(c) : nullptr);
	for (size_t i = 0; i < n; ++i) {
		T t;
		gen(c, t);
		x.push(t);
	}
}

template <typename T> size_t weightOf(const T& x) { return x.size(); }
template <typename T> size_t weightOf(const Matrix<T>& x) { return x.rows() * x.cols(); }
template <typename T> size_t weightOf(const CrsMatrix<T>& x) { return x.nonZeros(); }

static void precision(pbt::Ctx& c) { prec = c.chance(1, 4) ? c.range(3, 15) : 17; }

template <typename T> void stream(pbt::Ctx& c, const char* type)
{
	T a, b, used1, used2;
	gen(c, a);
	gen(c, b);
	gen(c, used1);
	gen(c, used2);
	precision(c);
	std::stringstream s;
	s.precision(prec);
	s << a;
	if (c.flip())
		s << "\n";
	else
		s << " ";
	s << b;
	DESC("two objects of type " << type << " with " << weightOf(a) << " and " << weightOf(b) << " elements, precision " << prec
	                            << ", into targets with " << weightOf(used1) << " and " << weightOf(used2));
	c.label(type);
	c.labelIf(weightOf(a) == 0, "empty");
	if (weightOf(a) >= 4)
		c.nontrivial();
	s >> used1;
	CHECK(!s.fail(), type << ": the stream failed");
	CHECK(near1(used1, a), type << " read back differs from the one written; text was: " << s.str());
	s >> used2;
	CHECK(!s.fail(), type << ": the stream failed on the second object");
	CHECK(near1(used2, b), "second " << type << " read back differs; text was: " << s.str());
}

PROP(streams, 6)
{
	switch (c.below(12)) {
	case 0: return stream<Matrix<double>>(c, "Matrix<double>");
	case 1: return stream<Matrix<Cplx>>(c, "Matrix<complex>");
	case 2: return stream<Matrix<int>>(c, "Matrix<int>");
	case 3: return stream<CrsMatrix<double>>(c, "CrsMatrix<double>");
	case 4: return stream<CrsMatrix<Cplx>>(c, "CrsMatrix<complex>");
	case 5: return stream<std::vector<double>>(c, "vector<double>");
	case 6: return stream<std::vector<Cplx>>(c, "vector<complex>");
	case 7: return stream<std::vector<SizeType>>(c, "vector<SizeType>");
	case 8: return stream<std::vector<std::pair<int, double>>>(c, "vector<pair>");
	case 9: return stream<std::vector<std::string>>(c, "vector<string>");
	case 10: return stream<std::vector<std::vector<double>>>(c, "vector<vector<double>>");
	default: return stream<std::stack<double>>(c, "stack<double>");
	}
}

// text that ends too early is noticed
template <typename T> void cutStream(pbt::Ctx& c, const char* type)
{
	T a, used;
	gen(c, a);
	gen(c, used);
	std::stringstream s;
	s.precision(17);
	s << a;
	std::vector<std::string> tokens;
	for (std::string t; s >> t;)
		tokens.push_back(t);
	size_t      n = c.below(tokens.size());
	std::string text;
	for (size_t i = 0; i < n; ++i)
		text += tokens[i] + " ";
	DESC(type << " cut to its first " << n << " of " << tokens.size() << " words");
	if (n >= 2)
		c.nontrivial();
	std::stringstream s2(text);
	bool              threw = pbt::throws([&]() { s2 >> used; });
	CHECK(threw || s2.fail(), type << " cut to its first " << n << " of " << tokens.size() << " words was read without complaint");
}

PROP(cutText, 2)
{
	switch (c.below(7)) {
	case 0: return cutStream<Matrix<double>>(c, "Matrix<double>");
	case 1: return cutStream<Matrix<Cplx>>(c, "Matrix<complex>");
	case 2: return cutStream<CrsMatrix<double>>(c, "CrsMatrix<double>");
	case 3: return cutStream<CrsMatrix<Cplx>>(c, "CrsMatrix<complex>");
	case 4: return cutStream<std::vector<double>>(c, "vector<double>");
	case 5: return cutStream<std::vector<std::string>>(c, "vector<string>");
	default: return cutStream<std::stack<double>>(c, "stack<double>");
	}
}

template <typename T> void viaDescriptor(pbt::Ctx& c)
{
	std::vector<Matrix<T>> v;
	size_t                 n = c.skew(1, 4);
	std::string            file = pbt::scratch() + "/fd";
	int                    fd = ::open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	for (size_t i = 0; i < n; ++i) {
		Matrix<T> m;
		do
			gen(c, m);
		while (m.rows() * m.cols() == 0 && !c.replaying());
		if (m.rows() * m.cols() == 0) {
			m.clear();
			m.resize(1, 1);
		}
		v.push_back(m);
		m.print(fd);
	}
	DESC(n << " matrices through a file descriptor");
	if (n > 1)
		c.nontrivial();
	lseek(fd, 0, SEEK_SET);
	for (size_t i = 0; i < n; ++i) {
		Matrix<T> m;
		gen(c, m);
		m.read(fd);
		CHECK(near1(m, v[i]), "matrix " << i << " read from a file descriptor differs");
	}
	::close(fd);
}

PROP(descriptor, 1)
{
	prec = 17;
	if (c.flip())
		viaDescriptor<double>(c);
	else
		viaDescriptor<Cplx>(c);
}

// ------------------------------------------------------------------ labelled files
struct Item {
	enum Kind { INT, REAL, COMPLEX, VEC, CVEC, MAT, CRS, STACK, LINE, NKINDS } kind;
	std::string           label;
	int                   i;
	double                r;
	Cplx                  z;
	std::vector<double>   v;
	std::vector<Cplx>     cv;
	Matrix<double>        m;
	CrsMatrix<double>     s;
	std::stack<double>    st;
};

struct Labelled {
	pbt::Ctx&                c;
	std::string              file = pbt::scratch() + "/l.txt";
	std::vector<Item>        items;
	std::unique_ptr<IoSimple::In> in;
	size_t                   pos = 0; // first item not yet passed
	std::vector<std::string> alphabet { "A", "AB", "#V", "Energy", "Energy2" };

	Labelled(pbt::Ctx& c_)
	    : c(c_)
	{
		precision(c);
		if (c.chance(1, 40))
			for (std::string& s : alphabet)
				s = s.substr(0, 1) + std::string(c.range(1, 200), 'x') + s.substr(1);
		size_t n = c.skewRare(1, 12, 80, 100);
		// a series: many instances of one label
		bool series = (n > 12 && c.flip());
		if (series)
			alphabet.resize(1);
		std::unique_ptr<IoSimple::Out> out;
		if (c.flip()) {
			out.reset(new IoSimple::Out(file));
		} else {
			out.reset(new IoSimple::Out());
			out->open(file, std::ios_base::out | std::ios_base::trunc);
		}
		out->setPrecision(prec);
		CHECK(out->filename() == file, "filename() of the output is " << out->filename());
		for (size_t k = 0; k < n; ++k) {
			if (k > 0 && c.chance(1, 10)) { // close and append
				out->close();
				out->open(file, std::ios_base::out | std::ios_base::app);
				out->setPrecision(prec);
				c.label("appended");
			}
			Item x;
			x.kind  = static_cast<Item::Kind>(c.below(series ? 3 : Item::NKINDS));
			x.label = c.pick(alphabet);
			gen(c, x.i);
			gen(c, x.r);
			gen(c, x.z);
			switch (x.kind) {
			case Item::INT: out->write(x.i, x.label); break;
			case Item::REAL: out->write(x.r, x.label); break;
			case Item::COMPLEX: out->write(x.z, x.label); break;
			case Item::VEC:
				gen(c, x.v);
				out->write(x.v, x.label);
				break;
			case Item::CVEC:
				gen(c, x.cv);
				out->write(x.cv, x.label);
				break;
			case Item::MAT:
				gen(c, x.m);
				out->write(x.m, x.label);
				break;
			case Item::CRS:
				gen(c, x.s);
				out->write(x.s, x.label);
				break;
			case Item::STACK:
				gen(c, x.st);
				out->write(x.st, x.label);
				break;
			default:
				x.label = "zz";
				if (c.flip())
					out->printline("some text 12 (3,4)");
				else
					(*out) << "other text\n";
			}
			items.push_back(x);
			c.log << x.label << ":" << x.kind << " ";
		}
		out.reset();
		if (c.chance(1, 4)) { // files from elsewhere may lack the final newline
			std::string   all;
			{
				std::ifstream     f(file);
				std::stringstream ss;
				ss << f.rdbuf();
				all = ss.str();
			}
			while (!all.empty() && isspace(all.back()))
				all.pop_back();
			std::ofstream f(file, std::ios::trunc);
			f << all;
			c.label("no final newline");
		}
		if (c.flip())
			in.reset(new IoSimple::In(file));
		else {
			in.reset(new IoSimple::In());
			in->open(file);
		}
	}

	bool scalar(const Item& x) const { return x.kind <= Item::COMPLEX; }

	static bool prefix(const std::string& s, const std::string& p) { return s.substr(0, p.size()) == p; }

	// the token that carries the label of an item, as found in the file
	std::string token(const Item& x) const { return scalar(x) ? x.label + "=" : x.label; }

	// index of the occurrence number level counted from position start, or items.size()
	size_t occurrence(const std::string& s, size_t start, long level, size_t* count = nullptr) const
	{
		size_t found = 0, last = items.size(), wanted = items.size();
		for (size_t i = start; i < items.size(); ++i) {
			if (items[i].kind == Item::LINE || !prefix(token(items[i]), s))
				continue;
			if (static_cast<long>(found) == level && wanted == items.size())
				wanted = i;
			last = i;
			++found;
		}
		if (count)
			*count = found;
		return level < 0 ? last : wanted;
	}

	void rewind()
	{
		c.log << "rewind; ";
		in->rewind();
		pos = 0;
	}

	// after a search that failed the end of the file was reached
	bool failed(size_t i, bool threw, const std::string& what)
	{
		CHECK(threw == (i == items.size()), what << (threw ? " failed although the label is there" : " succeeded although the label is absent"));
		if (threw)
			rewind();
		return threw;
	}

	void step()
	{
		unsigned w = c.weighted({ 4, 6, 2, 1, 1 });
		if (w == 3)
			return rewind();
		if (w == 4) {
			std::string s = c.pick(alphabet);
			size_t      n = 0;
			occurrence(s, pos, 0, &n);
			size_t m = in->count(s);
			c.log << "count " << s << "; ";
			CHECK(m == n, "count(" << s << ") returned " << m << " instead of " << n);
			pos = 0;
			return;
		}
		long level = c.chance(1, 4) ? -1 : c.skew(0, items.size() > 12 ? 30 : 3);
		if (w == 0) { // a number
			std::string s = c.pick(alphabet) + "=";
			size_t      i = occurrence(s, level < 0 ? 0 : pos, level);
			c.log << "readline " << s << " level " << level << "; ";
			double x = -7;
			Cplx   z = -7;
			bool   wantComplex = (i < items.size() && items[i].kind == Item::COMPLEX);
			bool   intRead     = (i < items.size() && items[i].kind == Item::INT);
			int    k = -7;
			// readline parses every earlier occurrence too, which must not matter
			bool t = pbt::throws([&]() {
				if (wantComplex)
					in->readline(z, s, level);
				else if (intRead)
					in->readline(k, s, level);
				else
					in->readline(x, s, level);
			});
			if (failed(i, t, "readline"))
				return;
			if (wantComplex)
				CHECK(near1(z, items[i].z), "readline " << s << " gave " << z << " instead of " << items[i].z);
			else if (intRead)
				CHECK(k == items[i].i, "readline " << s << " gave " << k << " instead of " << items[i].i);
			else
				CHECK(near1(x, items[i].r), "readline " << s << " gave " << x << " instead of " << items[i].r);
			pos = i + 1;
			return;
		}
		if (w == 2) { // advance, then read the next one
			std::string s = c.pick(alphabet);
			size_t      n = 0;
			size_t      i = occurrence(s, level < 0 ? 0 : pos, level, &n);
			c.log << "advance " << s << " level " << level << "; ";
			std::pair<std::string, SizeType> r;
			bool t = pbt::throws([&]() { r = in->advance(s, level, true); });
			if (failed(i, t, "advance"))
				return;
			CHECK(prefix(r.first, s), "advance to " << s << " found " << r.first);
			CHECK(r.second == (level < 0 ? n : static_cast<size_t>(level)), "advance to " << s << " counted " << r.second);
			pos = (level < 0) ? occurrence(s, 0, n - 1) : i + 1;
			if (level >= 0)
				return;
			// the last one is now the next one
			return readItem(s, 0);
		}
		readItem(c.pick(alphabet), level);
	}

	void readItem(const std::string& s, long level)
	{
		size_t i = occurrence(s, level < 0 ? 0 : pos, level);
		c.log << "read " << s << " level " << level << "; ";
		if (i == items.size()) {
			std::vector<double> x;
			gen(c, x);
			bool t = pbt::throws([&]() { in->read(x, s, level, true); });
			failed(i, t, "read");
			return;
		}
		const Item& x = items[i];
		if (x.kind == Item::VEC) {
			std::vector<double> y;
			gen(c, y);
			in->read(y, s, level);
			CHECK(near1(y, x.v), "vector at " << s << " has " << y.size() << " elements or other values, instead of " << x.v.size());
		} else if (x.kind == Item::CVEC) {
			std::vector<Cplx> y;
			gen(c, y);
			in->read(y, s, level);
			CHECK(near1(y, x.cv), "complex vector at " << s);
		} else if (x.kind == Item::MAT) {
			Matrix<double> y;
			gen(c, y);
			in->read(y, s, level);
			CHECK(near1(y, x.m), "matrix at " << s);
		} else if (x.kind == Item::CRS) {
			CrsMatrix<double> y;
			gen(c, y);
			in->read(y, s, level);
			CHECK(near1(y, x.s), "sparse matrix at " << s);
		} else if (x.kind == Item::STACK) {
			std::stack<double> y;
			gen(c, y);
			in->read(y, s, level);
			CHECK(near1(y, x.st), "stack at " << s);
		} else {
			if (level < 0)
				return; // a number has to be read with readline
			in->advance(s, level);
		}
		pos = i + 1;
		CHECK(!in->eof() || i + 1 == items.size(), "end of file before the last item");
	}
};

PROP(labelledFile, 6)
{
	Labelled l(c);
	DESC("; ");
	size_t n = c.skew(1, 14);
	std::stringstream sink;
	std::streambuf*   old = std::cerr.rdbuf(sink.rdbuf());
	struct Restore {
		std::streambuf* o;
		~Restore() { std::cerr.rdbuf(o); }
	} restore { old };
	for (size_t i = 0; i < n; ++i)
		l.step();
	if (n >= 3 && l.items.size() >= 3)
		c.nontrivial();
}

PROP(absentFile, 1)
{
	std::string file = pbt::scratch() + "/absent";
	DESC("absent file");
	CHECK(pbt::throws([&]() { IoSimple::In in(file); }), "opening an absent file for reading was not an error");
	IoSimple::In in2;
	CHECK(pbt::throws([&]() { in2.open(file); }), "opening an absent file for reading was not an error");
	CHECK(pbt::throws([&]() { IoSimple::Out out(file + "/below/x"); }), "opening a file in an absent folder was not an error");
}

PBT_MAIN
