// Generators and a reference reader for the typed input language (Ainur)
#pragma once
#include "Ainur/Ainur.h"
#include "Matrix.h"
#include "pbt.h"
#include <complex>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>

typedef std::complex<double> Cplx;
using pbt::Ctx;
using PsimagLite::Ainur;
using PsimagLite::Matrix;

namespace ag {

// std::cerr and std::cout are chatty on malformed input
struct Quiet {
	std::ostringstream o, e;
	std::streambuf *so, *se;
	Quiet() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) { }
	~Quiet()
	{
		std::cout.rdbuf(so);
		std::cerr.rdbuf(se);
	}
};

inline std::string blanks(Ctx& c, size_t maxN)
{
	std::string s;
	for (size_t n = c.skew(0, maxN); n > 0; --n)
		s += c.pickOf<const char*>({ " ", "\t", "\n", "\r\n", "  " });
	return s;
}

// blanks and comments: may stand between any two tokens other than inside a value
inline std::string gap(Ctx& c, bool atLeastOne = false)
{
	static const char* comments[] = { "#", "# a comment", "#int x=3;", "## \"quote", "# [1,2", "#\\nomacro", "#=;", "# x = 3; # again" };
	std::string s;
	size_t n = c.skew(0, 3);
	for (size_t i = 0; i < n; ++i) {
		if (c.chance(1, 4))
			s += std::string(comments[c.below(8)]) + c.pickOf<const char*>({ "\n", "\r\n", "\n\n" });
		else
			s += c.pickOf<const char*>({ " ", "\t", "\n", "\r\n", "   " });
	}
	if (atLeastOne && s.empty())
		s = " ";
	return s;
}

inline std::string identifier(Ctx& c)
{
	static const std::string alpha = "abcdefgxyzABCXYZ", rest = "abcxyzABC0123456789_:";
	std::string s(c.skew(0, 2), '_');
	s += alpha[c.below(alpha.size())];
	for (size_t n = c.skewRare(0, 6, 120, 150); n > 0; --n)
		s += rest[c.below(rest.size())];
	return s;
}

inline std::string typeName(Ctx& c)
{
	if (c.chance(2, 3))
		return c.pickOf<const char*>({ "integer", "real", "string", "vector", "matrix", "vector.real", "x", "int" });
	static const std::string alpha = "abcxyzABC.";
	std::string s(1, "abcXYZ"[c.below(6)]);
	for (size_t n = c.skew(0, 6); n > 0; --n)
		s += alpha[c.below(alpha.size())];
	return s;
}

// ---- text of numbers
inline std::string intText(Ctx& c, bool sign)
{
	long v = c.chance(1, 6) ? (long)c.below(2147483648UL) : (long)c.skew(0, 40000);
	std::string s = std::to_string(v);
	if (c.chance(1, 10))
		s = std::string(c.range(1, 3), '0') + s;
	if (sign && c.chance(1, 3))
		s = "-" + s;
	else if (c.chance(1, 10))
		s = "+" + s;
	return s;
}

inline std::string realText(Ctx& c)
{
	char b[64];
	switch (c.below(6)) {
	case 0:
		return intText(c, true);
	case 1:
		snprintf(b, sizeof b, "%.17g", c.sint(100000) / 777.0);
		return b;
	case 2:
		snprintf(b, sizeof b, "%.*e", (int)c.range(0, 17), c.sint(100000) / 7.0 * std::pow(10.0, (double)c.sint(250)));
		return b;
	case 3:
		snprintf(b, sizeof b, "%s.%ld", c.flip() ? "-" : "", (long)c.skew(0, 9999));
		return b;
	case 4:
		snprintf(b, sizeof b, "%ld.", (long)c.sint(1000));
		return b;
	default:
		snprintf(b, sizeof b, "%ldE%ld", (long)c.sint(99), (long)c.sint(30));
		return b;
	}
}

struct CT {
	std::string text;
	Cplx value;
};
inline CT cplxText(Ctx& c)
{
	switch (c.below(6)) {
	case 0: {
		std::string r = realText(c);
		return { r, Cplx(strtod(r.c_str(), 0), 0) };
	}
	case 1:
		return { "i", Cplx(0, 1) };
	case 2:
		return { "-i", Cplx(0, -1) };
	case 3: {
		std::string r = realText(c);
		return { "i" + r, Cplx(0, strtod(r.c_str(), 0)) };
	}
	default: {
		std::string a = realText(c), b = realText(c);
		std::string m = c.pickOf<const char*>({ "i", " i", " i ", "i " });
		return { a + m + b, Cplx(strtod(a.c_str(), 0), strtod(b.c_str(), 0)) };
	}
	}
}

// ---- text of strings: anything printable but what ends a value or starts a macro
inline std::string strBody(Ctx& c, size_t maxLen, const char* excluded, bool blanksToo)
{
	std::string s;
	size_t n = c.skew(0, maxLen);
	while (s.size() < n) {
		char ch = blanksToo && c.chance(1, 6) ? c.pickOf<char>({ ' ', '\t', '\n' }) : (char)c.range(33, 126);
		if (ch == '`' || ch == ';' || ch == '\\' || strchr(excluded, ch))
			ch = 'q';
		s += ch;
	}
	return s;
}

enum Kind { INT, SIZE, REAL, STRQ, STRU, VINT, VSIZE, VREAL, VCPLX, VSTR, MREAL, MCPLX, MSTR, NKINDS };
static const char* kindName[] = { "int", "size", "real", "quoted", "unquoted", "vector<int>", "vector<size>", "vector<real>", "vector<complex>", "vector<string>", "matrix<real>", "matrix<complex>", "matrix<string>" };

struct Value {
	int kind;
	std::string text; // as written
	long i;
	double r;
	std::string s;
	std::vector<long> vi;
	std::vector<double> vr;
	std::vector<Cplx> vc;
	std::vector<std::string> vs;
	size_t rows, cols; // matrices are flattened by rows into vr, vc, vs
	size_t presize; // for [v, ...]
	size_t elements() const { return vi.size() + vr.size() + vc.size() + vs.size(); }
};

inline std::string element(Ctx& c, Value& v)
{
	switch (v.kind) {
	case VINT:
	case VSIZE: {
		std::string t = intText(c, v.kind == VINT);
		v.vi.push_back(strtol(t.c_str(), 0, 10));
		return t;
	}
	case VREAL:
	case MREAL: {
		std::string t = realText(c);
		v.vr.push_back(strtod(t.c_str(), 0));
		return t;
	}
	case VCPLX:
	case MCPLX: {
		CT t = cplxText(c);
		v.vc.push_back(t.value);
		return t.text;
	}
	default: {
		std::string t;
		t += (char)c.pickOf<char>({ 'a', 'Z', '"', '7', '-', '%' });
		t += strBody(c, 6, ",[]().", true);
		while (strchr(" \t\r\n", t.back()))
			t.pop_back();
		v.vs.push_back(t);
		return t;
	}
	}
}

inline Value value(Ctx& c, int kind)
{
	Value v;
	v.kind = kind;
	v.i = 0;
	v.r = 0;
	v.rows = v.cols = v.presize = 0;
	// now and then a long value
	const bool                       big = !c.bulk() && c.chance(1, 120);
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	auto                             number = [&](size_t lo, size_t usual, size_t most) {
		size_t n = big ? c.skew(lo, most) : c.skew(lo, usual);
		if (big) {
			bulk.reset(new pbt::Ctx::Bulk(c));
			c.label("long value");
		}
		return n;
	};
	switch (kind) {
	case INT:
	case SIZE:
		v.text = intText(c, kind == INT);
		v.i = strtol(v.text.c_str(), 0, 10);
		break;
	case REAL:
		v.text = realText(c);
		v.r = strtod(v.text.c_str(), 0);
		break;
	case STRQ:
		v.s = strBody(c, big ? 600 : 12, "", true);
		v.text = "\"" + v.s + "\"";
		break;
	case STRU:
		v.s = std::string(1, "abXY"[c.below(4)]) + strBody(c, big ? 600 : 8, "", true);
		while (strchr(" \t\r\n", v.s.back()))
			v.s.pop_back();
		v.text = v.s;
		break;
	case VINT:
	case VSIZE:
	case VREAL:
	case VCPLX:
	case VSTR: {
		bool ellipsis = c.chance(1, 5);
		size_t n = ellipsis ? 1 : number(1, 7, 300);
		std::string t = "[";
		for (size_t i = 0; i < n; ++i)
			t += (i ? "," : "") + blanks(c, 2) + element(c, v) + blanks(c, 1);
		if (ellipsis && kind != VSTR) {
			size_t m = big ? c.range(1, 3000) : c.range(1, 9);
			t += "," + blanks(c, 2) + "...";
			if (c.flip())
				t += "x" + std::to_string(m);
			else
				v.presize = m;
			for (size_t i = 1; i < m; ++i) {
				if (v.vi.size())
					v.vi.push_back(v.vi[0]);
				if (v.vr.size())
					v.vr.push_back(v.vr[0]);
				if (v.vc.size())
					v.vc.push_back(v.vc[0]);
			}
			t += blanks(c, 1);
			c.label(v.presize ? "ellipsis over a sized vector" : "ellipsis with size");
		}
		v.text = t + "]";
		break;
	}
	default: {
		const bool tall = big && c.chance(1, 4); // many rows of few columns
		v.rows = tall ? c.range(200, 700) : big ? c.skew(0, 40) : c.skew(0, 4);
		v.cols = v.rows ? number(1, 4, tall ? 3 : 40) : 0;
		c.labelIf(tall, "tall matrix");
		std::string t = "[" + blanks(c, 1);
		for (size_t i = 0; i < v.rows; ++i) {
			t += (i ? "," : "") + blanks(c, 1) + "[";
			for (size_t j = 0; j < v.cols; ++j)
				t += (j ? "," : "") + blanks(c, 1) + element(c, v) + blanks(c, 1);
			t += "]" + blanks(c, 1);
		}
		v.text = t + "]";
		break;
	}
	}
	return v;
}

template <typename T> std::string show(const std::vector<T>& v)
{
	std::ostringstream os;
	os.precision(17);
	os << v.size() << ":";
	for (const auto& x : v)
		os << " {" << x << "}";
	return os.str();
}

template <typename T, typename U> bool sameVec(const std::vector<T>& a, const std::vector<U>& b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (!(a[i] == (T)b[i]))
			return false;
	return true;
}
template <typename T> std::vector<T> flat(const Matrix<T>& m)
{
	std::vector<T> v;
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.cols(); ++j)
			v.push_back(m(i, j));
	return v;
}

inline void old(Ctx& c, std::string& s) { s = c.flip() ? "old" : ""; }
template <typename T> void old(Ctx& c, T& x) { x = T(c.below(3)); }

template <typename T, typename U> void readVector(Ctx& c, const Ainur& a, const std::string& label, const Value& v, const std::vector<U>& want)
{
	std::vector<T> t(v.presize ? v.presize : c.skew(0, 4));
	for (auto& x : t) // old contents
		old(c, x);
	a.readValue(t, label);
	CHECK(sameVec(t, want), label << " = " << v.text << " was read as " << show(t) << " and not " << show(want));
}
template <typename T> void readMatrix(Ctx& c, const Ainur& a, const std::string& label, const Value& v, const std::vector<T>& want)
{
	Matrix<T> m(c.skew(0, 3), c.skew(0, 3));
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.cols(); ++j)
			old(c, m(i, j));
	a.readValue(m, label);
	CHECK(m.rows() == v.rows && m.cols() == v.cols, label << " = " << v.text << " was read with shape " << m.rows() << "x" << m.cols());
	CHECK(sameVec(flat(m), want), label << " = " << v.text << " was read as " << show(flat(m)) << " and not " << show(want));
}

// reads the label and compares with what was written
inline void readAndCheck(Ctx& c, const Ainur& a, const std::string& label, const Value& v)
{
	switch (v.kind) {
	case INT: {
		int x = (int)c.sint(5);
		a.readValue(x, label);
		CHECK(x == v.i, label << " = " << v.text << " was read as " << x);
		break;
	}
	case SIZE: {
		SizeType x = c.below(5);
		a.readValue(x, label);
		CHECK(x == (SizeType)v.i, label << " = " << v.text << " was read as " << x);
		break;
	}
	case REAL: {
		double x = c.unit();
		a.readValue(x, label);
		CHECK(x == v.r, label << " = " << v.text << " was read as " << x);
		break;
	}
	case STRQ:
	case STRU: {
		std::string s = "old";
		a.readValue(s, label);
		CHECK(s == v.s, label << " = " << v.text << " was read as {" << s << "}");
		break;
	}
	case VINT:
		readVector<int>(c, a, label, v, v.vi);
		break;
	case VSIZE:
		readVector<SizeType>(c, a, label, v, v.vi);
		break;
	case VREAL:
		readVector<double>(c, a, label, v, v.vr);
		break;
	case VCPLX:
		readVector<Cplx>(c, a, label, v, v.vc);
		break;
	case VSTR:
		readVector<std::string>(c, a, label, v, v.vs);
		break;
	case MREAL:
		readMatrix<double>(c, a, label, v, v.vr);
		break;
	case MCPLX:
		readMatrix<Cplx>(c, a, label, v, v.vc);
		break;
	default:
		readMatrix<std::string>(c, a, label, v, v.vs);
		break;
	}
}

struct Var {
	std::string name, type;
	bool flagged; // type with !
	bool hasValue;
	Value v;
};

struct Program {
	std::string text;
	std::string body; // up to where the last semicolon may stand
	std::vector<Var> vars;
	// position of the last value of each variable in the text
	std::vector<std::pair<size_t, size_t>> span;
};

// a well-formed program: declarations with and without values, later assignments, free layout
inline Program program(Ctx& c, size_t maxVars)
{
	Program p;
	size_t n = c.bulk() ? 1 : c.skewRare(1, maxVars, 60, 150);
	std::map<std::string, int> seen;
	seen["AinurFromFile"] = 1;
	std::string common;
	if (n > 1 && c.chance(1, 60)) {
		size_t len = c.range(1, 120);
		pbt::Ctx::Bulk b(c);
		while (common.size() < len)
			common += identifier(c);
		c.label("long common prefix");
	}
	for (size_t i = 0; i < n; ++i) {
		Var v;
		v.name = common + identifier(c);
		if (!p.vars.empty() && c.chance(1, 5)) { // names that differ in little
			v.name = p.vars[c.below(p.vars.size())].name;
			char last = "abz09_:"[c.below(7)];
			if (c.flip())
				v.name += last;
			else
				v.name[v.name.size() - 1] = "abzh"[c.below(4)];
		}
		if (seen[v.name]++)
			continue;
		v.type = typeName(c);
		v.flagged = c.chance(1, 4);
		v.hasValue = false;
		p.vars.push_back(v);
	}
	n = p.vars.size();
	p.span.resize(n);
	size_t declared = 0, extra = c.skew(0, n);
	std::string& t = p.text;
	bool first = true;
	while (declared < n || extra > 0) {
		bool decl = declared < n && (declared == 0 || extra == 0 || c.chance(2, 3));
		if (!decl)
			--extra;
		size_t i = decl ? declared++ : c.below(declared);
		Var& v = p.vars[i];
		if (!first)
			t += ";";
		first = false;
		t += gap(c);
		if (decl)
			t += v.type + (v.flagged ? "!" : "") + gap(c, true);
		t += v.name;
		if (decl && c.chance(1, 3)) {
			t += gap(c);
			continue;
		}
		v.v = value(c, (int)c.below(NKINDS));
		v.hasValue = true;
		t += gap(c) + "=" + gap(c);
		p.span[i] = { t.size(), t.size() + v.v.text.size() };
		t += v.v.text + blanks(c, 2);
	}
	p.body = t;
	if (c.chance(4, 5))
		t += ";";
	bool terminated = t.back() == ';';
	std::string end = gap(c);
	if (!terminated && end.find('#') != std::string::npos)
		end = ""; // would be part of the value
	t += end;
	if (terminated && c.chance(1, 6))
		t += "# the end";
	return p;
}

} // namespace ag
