// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 300000
// PBT-THOROUGH: 6000000
// PBT-RULE: a case is a random expression tree over all the operations, real or complex, written level by level as the library wants it, and evaluated independently; or such a text with operands missing or a token that means nothing; or the text of a complex number;
// PBT-RULE: non-trivial = three or more operations
#include "pbt.h"
#include <cmath>
#include <complex>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "AST/ExpressionForAST.h"
#include "AST/PlusMinusMultiplyDivide.h"

typedef std::complex<double> Cplx;
typedef std::vector<PsimagLite::String> VectorString;

template <typename T> struct Tree {
	std::string code;
	T value; // of a literal
	std::vector<std::shared_ptr<Tree>> kids;
};

static std::string num(pbt::Ctx& c, double& x)
{
	char b[64];
	switch (c.below(4)) {
	case 0: x = c.chance(1, 8) ? (double)c.below(300) : (double)c.sint(9); snprintf(b, sizeof(b), "%d", int(x)); break;
	case 1: x = c.sint(64) / 8.0; snprintf(b, sizeof(b), "%g", x); break;
	case 2:
		x = (c.real01() - 0.5) * std::pow(10.0, c.range(-3, 6));
		snprintf(b, sizeof(b), "%.17g", x);
		break;
	default:
		x = (c.real01() - 0.5) * 8;
		snprintf(b, sizeof(b), c.flip() ? "%.16e" : "%.5f", x);
		x = strtod(b, 0);
		break;
	}
	return b;
}

static void literal(pbt::Ctx& c, Tree<double>& t) { t.code = num(c, t.value); }

static void literal(pbt::Ctx& c, Tree<Cplx>& t)
{
	double re = 0, im = 0;
	std::string s;
	int form = c.below(6);
	if (form <= 3)
		s = num(c, re);
	if (form >= 2) {
		std::string i = num(c, im);
		if (form == 5) { // no digits
			im = c.flip() ? 1 : -1;
			i = im > 0 ? (c.flip() ? "" : "+") : "-";
			if (c.flip()) {
				s = num(c, re);
				if (i == "")
					i = "+";
			}
		} else if (form <= 3 && i[0] != '-')
			i = "+" + i;
		else if (form == 3 && i[0] == '-')
			i = "+" + i; // a+-bi
		s += i + "i";
	}
	t.code = s;
	t.value = Cplx(re, im);
}

struct Op {
	const char* code;
	int arity;
};

static const Op ops[] = { { "+", 2 }, { "-", 2 }, { "*", 2 }, { "/", 2 }, { "%", 2 }, { "sin", 1 }, { "cos", 1 }, { "log", 1 }, { "exp", 1 }, { "?", 3 } };

template <typename T> static std::shared_ptr<Tree<T>> gen(pbt::Ctx& c, int depth, size_t& nops, bool thin = false)
{
	auto t = std::make_shared<Tree<T>>();
	if (depth == 0 || c.chance(1, thin ? 40 : 5)) {
		literal(c, *t);
		return t;
	}
	const Op& op = ops[c.weighted({ 4, 4, 4, 4, 3, 1, 1, 1, 1, 2 })];
	t->code = op.code;
	++nops;
	int deep = thin ? int(c.below(op.arity)) : -1; // otherwise all of them
	for (int i = 0; i < op.arity; ++i)
		t->kids.push_back(gen<T>(c, deep < 0 || deep == i ? depth - 1 : 0, nops, thin));
	return t;
}

static bool bounded(double x) { return std::isfinite(x) && std::fabs(x) < 1e150; }
static bool bounded(const Cplx& x) { return bounded(x.real()) && bounded(x.imag()); }

// false when the value of the expression is not well defined, or not robust to rounding
template <typename T> static bool eval(const Tree<T>& t, T& r)
{
	if (t.kids.empty()) {
		r = t.value;
		return true;
	}
	std::vector<T> v(t.kids.size());
	for (size_t i = 0; i < v.size(); ++i)
		if (!eval(*t.kids[i], v[i]))
			return false;
	if (t.code == "+")
		r = v[0] + v[1];
	else if (t.code == "-")
		r = v[0] - v[1];
	else if (t.code == "*")
		r = v[0] * v[1];
	else if (t.code == "/") {
		if (std::abs(v[1]) < 2e-3)
			return false; // protected division
		r = v[0] / v[1];
	} else if (t.code == "%") {
		double a = std::abs(v[0]), b = std::abs(v[1]);
		if (a > 1e9 || b > 1e9 || b < 1)
			return false;
		for (double x : { a, b }) // on the edge of the next integer only if exactly there
			if (x != std::floor(x) && std::fabs(x - std::round(x)) < 1e-9)
				return false;
		r = double(long(a) % long(b));
		// a magnitude that is a rounded integer
		if (!t.kids[0]->kids.empty() || !t.kids[1]->kids.empty() || std::is_same<T, Cplx>::value)
			for (double x : { a, b })
				if (std::fabs(x - std::round(x)) < 1e-9 && x == std::floor(x) && (v[0] != T(std::abs(v[0])) || v[1] != T(std::abs(v[1]))) && std::is_same<T, Cplx>::value)
					return false;
	} else if (t.code == "sin")
		r = std::sin(v[0]);
	else if (t.code == "cos")
		r = std::cos(v[0]);
	else if (t.code == "exp")
		r = std::exp(v[0]);
	else if (t.code == "log") {
		if (std::is_same<T, double>::value && std::real(v[0]) <= 0)
			return false;
		if (std::abs(v[0]) < 1e-6)
			return false;
		r = std::log(v[0]);
	} else {
		double a = std::abs(v[0]);
		if (a > 1e9 || (a > 0.5 && std::fabs(a - 1) < 1e-9 && a != 1))
			return false;
		if (a > 0 && a < 1)
			return false; // only zero and magnitudes of one or more are conditions
		if (std::is_same<T, Cplx>::value && a == 1 && v[0] != T(1))
			return false;
		r = a >= 1 ? v[1] : v[2];
	}
	return bounded(r);
}

template <typename T> static VectorString levels(const std::shared_ptr<Tree<T>>& root)
{
	VectorString out;
	std::vector<std::shared_ptr<Tree<T>>> queue(1, root);
	for (size_t i = 0; i < queue.size(); ++i) {
		out.push_back(queue[i]->code);
		auto kids = queue[i]->kids;
		queue.insert(queue.end(), kids.begin(), kids.end());
	}
	return out;
}

static std::string joined(const VectorString& v)
{
	std::string s;
	for (size_t i = 0; i < v.size(); ++i)
		s += (i ? ":" : "") + v[i];
	return s;
}

static bool same(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
static bool same(const Cplx& a, const Cplx& b, double tol) { return std::abs(a - b) <= tol; }

template <typename T> static double scale(const Tree<T>& t)
{
	// of everything that appears
	T x;
	eval(t, x);
	double s = std::abs(x);
	for (auto& k : t.kids)
		s = std::max(s, scale(*k));
	return s;
}

// how far roundings (in any order of evaluation) may move the value
template <typename T> static double rounding(const Tree<T>& t)
{
	const double eps = 4.5e-16;
	T            x;
	eval(t, x);
	double r = std::abs(x);
	if (t.kids.empty())
		return eps * r;
	std::vector<T>      v(t.kids.size());
	std::vector<double> e(v.size());
	for (size_t i = 0; i < v.size(); ++i) {
		eval(*t.kids[i], v[i]);
		e[i] = rounding(*t.kids[i]);
	}
	if (t.code == "+" || t.code == "-")
		return e[0] + e[1] + eps * r;
	if (t.code == "*")
		return std::abs(v[0]) * e[1] + std::abs(v[1]) * e[0] + e[0] * e[1] + 4 * eps * r;
	if (t.code == "/") {
		double d = std::abs(v[1]) - e[1];
		return d > 0 ? (e[0] + r * e[1]) / d + 4 * eps * r : INFINITY;
	}
	if (t.code == "sin" || t.code == "cos")
		return e[0] * std::cosh(std::fabs(std::imag(v[0])) + e[0]) + eps * (1 + r);
	if (t.code == "exp")
		return r * std::expm1(e[0]) + 4 * eps * r;
	if (t.code == "log") {
		double d = std::abs(v[0]) - e[0];
		return d > 0 ? e[0] / d + 4 * eps * (1 + r) : INFINITY;
	}
	if (t.code == "%")
		return (e[0] < 1e-10 && e[1] < 1e-10) ? 0 : INFINITY;
	if (e[0] > 1e-10)
		return INFINITY;
	return std::max(e[1], e[2]);
}

template <typename T> static void values(pbt::Ctx& c)
{
	typedef PsimagLite::PlusMinusMultiplyDivide<T> PrimitivesType;
	PrimitivesType primitives;
	size_t nops = 0, n = c.range(1, 3);
	std::vector<std::shared_ptr<Tree<T>>> trees;
	std::vector<std::shared_ptr<PsimagLite::ExpressionForAST<PrimitivesType>>> exprs;
	std::string all;
	for (size_t i = 0; i < n; ++i) {
		bool                             large = c.chance(1, 60), thin = large && c.flip();
		std::unique_ptr<pbt::Ctx::Bulk> bulk;
		int                              depth = thin ? c.range(5, 60) : large ? c.range(5, 7) : c.range(0, 4);
		if (large) {
			bulk.reset(new pbt::Ctx::Bulk(c));
			c.label(thin ? "deep expression" : "large expression");
		}
		trees.push_back(gen<T>(c, depth, nops, thin));
		VectorString v = levels(trees.back());
		all += joined(v) + "   ";
	}
	DESC(all);
	for (size_t i = 0; i < n; ++i) {
		VectorString v = levels(trees[i]);
		// through text, as a user would
		VectorString ve;
		PsimagLite::split(ve, joined(v), ":");
		exprs.push_back(std::make_shared<PsimagLite::ExpressionForAST<PrimitivesType>>(ve, primitives));
	}
	if (nops > 2)
		c.nontrivial();
	// in any order, and more than once
	for (size_t k = 0; k < n + 1; ++k) {
		size_t i = c.below(n);
		T want;
		if (!eval(*trees[i], want)) {
			c.label("no robust value");
			continue;
		}
		T got = exprs[i]->exec();
		// conditions and remainders are robust; the rest is the same arithmetic
		double tol = std::max(1e-12 * (1 + scale(*trees[i])), 8 * rounding(*trees[i]));
		if (!(tol < 1e-3 * (1 + scale(*trees[i])))) {
			c.label("no robust value");
			continue;
		}
		CHECK(same(got, want, tol), joined(levels(trees[i])) << " is " << got << " want " << want);
	}
}

PROP(real, 3) { values<double>(c); }
PROP(complex, 3) { values<Cplx>(c); }

template <typename T> static void malformed(pbt::Ctx& c)
{
	typedef PsimagLite::PlusMinusMultiplyDivide<T> PrimitivesType;
	size_t nops = 0;
	auto t = gen<T>(c, c.range(1, 4), nops);
	VectorString v = levels(t);
	if (c.flip()) {
		if (nops == 0)
			v.clear();
		else
			v.resize(c.below(v.size())); // some operands are missing
	} else {
		size_t at = c.below(v.size());
		v[at] = c.pickOf<const char*>({ "foo", "^", "**", "sine", "Sin", "x", "1.2.3", "--1", "1e", "+-", "1x", "(", "1+2", "i2", "2ii", "1+2i+3", "1+2j", "tan", "sqrt", "e", "." });
	}
	if (nops > 2)
		c.nontrivial();
	DESC(joined(v));
	PrimitivesType primitives;
	bool thrown = pbt::throws([&] {
		PsimagLite::ExpressionForAST<PrimitivesType> e(v, primitives);
		e.exec();
	});
	CHECK(thrown, "accepted: " << joined(v));
}

PROP(malformedReal, 1) { malformed<double>(c); }
PROP(malformedComplex, 1) { malformed<Cplx>(c); }

PROP(complexText, 2)
{
	Tree<Cplx> t;
	literal(c, t);
	DESC(t.code);
	Cplx got = PsimagLite::stringToComplex(t.code);
	CHECK(got == t.value, t.code << " is " << got << " want " << t.value);
	if (t.value.real() != 0 && t.value.imag() != 0)
		c.nontrivial();
	// one change
	static const std::string chars = "0123456789+-.eEi jx,()\t";
	std::string s = t.code;
	size_t at = c.below(s.size() + 1);
	if (c.flip() || at == s.size())
		s.insert(at, 1, chars[c.below(chars.size())]);
	else if (c.flip())
		s[at] = chars[c.below(chars.size())];
	else
		s.erase(at, 1);
	// an independent reader: [real][sign imag i]
	auto real = [](const std::string& x, double& r) {
		size_t i = 0, digits = 0;
		if (i < x.size() && (x[i] == '+' || x[i] == '-'))
			++i;
		for (; i < x.size() && isdigit((unsigned char)x[i]); ++i)
			++digits;
		if (i < x.size() && x[i] == '.')
			for (++i; i < x.size() && isdigit((unsigned char)x[i]); ++i)
				++digits;
		if (!digits)
			return false;
		if (i < x.size() && (x[i] == 'e' || x[i] == 'E')) {
			++i;
			if (i < x.size() && (x[i] == '+' || x[i] == '-'))
				++i;
			size_t d = 0;
			for (; i < x.size() && isdigit((unsigned char)x[i]); ++i)
				++d;
			if (!d)
				return false;
		}
		r = strtod(x.c_str(), 0);
		return i == x.size();
	};
	std::vector<Cplx> readings;
	double re, im;
	if (real(s, re))
		readings.push_back(Cplx(re, 0));
	if (!s.empty() && s[s.size() - 1] == 'i') {
		std::string b = s.substr(0, s.size() - 1);
		auto imag = [&](std::string x, double& r) {
			if (x == "" || x == "+" || x == "-")
				x += "1";
			return real(x, r);
		};
		if (imag(b, im))
			readings.push_back(Cplx(0, im));
		for (size_t k = 1; k < b.size(); ++k)
			if ((b[k] == '+' || b[k] == '-') && real(b.substr(0, k), re)) {
				if (imag(b.substr(k), im))
					readings.push_back(Cplx(re, im));
				else if (b[k] == '+' && k + 1 < b.size() && b[k + 1] == '-' && imag(b.substr(k + 1), im))
					readings.push_back(Cplx(re, im));
			}
	}
	CHECK(readings.size() < 2 || readings[0] == readings[1], "reader of the check is ambiguous for " << s);
	if (readings.empty()) {
		CHECK(pbt::throws([&] { PsimagLite::stringToComplex(s); }), "<" << s << "> is read as " << PsimagLite::stringToComplex(s));
	} else {
		got = PsimagLite::stringToComplex(s);
		bool infinite = !std::isfinite(readings[0].real()) || !std::isfinite(readings[0].imag());
		CHECK(infinite || got == readings[0], "<" << s << "> is " << got << " want " << readings[0]);
	}
}

PBT_MAIN
