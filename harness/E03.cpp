// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PredicateSimple.cpp
// PBT-QUICK: 150000
// PBT-THOROUGH: 6000000
// PBT-RULE: a case is a predicate (alternatives of conjunctions of comparisons between words and arithmetic terms of one to four named values of one number type) evaluated by the library and independently for many assignments; or such a text with one error in it;
// PBT-RULE: non-trivial = two or more comparisons, and both outcomes seen
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "PredicateAwesome.h"

// a term: a number, a variable, or an operation on two terms
template <typename T> struct Term {
	int kind; // 0 number, 1 variable, 2 operation
	T value;
	size_t var;
	char op;
	std::shared_ptr<Term> a, b;
	std::string text;
};

static std::string numberText(pbt::Ctx& c, double& x)
{
	char b[64];
	if (c.flip()) {
		x = c.sint(6);
		snprintf(b, sizeof(b), "%d", int(x));
	} else if (c.flip()) {
		x = c.sint(24) / 4.0;
		snprintf(b, sizeof(b), "%.17g", x);
	} else {
		x = c.pickOf<double>({ 0.1, -0.3, 1e10, 123456789012.5, 2.0000000000000004, 1.0 / 3, 1e-7 });
		snprintf(b, sizeof(b), "%.17g", x);
	}
	return b;
}

static std::string numberText(pbt::Ctx& c, int& x)
{
	x = c.chance(1, 10) ? c.pickOf<int>({ 2147483647, -2147483647, 1000000007 }) : int(c.sint(12));
	return std::to_string(x) + (c.chance(1, 8) ? ".0" : "");
}

static std::string numberText(pbt::Ctx& c, SizeType& x)
{
	x = c.chance(1, 10) ? c.pickOf<SizeType>({ 4294967296, 9007199254740992, 1000000007 }) : c.below(13);
	return std::to_string(x);
}

template <typename T> static bool value(const Term<T>& t, const std::vector<T>& v, T& r)
{
	if (t.kind == 0) {
		r = t.value;
		return true;
	}
	if (t.kind == 1) {
		r = v[t.var];
		return true;
	}
	T a, b;
	if (!value(*t.a, v, a) || !value(*t.b, v, b))
		return false;
	if (std::is_same<T, int>::value && (std::fabs(double(a)) > 30000 || std::fabs(double(b)) > 30000))
		return false; // would overflow
	if (std::is_same<T, SizeType>::value && (double(a) > 1e6 || double(b) > 1e6))
		return false;
	switch (t.op) {
	case '+': r = a + b; return true;
	case '*': r = a * b; return true;
	case '-':
		if (std::is_same<T, SizeType>::value && a < b)
			return false;
		r = a - b;
		return true;
	case '/':
		if (std::fabs(double(b)) < 2e-3)
			return false; // protected division
		r = a / b;
		return true;
	default: // of integer parts of magnitudes
		if (std::fabs(double(b)) < 1 || std::fabs(double(a)) > 1e9 || std::fabs(double(b)) > 1e9)
			return false;
		r = T(long(std::fabs(double(a))) % long(std::fabs(double(b))));
		return true;
	}
}

template <typename T> static std::shared_ptr<Term<T>> aTerm(pbt::Ctx& c, const std::vector<std::string>& names, bool operation)
{
	auto t = std::make_shared<Term<T>>();
	if (operation) {
		// operator, first operand, second operand; only the second can be an operation again
		t->kind = 2;
		t->op = "+-*/%"[c.below(5)];
		t->a = aTerm<T>(c, names, false);
		t->b = aTerm<T>(c, names, c.chance(1, 3));
		t->text = std::string(1, t->op) + ":" + t->a->text + ":" + t->b->text;
	} else if (c.chance(2, 3)) {
		t->kind = 1;
		t->var = c.below(names.size());
		t->text = names[t->var];
	} else {
		t->kind = 0;
		t->text = numberText(c, t->value);
	}
	return t;
}

template <typename T> struct Simple {
	std::shared_ptr<Term<T>> l, r;
	std::string op;
};

static bool divides(double a, double b) { return std::fmod(a, b) == 0; }
static bool divides(int a, int b) { return (long(a) % long(b)) == 0; }
static bool divides(SizeType a, SizeType b) { return a % b == 0; }

// 1 true, 0 false, -1 must be an error, -2 not defined here
template <typename T> static int truth(const Simple<T>& s, const std::vector<T>& v)
{
	T a, b;
	if (!value(*s.l, v, a) || !value(*s.r, v, b))
		return -2;
	if (s.op == "==")
		return a == b;
	if (s.op == "!=")
		return a != b;
	if (s.op == "<")
		return a < b;
	if (s.op == ">")
		return a > b;
	if (s.op == "<=")
		return a <= b;
	if (s.op == ">=")
		return a >= b;
	if (b == 0)
		return -1;
	return divides(a, b);
}

static std::vector<std::string> someNames(pbt::Ctx& c, size_t n)
{
	static const char* pool[] = { "l", "ll", "site", "s", "sites", "lx", "x", "x1", "x_1", "time", "e", "c", "n", "sin", "in", "p", "$l", "X", "l'", "s.x", "x.1", "aLongerNameOfASite", "aLongerNameOfASites" };
	std::vector<std::string> v;
	while (v.size() < n) {
		std::string s = pool[c.below(sizeof(pool) / sizeof(pool[0]))];
		while (std::find(v.begin(), v.end(), s) != v.end())
			s += c.flip() ? "2" : "a";
		v.push_back(s);
	}
	return v;
}

template <typename T> static T aValue(pbt::Ctx& c, const std::vector<T>& consts);
template <typename T> static T aValue(pbt::Ctx& c, const std::vector<T>& consts)
{
	if (!consts.empty() && c.chance(1, 3))
		return consts[c.below(consts.size())];
	T x;
	numberText(c, x);
	return x;
}

template <typename T> static void constants(const Term<T>& t, std::vector<T>& v)
{
	if (t.kind == 0)
		v.push_back(t.value);
	if (t.kind == 2) {
		constants(*t.a, v);
		constants(*t.b, v);
	}
}

template <typename T> static bool ask(PsimagLite::PredicateAwesome<>& p, const std::vector<std::string>& n, const std::vector<T>& v)
{
	switch (n.size()) {
	case 1: return p.isTrue(n[0], v[0]);
	case 2: return p.isTrue(n[0], v[0], n[1], v[1]);
	case 3: return p.isTrue(n[0], v[0], n[1], v[1], n[2], v[2]);
	default: return p.isTrue(n[0], v[0], n[1], v[1], n[2], v[2], n[3], v[3]);
	}
}

template <typename T> static void run(pbt::Ctx& c)
{
	std::vector<std::string> names = someNames(c, c.range(1, 4));
	std::string orSep = c.chance(1, 4) ? ";" : ",", andSep = c.chance(1, 4) ? c.pickOf<std::string>({ "|", "^", "#" }) : "&";
	std::vector<std::vector<Simple<T>>> alts;
	std::vector<T> consts;
	std::string text;
	size_t n = c.skewRare(1, 4, 40, 80), count = 0;
	for (size_t i = 0; i < n; ++i) {
		alts.push_back(std::vector<Simple<T>>());
		size_t m = c.skewRare(1, 4, 30, 150);
		for (size_t j = 0; j < m; ++j) {
			Simple<T> s;
			s.l = aTerm<T>(c, names, c.chance(1, 4));
			s.r = aTerm<T>(c, names, c.chance(1, 4));
			s.op = c.pickOf<const char*>({ "==", "!=", "<", ">", "<=", ">=", "%%" });
			text += j ? andSep : (i ? orSep : "");
			text += s.l->text + s.op + s.r->text;
			constants(*s.l, consts);
			constants(*s.r, consts);
			alts.back().push_back(s);
			++count;
		}
	}
	std::string all = "names";
	for (const std::string& s : names)
		all += " " + s;
	DESC(text << " " << all);
	PsimagLite::PredicateAwesome<> p(text, orSep, andSep);
	bool yes = false, no = false;
	size_t tries = c.range(1, 6);
	for (size_t k = 0; k < tries; ++k) {
		std::vector<T> v;
		std::string vals;
		for (size_t i = 0; i < names.size(); ++i) {
			v.push_back(aValue<T>(c, consts));
			char b[64];
			snprintf(b, sizeof(b), " %.17g", double(v[i]));
			vals += b;
		}
		// in order, and only as far as needed
		int want = 0;
		for (const auto& a : alts) {
			int w = 1;
			for (const auto& s : a) {
				w = truth(s, v);
				if (w != 1)
					break;
			}
			want = w;
			if (want != 0)
				break;
		}
		if (want == -2)
			continue;
		if (want == -1) {
			CHECK(pbt::throws([&] { ask(p, names, v); }), text << " accepted for " << vals << " (" << all << ")");
			continue;
		}
		bool got = ask(p, names, v);
		CHECK(got == (want == 1), text << " is " << got << " for " << vals << " (" << all << ")");
		(got ? yes : no) = true;
	}
	if (count > 1 && yes && no)
		c.nontrivial();
}

PROP(ofIntegers, 3) { run<int>(c); }
PROP(ofSizes, 3) { run<SizeType>(c); }
PROP(ofReals, 3) { run<double>(c); }

PROP(empty, 1)
{
	PsimagLite::PredicateAwesome<> p("");
	int x = c.sint(5);
	std::string s = c.pickOf<const char*>({ "l", "", "x" });
	DESC(x << s);
	CHECK(!p.isTrue(s, x), "the empty predicate is true");
	CHECK(!p.isTrue(s, x, "y", 3), "the empty predicate is true");
	CHECK(!p.isTrue(s, x, "y", 3, "z", 1), "the empty predicate is true");
	CHECK(!p.isTrue(s, x, "y", 3, "z", 1, "t", 1), "the empty predicate is true");
}

struct Spec {
	std::vector<std::string>* seen;
	void operator()(std::string s) const { seen->push_back(s); }
};

PROP(settings, 1)
{
	// items that start with @ are for the caller, and are not predicates
	std::string text;
	std::vector<std::string> want, seen;
	std::vector<int> values;
	size_t n = c.rare(1, 6, 100, 80);
	for (size_t i = 0; i < n; ++i) {
		if (i)
			text += ",";
		if (c.flip()) {
			std::string s = c.pickOf<const char*>({ "@M=2", "@", "@l==3", "@abc", "@x&y" });
			want.push_back(s);
			text += s;
		} else {
			values.push_back(c.sint(4));
			text += "l==" + std::to_string(values.back());
		}
	}
	DESC(text);
	if (want.size() > 1 && values.size() > 1)
		c.nontrivial();
	Spec spec;
	spec.seen = &seen;
	PsimagLite::PredicateAwesome<Spec> p(text, ",", "&", &spec);
	CHECK(seen == want, "the settings of " << text << " are not those seen");
	for (int x = -5; x <= 5; ++x)
		CHECK(p.isTrue("l", x) == (std::find(values.begin(), values.end(), x) != values.end()), text << " for " << x);
	if (!want.empty())
		CHECK(pbt::throws([&] { PsimagLite::PredicateAwesome<> q(text); }), "settings accepted without a place for them: " << text);
}

template <typename T> static void malformed(pbt::Ctx& c, const std::vector<std::string>& more)
{
	std::vector<std::string> bad { "l", "==", "l==", "==l", "l=2", "l!2", "l%2", "==3", "l<>2", "l==x", "l==2==3", "l<", "&", "l==1x", "+:l==2", "l==foo:2", "l==1.2.3", "l>=-:l", "l ==x y", "l%%0", "l%%-:2:2", "l===2", "l=<2", "l=>2", "(l)==2", "l==2l" };
	bad.insert(bad.end(), more.begin(), more.end());
	std::string what = c.pick(bad), text;
	size_t before = c.below(3), after = c.below(3);
	for (size_t i = 0; i < before; ++i)
		text += std::string(i % 2 ? "l==77" : "l>99&l<9") + ",";
	if (c.flip())
		text += "l<90&";
	text += what;
	for (size_t i = 0; i < after; ++i)
		text += i % 2 ? ",l!=3" : "&l==5";
	DESC(text);
	if (before + after > 1)
		c.nontrivial();
	if (what == "&" && (text.find("l<90&&") != std::string::npos || text.find("&&l") != std::string::npos))
		return; // separators in a row are one separator
	bool thrown = pbt::throws([&] {
		PsimagLite::PredicateAwesome<> p(text);
		p.isTrue("l", T(c.below(9)));
	});
	CHECK(thrown, "accepted: " << text << " for the error in " << what);
}

PROP(malformedInteger, 1) { malformed<int>(c, { "l==2.5", "l<99999999999", "l==1e-3" }); }
PROP(malformedSize, 1) { malformed<SizeType>(c, { "l==2.5", "l>-1", "l==-:1:-2" }); }
PROP(malformedReal, 1) { malformed<double>(c, { "l==--2" }); }

PBT_MAIN
