// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 300000
// PBT-THOROUGH: 6000000
// PBT-RULE: a case is a sum of products of scalars (real, imaginary, or expressions in parentheses) and named items that do not commute, or of scalars alone, evaluated by the library and term by term; or such a text with one error in it; or the replacement of a label by a value;
// PBT-RULE: non-trivial = two or more terms and five or more factors
#include "pbt.h"
#include <cmath>
#include <complex>
#include <map>
#include <string>
#include <vector>
#include "CanonicalExpression.h"

typedef std::complex<double> Cplx;

// a 2x2 matrix, or nothing
template <typename C> struct Mat {
	bool empty;
	int meta;
	C a[4];
	Mat()
	    : empty(true)
	    , meta(0)
	{
		for (int i = 0; i < 4; ++i)
			a[i] = C(0);
	}
	Mat& operator+=(const Mat& o)
	{
		for (int i = 0; i < 4; ++i)
			a[i] += o.a[i];
		return *this;
	}
	Mat& operator*=(const Mat& o)
	{
		Mat r(*this);
		for (int i = 0; i < 2; ++i)
			for (int j = 0; j < 2; ++j)
				r.a[2 * i + j] = a[2 * i] * o.a[j] + a[2 * i + 1] * o.a[2 + j];
		return *this = r;
	}
	Mat& operator*=(const C& s)
	{
		for (int i = 0; i < 4; ++i)
			a[i] *= s;
		return *this;
	}
};

template <typename C> struct MatSpec {
	typedef Mat<C> ResultType;
	typedef C ComplexOrRealType;
	typedef std::vector<std::string> AuxiliaryType;

	std::map<std::string, Mat<C>> items;

	Mat<C> operator()(std::string s, AuxiliaryType& aux) const
	{
		aux.push_back(s);
		auto it = items.find(s);
		if (it == items.end())
			throw PsimagLite::RuntimeError("no item " + s + "\n");
		return it->second;
	}

	static bool isEmpty(const Mat<C>& m) { return m.empty; }

	static bool metaEqual(const Mat<C>& a, const Mat<C>& b) { return a.empty || b.empty || a.meta == b.meta; }
};

// scalar algebra: nothing is ever empty
template <typename C> struct ScalarSpec {
	typedef C ResultType;
	typedef C ComplexOrRealType;
	typedef int AuxiliaryType;

	std::map<std::string, C> items;

	C operator()(std::string s, int&) const
	{
		auto it = items.find(s);
		if (it == items.end())
			throw PsimagLite::RuntimeError("no item " + s + "\n");
		return it->second;
	}

	static bool isEmpty(const C&) { return false; }
	static bool metaEqual(const C&, const C&) { return true; }
};

static const char* names[] = { "A", "B", "c", "c?0", "n", "ni", "i1", "sz[2]", "x", "xi", "identity", "S+", "pi", "2a", "_i", "I", "e2", "1e", "E", "@", "nup", "-q", "c'" };

static std::string plainReal(pbt::Ctx& c, double& x, bool sign)
{
	char b[64];
	switch (c.below(3)) {
	case 0: snprintf(b, sizeof(b), "%d", int(c.below(12))); break;
	case 1: snprintf(b, sizeof(b), "%.*f", int(c.range(1, 16)), c.real01() * 5); break;
	default: strcpy(b, c.pickOf<const char*>({ ".5", "3.", "0.125", "007" })); break;
	}
	std::string s = b;
	if (sign && c.chance(1, 4))
		s = "-" + s;
	x = strtod(s.c_str(), 0);
	return s;
}

static const double PI = 3.14159265358979323846;

static std::string inParens(pbt::Ctx& c, double& x, Cplx& z, bool complexCode)
{
	double a, b;
	z = 0;
	std::string sa, sb;
	auto val = [&](double& v) {
		if (c.chance(1, 5)) {
			v = PI;
			return std::string("pi");
		}
		return plainReal(c, v, false);
	};
	switch (c.below(complexCode ? 12 : 10)) {
	case 9: { // level by level
		double d;
		sa = val(a);
		sb = val(b);
		std::string sd = val(d);
		x = b * d + a;
		return "(+:*:" + sa + ":" + sb + ":" + sd + ")";
	}
	case 7: {
		double d, e;
		sa = val(a);
		sb = val(b);
		std::string sd = val(d), se = val(e);
		x = (a + b) * (d * e);
		return "(*:+:*:" + sa + ":" + sb + ":" + sd + ":" + se + ")";
	}
	case 8: {
		sa = val(a);
		sb = val(b);
		x = std::sin(a) * std::cos(b);
		return "(*:sin:cos:" + sa + ":" + sb + ")";
	}
	case 0: return "(" + plainReal(c, x, true) + ")";
	case 1: sa = val(x); return "(" + sa + ")";
	case 2:
		sa = val(a);
		sb = val(b);
		x = a * b;
		return "(*:" + sa + ":" + sb + ")";
	case 3:
		sa = val(a);
		sb = val(b);
		x = a + b;
		return "(+:" + sa + ":" + sb + ")";
	case 4:
		sa = val(a);
		sb = val(b);
		x = a - b;
		return "(-:" + sa + ":" + sb + ")";
	case 5: sa = val(a); x = std::cos(a); return "(cos:" + sa + ")";
	case 6:
		sa = val(a);
		sb = val(b);
		if (b < 0.01) {
			b = 2;
			sb = "2";
		}
		x = a / b;
		return "(/:" + sa + ":" + sb + ")";
	case 10:
		sa = plainReal(c, a, true);
		sb = plainReal(c, b, true);
		x = a;
		z = Cplx(0, b);
		return "(" + sa + "+" + sb + "i)";
	default:
		sb = plainReal(c, b, true);
		x = 0;
		z = Cplx(0, b);
		return "(" + sb + "i)";
	}
}

template <typename C> static C make(double x, const Cplx& z);
template <> double make<double>(double x, const Cplx&) { return x; }
template <> Cplx make<Cplx>(double x, const Cplx& z) { return x + z; }

template <typename C> static std::string scalar(pbt::Ctx& c, C& v, bool sign)
{
	bool cplx = !std::is_same<C, double>::value;
	double x = 0;
	Cplx z = 0;
	std::string s;
	switch (c.below(cplx ? 4 : 2)) {
	case 0: s = plainReal(c, x, sign); break;
	case 1: s = inParens(c, x, z, cplx); break;
	case 2:
		s = plainReal(c, x, sign) + "i";
		z = Cplx(0, x);
		x = 0;
		break;
	default:
		s = sign && c.flip() ? "-i" : "i";
		z = s == "i" ? Cplx(0, 1) : Cplx(0, -1);
		break;
	}
	v = make<C>(x, z);
	return s;
}

template <typename C> static C randomOf(pbt::Ctx& c);
template <> double randomOf<double>(pbt::Ctx& c) { return c.sint(16) / 8.0; }
template <> Cplx randomOf<Cplx>(pbt::Ctx& c)
{
	double x = c.sint(16) / 8.0, y = c.sint(16) / 8.0;
	return Cplx(x, y);
}

template <typename C> static void products(pbt::Ctx& c)
{
	MatSpec<C> spec;
	std::vector<std::string> pool;
	size_t n = c.rare(1, 4, 10, 100);
	for (size_t i = 0; i < n; ++i) {
		std::string s = names[c.below(sizeof(names) / sizeof(names[0]))];
		if (s == "-q" || s == "S+")
			s = "q";
		Mat<C> m;
		m.empty = false;
		for (int k = 0; k < 4; ++k)
			m.a[k] = randomOf<C>(c);
		spec.items[s] = m;
		pool.push_back(s);
	}
	size_t nterms = c.rare(1, 4, 200, 80), total = 0;
	c.labelIf(nterms > 4, "long sum");
	Mat<C> want;
	want.empty = false;
	double size = 0;
	std::string text;
	std::vector<std::string> asked;
	bool noItems = false, items = false;
	for (size_t t = 0; t < nterms; ++t) {
		size_t k = c.rare(1, 4, 24, 150), itemAt = c.below(k);
		if (c.chance(1, 15)) {
			// without items it adds nothing here
			C v;
			text += (t ? "+" : "") + scalar<C>(c, v, true);
			if (c.flip())
				text += "*" + scalar<C>(c, v, false);
			noItems = true;
			continue;
		}
		items = true;
		double bound = 1;
		total += k;
		Mat<C> prod;
		C factor(1);
		for (size_t f = 0; f < k; ++f) {
			if (f)
				text += "*";
			else if (t)
				text += "+";
			if (f == itemAt || c.flip()) {
				std::string s = pool[c.below(pool.size())];
				text += s;
				asked.push_back(s);
				double sum = 0;
				for (int i = 0; i < 4; ++i)
					sum += std::abs(spec.items[s].a[i]);
				bound *= sum;
				if (prod.empty)
					prod = spec.items[s];
				else
					prod *= spec.items[s];
			} else {
				C v;
				text += scalar<C>(c, v, f == 0);
				factor *= v;
				bound *= std::abs(v);
			}
		}
		prod *= factor;
		want += prod;
		size += k > 4 ? bound : 0;
		for (int i = 0; i < 4; ++i)
			size += std::abs(prod.a[i]);
	}
	DESC(text);
	if (nterms > 1 && total > 4)
		c.nontrivial();
	PsimagLite::CanonicalExpression<MatSpec<C>> ce(spec);
	Mat<C> result;
	bool used = c.flip();
	if (used) { // what it held must not matter
		result.empty = false;
		for (int i = 0; i < 4; ++i)
			result.a[i] = C(77 + i);
	}
	Mat<C> nothing;
	std::vector<std::string> aux;
	bool b = false;
	if (noItems) { // or it may be refused
		if (!items || pbt::throws([&] { b = ce(result, text, nothing, aux); }))
			return;
		c.label("term without items");
	} else
		b = ce(result, text, nothing, aux);
	CHECK(b && !result.empty, text << " is empty");
	CHECK(aux == asked, "items asked for are not those of " << text);
	for (int i = 0; i < 4; ++i)
		CHECK(std::abs(result.a[i] - want.a[i]) <= 1e-12 * (1 + size), text << " element " << i << " is " << result.a[i] << " want " << want.a[i] << " used=" << used);
}

PROP(productsReal, 3) { products<double>(c); }
PROP(productsComplex, 3) { products<Cplx>(c); }

template <typename C> static void scalars(pbt::Ctx& c)
{
	ScalarSpec<C> spec;
	spec.items["x"] = randomOf<C>(c);
	spec.items["yi"] = randomOf<C>(c);
	size_t nterms = c.rare(1, 4, 200, 80), total = 0;
	c.labelIf(nterms > 4, "long sum");
	C want(0);
	double size = 0;
	std::string text;
	for (size_t t = 0; t < nterms; ++t) {
		size_t k = c.rare(1, 4, 12, 150);
		total += k;
		C prod(1);
		for (size_t f = 0; f < k; ++f) {
			if (f)
				text += "*";
			else if (t)
				text += "+";
			C v;
			if (c.chance(1, 4)) {
				std::string s = c.flip() ? "x" : "yi";
				text += s;
				v = spec.items[s];
			} else
				text += scalar<C>(c, v, f == 0);
			prod *= v;
		}
		want += prod;
		size += std::abs(prod);
	}
	DESC(text);
	if (nterms > 1 && total > 4)
		c.nontrivial();
	PsimagLite::CanonicalExpression<ScalarSpec<C>> ce(spec);
	C result(c.flip() ? 0 : 5);
	int aux = 0;
	CHECK(ce(result, text, C(1), aux), text << " is empty");
	CHECK(std::abs(result - want) <= 1e-12 * (1 + size), text << " is " << result << " want " << want);
}

PROP(scalarsReal, 1) { scalars<double>(c); }
PROP(scalarsComplex, 1) { scalars<Cplx>(c); }

template <typename C> static void malformed(pbt::Ctx& c)
{
	MatSpec<C> spec;
	Mat<C> m;
	m.empty = false;
	m.a[0] = m.a[3] = C(1);
	spec.items["A"] = spec.items["Bi"] = m;
	Mat<C> other(m);
	other.meta = 1;
	spec.items["other"] = other;
	std::vector<std::string> good { "A", "2*A", "A*Bi", "(+:1:2)*A", "-3*Bi", ".5*A*A" };
	std::vector<std::string> bad { "A-Bi", "A*-2", "((1))*A", "(1*A", "1)*A", ")1(*A", "B", "2*C", "a", "A*other", "1.2.3*A", "(foo)*A", "()*A", "(+:1)*A", "(1x)*A", "--2*A", "+-*A", "A*()", "(A)*A", "A*(:)", "2-A", "(2+(3))*A", "A(", "A)", "2A", "A*2x", "(+:1:(2)*A", "A*(1(2)", "(3", "A*(+:1:2", ")*A" };
	if (std::is_same<C, double>::value) {
		bad.push_back("i*A");
		bad.push_back("2i*A");
		bad.push_back("(2i)*A");
		bad.push_back("(1+2i)*A");
		bad.push_back("-i*A");
	} else {
		bad.push_back("ii*A");
		bad.push_back("2ii*A");
		bad.push_back("1+2j*A");
		bad.push_back("i2*A");
		bad.push_back("(1+i+i)*A");
	}
	size_t before = c.below(3), after = c.below(3);
	std::string text;
	for (size_t i = 0; i < before; ++i)
		text += c.pick(good) + "+";
	std::string what = c.pick(bad);
	text += what;
	for (size_t i = 0; i < after; ++i)
		text += "+" + c.pick(good);
	DESC(text);
	if (before + after > 1)
		c.nontrivial();
	PsimagLite::CanonicalExpression<MatSpec<C>> ce(spec);
	Mat<C> result, nothing;
	std::vector<std::string> aux;
	bool thrown = pbt::throws([&] { ce(result, text, nothing, aux); });
	CHECK(thrown, "accepted: " << text << " for the error in " << what);
}

PROP(malformedReal, 1) { malformed<double>(c); }
PROP(malformedComplex, 1) { malformed<Cplx>(c); }

PROP(replacing, 1)
{
	std::string s;
	size_t n = c.skewRare(0, 12, 300, 60);
	for (size_t i = 0; i < n; ++i)
		s += "%n12a*"[c.below(6)];
	std::string label = c.pickOf<const char*>({ "%n", "n", "1", "%", "12", "nn", "aa" });
	int v = c.pickOf<int>({ 0, 1, 12, -3, 211 });
	DESC(s << " label " << label << " value " << v);
	std::string want;
	bool found = false;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, label.size(), label) == 0) {
			want += std::to_string(v);
			i += label.size();
			found = true;
		} else
			want += s[i++];
	}
	if (found)
		c.nontrivial();
	typedef PsimagLite::CanonicalExpression<ScalarSpec<double>> CE;
	std::pair<bool, std::string> got = CE::replaceAll(s, label, v);
	CHECK(got.first == found && got.second == want, "replacing " << label << " by " << v << " in " << s << " gives " << got.second << " want " << want);
	std::pair<bool, std::string> one = CE::replaceOne(s, label, v);
	size_t x = s.find(label);
	std::string wantOne = s;
	if (x != std::string::npos)
		wantOne = s.substr(0, x) + std::to_string(v) + s.substr(x + label.size());
	CHECK(one.first == found && one.second == wantOne, "replacing one " << label << " by " << v << " in " << s << " gives " << one.second << " want " << wantOne);
}

PBT_MAIN
