// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Concurrency.cpp Mpi.cpp MersenneTwister.cpp PsiBase64.cpp
// PBT-QUICK: 2500000
// PBT-THOROUGH: 60000000
// PBT-RULE: a case is a string over a small alphabet (with delimiters, digits, signs, dots and slashes frequent) given to one string helper, a number or a container written to text and read back, or a file read whole
// PBT-RULE: non-trivial = at least two tokens, two occurrences, a number with sign, fraction or exponent, a mutated number, a path with a directory, or a container of two or more elements
#include "pbt.h"
#include <memory>
#include <climits>
#include <cmath>
#include <complex>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "PsimagLite.h"
#include "Stack.h"
#include "TypeToString.h"
#include "Vector.h"

static std::string text(pbt::Ctx& c, const std::string& alphabet, size_t maxLen)
{
	const bool                       big = !c.bulk() && c.chance(1, 300);
	std::string                      s(c.skew(0, big ? 3000 : maxLen), ' ');
	std::unique_ptr<pbt::Ctx::Bulk> bulk(big ? new pbt::Ctx::Bulk(c) : nullptr);
	for (char& ch : s)
		ch = alphabet[c.below(alphabet.size())];
	return s;
}

static std::string anything(pbt::Ctx& c, size_t maxLen)
{
	const bool                       big = !c.bulk() && c.chance(1, 300);
	std::string                      s(c.skew(0, big ? 3000 : maxLen), ' ');
	std::unique_ptr<pbt::Ctx::Bulk> bulk(big ? new pbt::Ctx::Bulk(c) : nullptr);
	for (char& ch : s)
		ch = c.chance(1, 5) ? (char)c.below(256) : "ab ,;/."[c.below(7)];
	return s;
}

// ---------------------------------------------------------------- split and replace
PROP(split, 3)
{
	std::string s = c.flip() ? text(c, "ab ,;", 14) : anything(c, 20);
	bool byDefault = c.chance(1, 4);
	std::string delims = byDefault ? " " : text(c, " ,;a/.\n", 3);
	DESC("'" << s << "' by '" << delims << "'");
	std::vector<std::string> want;
	std::string cur;
	for (char ch : s) {
		if (delims.find(ch) == std::string::npos) {
			cur += ch;
			continue;
		}
		if (!cur.empty())
			want.push_back(cur);
		cur.clear();
	}
	if (!cur.empty())
		want.push_back(cur);
	if (want.size() > 1)
		c.nontrivial();
	PsimagLite::Vector<PsimagLite::String>::Type got;
	// tokens are added after those that are there
	size_t before = c.chance(1, 5) ? 2 : 0;
	for (size_t i = 0; i < before; ++i)
		got.push_back("before");
	if (byDefault)
		PsimagLite::split(got, s);
	else
		PsimagLite::split(got, s, delims);
	CHECK(got.size() == want.size() + before, "tokens: " << got.size() << " want " << want.size() + before);
	for (size_t i = 0; i < want.size(); ++i)
		CHECK(got[i + before] == want[i], "token " << i << " is '" << got[i + before] << "' want '" << want[i] << "'");
}

PROP(replace, 2)
{
	std::string s = text(c, "aab", 14), from = text(c, "aab", 3), to = text(c, "abx", 4);
	if (c.chance(1, 6))
		s = anything(c, 30);
	if (c.chance(1, 8) && !from.empty())
		to = c.flip() ? from + "x" : "x" + from;
	DESC("'" << s << "' '" << from << "' -> '" << to << "'");
	std::string want;
	size_t count = 0;
	for (size_t i = 0; i < s.size();) {
		if (!from.empty() && s.compare(i, from.size(), from) == 0) {
			want += to;
			i += from.size();
			++count;
		} else {
			want += s[i++];
		}
	}
	if (count > 1)
		c.nontrivial();
	std::string got = s;
	PsimagLite::replaceAll(got, from, to);
	CHECK(got == want, "'" << got << "' want '" << want << "'");
}

// ---------------------------------------------------------------- names
PROP(names, 2)
{
	std::string s = c.flip() ? text(c, "ab./\\:~", 12) : text(c, "abcdefgh/. -_", 24);
	DESC("'" << s << "'");
	std::string file, dir;
	for (char ch : s) {
		file += ch;
		if (ch == '/') {
			dir += file;
			file.clear();
		}
	}
	if (!dir.empty() && !file.empty())
		c.nontrivial();
	CHECK(PsimagLite::basename(s) == file, "basename '" << PsimagLite::basename(s) << "' want '" << file << "'");
	// the extension of the file is removed; a leading dot does not start one
	std::string stem = file;
	for (size_t i = file.size(); i > 1; --i)
		if (file[i - 1] == '.') {
			stem = file.substr(0, i - 1);
			break;
		}
	CHECK(PsimagLite::basenameOf(s) == dir + stem, "basenameOf '" << PsimagLite::basenameOf(s) << "' want '" << dir + stem << "'");
}

// ---------------------------------------------------------------- numbers
static bool digit(char ch) { return ch >= '0' && ch <= '9'; }

static bool isReal(const std::string& s)
{
	size_t i = 0, n = s.size(), digits = 0;
	if (i < n && (s[i] == '+' || s[i] == '-'))
		++i;
	for (; i < n && digit(s[i]); ++i)
		++digits;
	if (i < n && s[i] == '.')
		++i;
	for (; i < n && digit(s[i]); ++i)
		++digits;
	if (!digits)
		return false;
	if (i < n && (s[i] == 'e' || s[i] == 'E')) {
		++i;
		if (i < n && (s[i] == '+' || s[i] == '-'))
			++i;
		size_t e = 0;
		for (; i < n && digit(s[i]); ++i)
			++e;
		if (!e)
			return false;
	}
	return i == n;
}

static std::string numberText(pbt::Ctx& c)
{
	std::string s;
	switch (c.below(4)) {
	case 0:
		s = c.sint(100) < 0 ? "-" : "";
		s += std::to_string(c.below(100000));
		break;
	case 1: {
		std::ostringstream os;
		os << std::setprecision(c.range(1, 17)) << (c.flip() ? 1 : -1) * c.unit() * std::pow(10.0, (double)c.range(-20, 20));
		s = os.str();
		break;
	}
	case 2: {
		static const char* special[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "+0", "-0", "007", "1.", ".5", "1e5", "1E-5", "-1.5e+3", "1e400", "1e-400", "0e9" };
		s = special[c.below(sizeof(special) / sizeof(special[0]))];
		break;
	}
	default:
		s = text(c, "012345678.-+eE", 7);
	}
	return s;
}

PROP(numbers, 4)
{
	std::string s = numberText(c);
	bool mutated = c.chance(1, 3);
	if (mutated) {
		size_t at = c.below(s.size() + 1);
		static const std::string junk = "0.-+eE xdinfa,";
		if (c.flip() || at == s.size())
			s.insert(at, 1, junk[c.below(junk.size())]);
		else
			s.erase(at, 1);
	}
	DESC("'" << s << "'");
	if (mutated || s.find_first_of(".eE+-") != std::string::npos)
		c.nontrivial();

	// digits only
	bool digits = !s.empty() && s.find_first_not_of("0123456789") == std::string::npos;
	CHECK(PsimagLite::isAnInteger(s) == digits, "isAnInteger " << !digits);

	// sign and digits, in range
	size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
	bool integer = s.size() > i && s.find_first_not_of("0123456789", i) == std::string::npos;
	std::string magnitude = integer ? s.substr(i) : "";
	magnitude.erase(0, std::min(magnitude.find_first_not_of('0'), magnitude.size()));
	std::string limit = (i && s[0] == '-') ? "2147483648" : "2147483647";
	bool inRange = magnitude.size() < limit.size() || (magnitude.size() == limit.size() && magnitude <= limit);
	c.labelIf(integer && inRange, "integer");
	if (integer && inRange) {
		long x = 0;
		for (char ch : magnitude)
			x = 10 * x + (ch - '0');
		if (i && s[0] == '-')
			x = -x;
		CHECK(PsimagLite::atoi(s) == x, "atoi " << PsimagLite::atoi(s) << " want " << x);
	} else {
		CHECK(pbt::throws([&] { (void)PsimagLite::atoi(s); }), "atoi accepted: " << PsimagLite::atoi(s));
	}

	bool real = isReal(s);
	double value = 0;
	if (real) {
		std::istringstream is(s);
		long double y = 0;
		is >> y; // wider range, so that what a double cannot hold shows
		value = (double)y;
		if (std::isinf(value) || std::fabs(value) > 1e308)
			real = false;
	}
	c.labelIf(real, "real");
	CHECK(PsimagLite::isAfloat(s) == real, "isAfloat " << !real);
	if (real) {
		double got = PsimagLite::atof(s);
		CHECK(std::fabs(got - value) <= 1e-15 * std::fabs(value) + std::numeric_limits<double>::denorm_min(), "atof " << got << " want " << value);
	} else {
		CHECK(pbt::throws([&] { (void)PsimagLite::atof(s); }), "atof accepted: " << PsimagLite::atof(s));
	}
}

PROP(integers, 2)
{
	SizeType x = c.flip() ? c.below(300) : c.bits64() >> c.below(64);
	if (c.chance(1, 4))
		x = (SizeType(1) << c.below(64)) - c.below(2);
	SizeType b = c.flip() ? c.below(12) : c.bits64() >> c.below(64);
	DESC(x << " " << b);
	if (x > 1)
		c.nontrivial();
	SizeType bits = 0;
	while (bits < 64 && (x >> bits) != 0)
		++bits;
	CHECK(PsimagLite::log2Integer(x) == bits, "log2Integer " << PsimagLite::log2Integer(x) << " want " << bits);
	if (b == 0) {
		CHECK(pbt::throws([&] { (void)PsimagLite::integerDivision(x, b); }), "division by zero accepted");
		return;
	}
	SizeType q = x / b;
	if (q * b == x)
		CHECK(PsimagLite::integerDivision(x, b) == q, "quotient " << PsimagLite::integerDivision(x, b));
	else
		CHECK(pbt::throws([&] { (void)PsimagLite::integerDivision(x, b); }), "division with remainder accepted");
	CHECK(PsimagLite::integerDivision(q * b, b) == q, "quotient of " << q * b << " by " << b);
}

// ---------------------------------------------------------------- value to text
static double aDouble(pbt::Ctx& c)
{
	switch (c.below(5)) {
	case 0: return (double)c.sint(20);
	case 1: return c.sint(1000) / 8.0;
	case 2: return (c.flip() ? 1 : -1) * c.unit() * std::pow(10.0, (double)c.range(-30, 30));
	case 3: return c.pickOf<double>({ 0.0, 1e300, -1e-300, 0.1, 1.0 / 3, 123456789.0, 1e10, 12345678901.0, 1e-5 });
	default: return c.real01() - 0.5;
	}
}

static std::string form(double x)
{
	char buf[64];
	snprintf(buf, sizeof(buf), "%.10g", x);
	return buf;
}

PROP(toText, 3)
{
	long n = c.flip() ? c.sint(1000) : (long)c.bits64() >> c.below(64);
	unsigned long u = c.bits64() >> c.below(64);
	double x = aDouble(c), y = aDouble(c);
	DESC(n << " " << u << " " << std::setprecision(17) << x << " " << y);
	if (n < 0 || x != std::floor(x))
		c.nontrivial();
	CHECK(ttos(n) == std::to_string(n), "long " << ttos(n));
	CHECK(ttos((int)n) == std::to_string((int)n), "int " << ttos((int)n));
	CHECK(ttos(u) == std::to_string(u), "unsigned " << ttos(u));
	CHECK(ttos(SizeType(u)) == std::to_string(SizeType(u)), "SizeType " << ttos(SizeType(u)));
	CHECK(ttos(x) == form(x), "double " << ttos(x) << " want " << form(x));
	std::string z = "(" + form(x) + "," + form(y) + ")";
	CHECK(ttos(std::complex<double>(x, y)) == z, "complex " << ttos(std::complex<double>(x, y)) << " want " << z);
	double back = PsimagLite::atof(ttos(x));
	CHECK(std::fabs(back - x) <= 5e-10 * std::fabs(x), "back from text: " << back);
	if (n >= INT_MIN && n <= INT_MAX)
		CHECK(PsimagLite::atoi(ttos(n)) == n, "integer back from text: " << PsimagLite::atoi(ttos(n)));
	std::string word = text(c, "abcdefg.,;-", 20);
	CHECK(ttos(word) == word, "word '" << ttos(word) << "'");
}

template <typename T> struct Gen;
template <> struct Gen<int> {
	static int f(pbt::Ctx& c) { return c.flip() ? (int)c.sint(1000) : (int)c.bits64(); }
};
template <> struct Gen<SizeType> {
	static SizeType f(pbt::Ctx& c) { return c.bits64() >> c.below(64); }
};
template <> struct Gen<double> {
	static double f(pbt::Ctx& c) { return aDouble(c); }
};
template <> struct Gen<std::complex<double>> {
	static std::complex<double> f(pbt::Ctx& c)
	{
		double re = aDouble(c);
		return std::complex<double>(re, aDouble(c));
	}
};
template <> struct Gen<std::string> {
	static std::string f(pbt::Ctx& c) { return "w" + text(c, "abc0-.", 6); }
};
template <typename A, typename B> struct Gen<std::pair<A, B>> {
	static std::pair<A, B> f(pbt::Ctx& c)
	{
		A a = Gen<A>::f(c);
		return std::pair<A, B>(a, Gen<B>::f(c));
	}
};
template <typename T> struct Gen<std::vector<T>> {
	static std::vector<T> f(pbt::Ctx& c)
	{
		std::vector<T> v(c.below(4));
		for (auto& x : v)
			x = Gen<T>::f(c);
		return v;
	}
};

template <typename T> static void expectElement(std::ostream& os, const T& x) { os << x; }
template <typename A, typename B> static void expectElement(std::ostream& os, const std::pair<A, B>& x) { os << x.first << " " << x.second; }
template <typename T> static void expectElement(std::ostream& os, const std::vector<T>& v)
{
	os << v.size() << "\n";
	for (const auto& x : v) {
		expectElement(os, x);
		os << "\n";
	}
}

template <typename T> static void containers(pbt::Ctx& c, const char* what)
{
	typename PsimagLite::Vector<T>::Type v, w, old;
	const bool                        large = c.chance(1, 200);
	v.resize(c.skew(0, large ? 2000 : 12));
	std::unique_ptr<pbt::Ctx::Bulk> bulk(large ? new pbt::Ctx::Bulk(c) : nullptr);
	for (auto& x : v)
		x = Gen<T>::f(c);
	for (size_t i = c.below(4); i > 0; --i)
		old.push_back(Gen<T>::f(c));
	std::ostringstream os, want;
	os << std::setprecision(17);
	want << std::setprecision(17);
	os << v;
	expectElement(want, v);
	DESC(what << " " << want.str());
	if (v.size() > 1)
		c.nontrivial();
	CHECK(os.str() == want.str(), what << " vector text '" << os.str() << "' want '" << want.str() << "'");
	std::istringstream is(os.str() + " 4711");
	w = old;
	is >> w;
	CHECK(w == v, what << " vector back from its text");
	int next = 0;
	is >> next;
	CHECK(next == 4711, what << ": reading took " << (is ? "less or more" : "everything") << " than the vector");
	std::istringstream negative("-" + std::to_string(1 + c.below(4)) + " 1 2 3 4");
	CHECK(pbt::throws([&] { negative >> w; }), what << " negative size accepted");
}

PROP(vectors, 3)
{
	switch (c.below(7)) {
	case 0: containers<int>(c, "int"); break;
	case 1: containers<SizeType>(c, "SizeType"); break;
	case 2: containers<double>(c, "double"); break;
	case 3: containers<std::complex<double>>(c, "complex"); break;
	case 4: containers<std::string>(c, "string"); break;
	case 5: containers<std::pair<int, double>>(c, "pair"); break;
	default: containers<std::vector<int>>(c, "vector");
	}
}

PROP(pairs, 1)
{
	using namespace PsimagLite;
	std::pair<SizeType, SizeType> p(c.bits64() >> c.below(64), c.bits64() >> c.below(64)), q;
	DESC(p.first << " " << p.second);
	if (p.first != p.second)
		c.nontrivial();
	std::ostringstream os;
	PsimagLite::operator<<(os, p);
	CHECK(os.str() == std::to_string(p.first) + " " + std::to_string(p.second) + " ", "pair text '" << os.str() << "'");
	std::istringstream is(os.str()), is2(os.str());
	PsimagLite::operator>>(is, q);
	CHECK(p == q, "pair back from its text " << q.first << " " << q.second);
	std::pair<SizeType, SizeType> r;
	std::operator>>(is2, r);
	CHECK(p == r, "pair back from its text " << r.first << " " << r.second);
}

template <typename T> static void stacks(pbt::Ctx& c, const char* what)
{
	using PsimagLite::operator<<;
	using PsimagLite::operator>>;
	typename PsimagLite::Stack<T>::Type s, t;
	std::vector<T> v;
	for (size_t i = c.rare(0, 7, 500, 200); i > 0; --i) {
		v.push_back(Gen<T>::f(c));
		s.push(v.back());
	}
	for (size_t i = c.below(3); i > 0; --i)
		t.push(Gen<T>::f(c));
	DESC(what << " stack of " << v.size() << " read into one of " << t.size());
	if (v.size() > 1)
		c.nontrivial();
	std::ostringstream os;
	os << std::setprecision(17);
	PsimagLite::operator<<(os, s);
	CHECK(s.size() == v.size(), what << " stack changed by writing it");
	std::istringstream is(os.str());
	PsimagLite::operator>>(is, t);
	CHECK(t.size() == v.size(), what << " stack back from its text has " << t.size() << " elements");
	for (size_t i = v.size(); i > 0; --i) {
		CHECK(t.top() == v[i - 1], what << " element " << i - 1 << " of the stack");
		t.pop();
	}
}

PROP(stacks, 1)
{
	switch (c.below(3)) {
	case 0: stacks<int>(c, "int"); break;
	case 1: stacks<double>(c, "double"); break;
	default: stacks<std::string>(c, "string");
	}
}

// ---------------------------------------------------------------- application
PROP(application, 1)
{
	std::string data = anything(c, 40);
	std::string name = pbt::scratch() + "/slurp.txt";
	bool present = !c.chance(1, 8);
	unlink(name.c_str());
	if (present) {
		std::ofstream f(name.c_str(), std::ios::binary);
		f << data;
	}
	std::string path = text(c, "ab/", 8);
	std::vector<std::string> args(c.rare(1, 4, 60, 12));
	for (auto& a : args)
		a = text(c, "ab -/=", 5);
	DESC("file of " << data.size() << " bytes; program '" << path << "' with " << args.size() << " arguments");
	if (data.size() > 1 && args.size() > 1)
		c.nontrivial();
	CHECK(PsimagLite::PsiApp::slurp(name) == (present ? data : std::string()), "file content '" << PsimagLite::PsiApp::slurp(name) << "'");
	if (!c.chance(1, 8))
		return;
	std::vector<char*> argv;
	std::string line = "PsiApp: CmdLine: ";
	for (auto& a : args) {
		argv.push_back(&a[0]);
		line += a + " ";
	}
	argv.push_back(0);
	int argc = (int)args.size();
	char** pargv = &argv[0];
	PsimagLite::PsiApp app(path, &argc, &pargv, 1);
	std::string last = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
	CHECK(app.name() == last, "name '" << app.name() << "' want '" << last << "'");
	std::ostringstream os;
	app.printCmdLine(os);
	CHECK(os.str() == line + "\n", "command line '" << os.str() << "'");
}

PBT_MAIN
