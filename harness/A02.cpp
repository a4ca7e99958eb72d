// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-QUICK: 120000
// PBT-THOROUGH: 5000000
// PBT-RULE: a case is arbitrary text (token sequences, bytes), generated text of a value compared with an independent reader, a one-character mutation of a well-formed program, or a program with one planted fault of a named kind;
// PBT-RULE: non-trivial = text of eight or more characters, or a mutation inside a value, or a planted fault
#include "ainurg.h"
using namespace ag;

// reads every label in every way: only library errors may come out
template <typename T> void tryRead(const Ainur& a, const std::string& label, T t)
{
	pbt::throws([&] { a.readValue(t, label); });
}
static void readAll(const Ainur& a, const std::string& label)
{
	tryRead(a, label, int(0));
	tryRead(a, label, SizeType(0));
	tryRead(a, label, 0.0);
	tryRead(a, label, std::string());
	tryRead(a, label, std::vector<int>());
	tryRead(a, label, std::vector<SizeType>(2));
	tryRead(a, label, std::vector<double>(3));
	tryRead(a, label, std::vector<Cplx>());
	tryRead(a, label, std::vector<std::string>());
	tryRead(a, label, Matrix<double>());
	tryRead(a, label, Matrix<Cplx>(1, 2));
	tryRead(a, label, Matrix<std::string>());
}
static bool tryProgram(Ctx& c, const std::string& text)
{
	Quiet quiet;
	bool ok = true;
	try {
		Ainur a(text);
		std::map<std::string, std::string> m;
		a.setMap(m);
		for (auto& kv : m)
			readAll(a, kv.first);
		for (const char* s : { "a", "b", "_x", "", "AinurFromFile" })
			readAll(a, s);
		std::ostringstream os;
		a.printAll(os);
		a.printUnused(os);
		pbt::throws([&] { a.resolve(text); });
	} catch (const std::exception&) {
		ok = false;
	}
	c.label(ok ? "accepted" : "refused");
	return ok;
}

PROP(tokens, 3)
{
	static const char* tok[] = { "a", "b", "_x", "int", "real ", "string!", "=", "=", "=", ";", ";", ";", "[", "]", ",", "...", "...x3", "...x0", "...x-2", "\"", "# c\n", "#", "\\", "\\a", "\\b", "\\AinurFromFile", "\\AinurFromFile(\"none\")", "(", ")", "(1)", "!", "!AinurFromFile", "\n", " ", "1", "-2", "3.5", "1e9", "i", ":", ".", "\t", "[[", "]]", "int a=1;", "vector b=[1,2];", "%t" };
	std::string t;
	const size_t total = sizeof(tok) / sizeof(*tok);
	if (c.flip()) {
		for (size_t n = c.range(1, 30); n > 0; --n)
			t += tok[c.below(total)];
	} else { // values made of tokens
		static const char* head[] = { "int a=", "vector b =", "string! _x= ", "int a;a=" };
		for (size_t n = c.below(4), k = 0; k <= n && k < 4; ++k) {
			t += head[k == 3 && n == 3 ? 2 : k % 3];
			for (size_t l = c.range(1, 7); l > 0; --l) {
				std::string s = tok[c.below(total)];
				t += s.find(';') == std::string::npos ? s : ",";
			}
			t += ";";
		}
	}
	DESC(t);
	if (t.size() >= 8)
		c.nontrivial();
	tryProgram(c, t);
}

PROP(bytes, 1)
{
	std::string t;
	bool illegal = false;
	for (size_t n = c.skew(0, 40); n > 0; --n) {
		char ch = c.chance(1, 8) ? (char)c.below(256) : (char)c.range(32, 126);
		unsigned char u = ch;
		illegal |= !(u == ' ' || u == '\t' || u == '\n' || u == '\r' || (u >= 33 && u <= 126 && u != '`'));
		t += ch;
	}
	DESC(t);
	if (t.size() >= 8)
		c.nontrivial();
	bool ok = tryProgram(c, t);
	CHECK(!(ok && illegal), "text with a character outside of the alphabet was accepted");
}

// ---- an independent reader of value text
struct Ref {
	static std::string trim(const std::string& s)
	{
		size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
		return b == std::string::npos ? "" : s.substr(b, e - b + 1);
	}
	static bool integer(const std::string& s, long& x)
	{
		size_t i = s.size() && (s[0] == '-' || s[0] == '+');
		if (i == s.size() || s.find_first_not_of("0123456789", i) != std::string::npos)
			return false;
		// at most ten significant digits, to stay in range of the accumulator
		size_t z = std::min(s.find_first_not_of('0', i), s.size());
		if (s.size() - z > 10)
			return false;
		x = 0;
		for (size_t k = z; k < s.size(); ++k)
			x = 10 * x + (s[k] - '0');
		if (s[0] == '-')
			x = -x;
		return x >= -2147483648L && x <= 2147483647L;
	}
	static bool real(const std::string& s, double& x)
	{
		size_t i = 0, digits = 0;
		if (i < s.size() && (s[i] == '-' || s[i] == '+'))
			++i;
		for (; i < s.size() && isdigit(s[i]); ++i)
			++digits;
		if (i < s.size() && s[i] == '.')
			for (++i; i < s.size() && isdigit(s[i]); ++i)
				++digits;
		if (!digits)
			return false;
		if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
			++i;
			if (i < s.size() && (s[i] == '-' || s[i] == '+'))
				++i;
			size_t d = 0;
			for (; i < s.size() && isdigit(s[i]); ++i)
				++d;
			if (!d)
				return false;
		}
		x = strtod(s.c_str(), 0);
		return i == s.size() && std::isfinite(x);
	}
	static bool complex(const std::string& s, Cplx& z)
	{
		size_t k = s.find('i');
		double a = 0, b = 0;
		if (k == std::string::npos) {
			if (!real(s, a))
				return false;
			z = a;
			return true;
		}
		std::string l = trim(s.substr(0, k)), r = trim(s.substr(k + 1));
		if (s == "i" || s == "-i") {
			z = Cplx(0, s == "i" ? 1 : -1);
			return true;
		}
		if ((l.size() && !real(l, a)) || !real(r, b))
			return false;
		z = Cplx(a, b);
		return true;
	}
	// [a, b, ...]; returns false if it is not one bracketed list
	static bool list(const std::string& s, std::vector<std::string>& v)
	{
		if (s.size() < 2 || s[0] != '[' || s.back() != ']')
			return false;
		std::string in = s.substr(1, s.size() - 2), e;
		if (in.find_first_of("[]") != std::string::npos)
			return false;
		in += ',';
		for (char ch : in) {
			if (ch == ',') {
				if (trim(e).empty())
					return false;
				v.push_back(trim(e));
				e = "";
			} else
				e += ch;
		}
		return true;
	}
};

template <typename T> bool readAs(const std::string& text, T& t)
{
	Ainur a("x v=" + text + ";");
	return !pbt::throws([&] { a.readValue(t, "v"); });
}

// text that looks like a number or a list of numbers is read as what it says, or refused
PROP(numbers, 4)
{
	static const std::string al = "00112345679-+.eEi ";
	auto num = [&] {
		if (c.chance(1, 3))
			return c.flip() ? intText(c, true) : c.flip() ? realText(c) : cplxText(c).text;
		std::string s;
		for (size_t n = 1 + c.skew(0, 6); n > 0; --n)
			s += al[c.below(al.size())];
		return s;
	};
	std::string text = num();
	bool isList = c.flip();
	if (isList) {
		text = "[" + text;
		for (size_t n = c.skew(0, 3); n > 0; --n)
			text += c.pickOf<const char*>({ ",", ",", ",", ", ", ",\n", "", "[", "," }) + num();
		text += c.chance(1, 12) ? "" : "]";
	}
	DESC("{" << text << "}");
	if (text.size() >= 4)
		c.nontrivial();
	std::string t = Ref::trim(text);
	if (t.empty())
		return;
	Quiet quiet;
	long wi = 0;
	double wr = 0;
	if (!isList) {
		int i = 0;
		SizeType u = 0;
		double r = 0;
		std::string s;
		bool ok = Ref::integer(t, wi);
		c.label(ok ? "integer" : Ref::real(t, wr) ? "real" : "not a number");
		bool got = readAs(text, i);
		CHECK(got == ok, "an int is " << (got ? "read from" : "refused from") << " {" << text << "}, value " << i);
		CHECK(!ok || i == wi, "the int in {" << text << "} was read as " << i);
		got = readAs(text, u);
		const bool oku = ok && wi >= 0;
		CHECK(got == oku && (!oku || u == (SizeType)wi), "a size in {" << text << "} was " << (got ? "read as " : "refused, not ") << u);
		ok = Ref::real(t, wr);
		got = readAs(text, r);
		CHECK(got == ok && (!ok || r == wr), "a real in {" << text << "} was " << (got ? "read as " : "refused, not ") << r);
		CHECK(readAs(text, s) && s == t, "the text {" << text << "} was read as {" << s << "}");
		std::vector<int> vi;
		std::vector<Cplx> vc;
		Matrix<double> m;
		CHECK(!readAs(text, vi), "a vector was read from {" << text << "}");
		CHECK(!readAs(text, vc), "a vector was read from {" << text << "}");
		CHECK(!readAs(text, m), "a matrix was read from {" << text << "}");
		return;
	}
	if (t.find(']') != std::string::npos && t.find(']') + 1 != t.size())
		return; // text after the list: a warning only
	std::vector<std::string> e;
	bool ok = Ref::list(t, e), oki = ok, okr = ok, okc = ok;
	std::vector<long> li;
	std::vector<double> lr;
	std::vector<Cplx> lc;
	for (auto& s : e) {
		long a = 0;
		double b = 0;
		Cplx z;
		oki = oki && Ref::integer(s, a);
		okr = okr && Ref::real(s, b);
		okc = okc && Ref::complex(s, z);
		li.push_back(a);
		lr.push_back(b);
		lc.push_back(z);
	}
	if (e.size() == 2 && e[1].substr(0, 3) == "...")
		return; // repetition
	c.label(oki ? "integers" : okr ? "reals" : okc ? "complex" : ok ? "list of something else" : "not a list");
	std::vector<int> vi(c.skew(0, 3));
	std::vector<double> vr(c.skew(0, 3));
	std::vector<Cplx> vc(c.skew(0, 3));
	std::vector<std::string> vs(c.skew(0, 3));
	bool got = readAs(text, vi);
	CHECK(got == oki && (!oki || sameVec(vi, li)), "{" << text << "} was " << (got ? "read as integers " : "refused as integers ") << show(vi));
	std::vector<SizeType> vu(c.skew(0, 3));
	got = readAs(text, vu);
	bool oku = oki;
	for (long x : li)
		oku = oku && x >= 0;
	CHECK(got == oku && (!oku || sameVec(vu, li)), "{" << text << "} was " << (got ? "read as sizes " : "refused as sizes ") << show(vu));
	got = readAs(text, vr);
	CHECK(got == okr && (!okr || sameVec(vr, lr)), "{" << text << "} was " << (got ? "read as reals " : "refused as reals ") << show(vr));
	got = readAs(text, vc);
	CHECK(got == okc && (!okc || sameVec(vc, lc)), "{" << text << "} was " << (got ? "read as complex " : "refused as complex ") << show(vc));
	got = readAs(text, vs);
	CHECK(got == ok && (!ok || sameVec(vs, e)), "{" << text << "} was " << (got ? "read as strings " : "refused as strings ") << show(vs));
	Matrix<double> m(1, 2);
	if (t.find_first_not_of("[] \n") == std::string::npos)
		return; // [] is the empty matrix
	CHECK(!readAs(text, m), "a matrix was read from {" << text << "}");
	// the same list as the rows of a matrix
	size_t rows = c.range(1, 3);
	std::string mt = "[" + text;
	for (size_t i = 1; i < rows; ++i)
		mt += "," + text;
	mt += "]";
	got = readAs(mt, m);
	bool shape = got && m.rows() == rows && m.cols() == lr.size();
	CHECK(got == okr && (!okr || (shape && std::equal(lr.begin(), lr.end(), flat(m).end() - lr.size()))), "the matrix {" << mt << "} was " << (got ? "read with rows " : "refused ") << m.rows());
}

// a mutation inside the value of one variable cannot change any other variable
PROP(mutation, 3)
{
	Program p = program(c, 6);
	std::vector<size_t> with;
	for (size_t i = 0; i < p.vars.size(); ++i)
		if (p.vars[i].hasValue && p.vars[i].v.text.size())
			with.push_back(i);
	if (with.empty())
		return;
	size_t i = with[c.below(with.size())];
	std::string t = p.text;
	size_t pos = p.span[i].first + c.below(p.span[i].second - p.span[i].first);
	bool confined = true;
	static const std::string odd = "[],.-+ei\"()=!0 9ax#\n:";
	switch (c.below(5)) {
	case 0:
		t.erase(pos, 1);
		break;
	case 1:
		t.insert(pos, 1, odd[c.below(odd.size())]);
		break;
	case 2:
		t[pos] = odd[c.below(odd.size())];
		break;
	case 3:
		t[pos] = (char)c.range(32, 126);
		confined = t[pos] != ';' && t[pos] != '\\';
		break;
	default:
		t.erase(pos, 1 + c.below(p.span[i].second - pos));
		break;
	}
	size_t head = t.find_first_not_of(" \t\r\n", p.span[i].first);
	if (head == std::string::npos || t[head] == '#' || t[head] == ';')
		confined = false; // what follows the equal sign is a comment, or nothing
	if (!confined) {
		tryProgram(c, t);
		return;
	}
	DESC(t);
	c.nontrivial();
	Quiet quiet;
	std::unique_ptr<Ainur> a;
	if (pbt::throws([&] { a.reset(new Ainur(t)); })) {
		c.label("program refused");
		return;
	}
	c.label("program accepted");
	for (size_t k = 0; k < p.vars.size(); ++k)
		if (k != i && p.vars[k].hasValue)
			readAndCheck(c, *a, p.vars[k].name, p.vars[k].v);
	readAll(*a, p.vars[i].name);
}

// truncation at any point is refused, or leaves the complete statements as they were
PROP(truncation, 1)
{
	Program p = program(c, 6);
	std::string t = p.text.substr(0, c.below(p.text.size() + 1));
	DESC(t);
	if (t.size() >= 8)
		c.nontrivial();
	Quiet quiet;
	std::unique_ptr<Ainur> a;
	if (pbt::throws([&] { a.reset(new Ainur(t)); })) {
		c.label("program refused");
		return;
	}
	c.label("program accepted");
	for (size_t k = 0; k < p.vars.size(); ++k)
		if (p.vars[k].hasValue && p.span[k].second < t.size())
			readAndCheck(c, *a, p.vars[k].name, p.vars[k].v);
}

// one fault of a known kind: the program is refused, or reading the label is
PROP(fault, 4)
{
	Program p = program(c, 4);
	std::string before = p.body + ";";
	// a name that the program does not have
	std::string n = (c.chance(1, 4) ? "_Fault" : "Fault") + std::to_string(c.below(100)), m = n + "m";
	std::string v = std::to_string(c.below(1000)), s, label = n;
	std::string g = gap(c, true), kind;
	bool atStart = false; // the whole program must be refused
	switch (c.below(24)) {
	case 0:
		kind = "assignment to an undeclared name", s = n + "=" + v, atStart = true;
		break;
	case 1:
		kind = "doubly declared", s = "int " + n + "=" + v + ";" + g + "real" + g + n + (c.flip() ? "=" + v : ""), atStart = true;
		break;
	case 2:
		kind = "assignment before declaration", s = n + "=" + v + ";int " + n, atStart = true;
		break;
	case 3:
		kind = "missing terminator", s = "int " + n + "=" + v + "\nint " + m + "=" + v;
		if (c.flip())
			label = m;
		break;
	case 4:
		kind = "missing equal sign", s = "int " + n + " " + v, atStart = true;
		break;
	case 5:
		kind = "missing value", s = "int " + n + g + "=" + c.pickOf<const char*>({ "", " ", "\n" }), atStart = true;
		break;
	case 6:
		kind = "missing name", s = "int =" + v, atStart = true;
		break;
	case 7:
		kind = "bad name", s = std::string("int ") + c.pickOf<const char*>({ "1x", "_1", "-", "[a]", "a-b", "a.b" }) + "=" + v, atStart = true;
		break;
	case 8:
		kind = "unbalanced bracket", s = "vector " + n + "=" + c.pickOf<const char*>({ "[1,2", "1,2]", "[[1,2]", "[1,[2]", "[" });
		break;
	case 9:
		kind = "letters for a number", s = "int " + n + "=" + v + c.pickOf<const char*>({ "a", "x1", ",", "\"", "=" });
		break;
	case 10:
		kind = "scalar for a vector", s = "vector " + n + "=" + v;
		break;
	case 11:
		kind = "vector for a scalar", s = "int " + n + "=[" + v + "]";
		break;
	case 12:
	{
		kind = "ragged matrix", s = "matrix " + n + "=[";
		size_t rows = c.range(2, 4), cols = c.range(1, 4), odd = c.below(rows), other = cols + c.range(1, 2) * (c.flip() && cols > 2 ? -1 : 1);
		for (size_t i = 0; i < rows; ++i) {
			s += i ? ",[" : "[";
			for (size_t j = 0; j < (i == odd ? other : cols); ++j)
				s += (j ? "," : "") + std::to_string(c.below(10));
			s += "]";
		}
		s += "]";
		break;
	}
	case 13:
		kind = "character outside of the alphabet", s = "int " + n + "=" + v + std::string(1, c.pickOf<char>({ '`', '\x01', '\x7f', '\x80', '\xff', '\v', '\0' })), atStart = true;
		break;
	case 14:
		kind = "absent label", s = "int " + n + "=" + v, label = m;
		break;
	case 15:
		kind = "no value", s = "int " + n;
		break;
	case 16:
		// the names of the program have no single q, Q, or 7
		kind = "unknown macro", s = "string " + n + "=x\\" + c.pickOf<std::string>({ m, "q", "Q", "7", "_", "q_", n + "0" }) + c.pickOf<const char*>({ "", " ", "+1", "\\" }), atStart = true;
		break;
	case 17:
		kind = "ellipsis without a size", s = "vector " + n + "=[" + v + ", ...]";
		break;
	case 18:
		kind = "ellipsis with a bad size", s = "vector " + n + "=[" + v + ", ...x" + c.pickOf<const char*>({ "0", "-1", "a", "1.5", "12345a", "123456a", "1000000000000", "99999999999999999999", "4 4", "4x4", "+", "-" }) + "]";
		break;
	case 19:
		kind = "macro of itself", s = "string " + n + "=" + c.pickOf<const char*>({ "a", "", "\"" }) + "\\" + n + c.pickOf<const char*>({ "b", "", " " }), atStart = true;
		if (s.find(n + "b") != std::string::npos)
			s += " ";
		break;
	case 20:
		kind = "macro of itself twice", s = "string " + n + "=\\" + n + "\\" + n + " \\" + n, atStart = true;
		break;
	case 21: {
		kind = "ellipsis out of place", s = "vector " + n + "=[" + c.pickOf<std::string>({ v + ", " + v + ", ...", v + ", ..., " + v, "..., " + v, "...", v + ", ..., ...", "...x3", v + ", ...x2, " + v, v + ", " + v + ", ...x3" }) + "]";
		break;
	}
	case 22:
		kind = "text after the end", s = "int " + n + "=" + v + ";" + g + c.pickOf<const char*>({ "}", "{", "%", "]", "[", ")", "3", "=", "=3", "\"", "-", ".", "\\", "a", "_", "!" }), atStart = true;
		break;
	default:
		kind = "macros of each other", s = "string " + n + "=1\\" + m + ";string " + m + "=\\" + n, atStart = true;
		break;
	}
	c.label(kind);
	c.nontrivial();
	std::string t = before + gap(c) + s + (c.flip() ? ";" + gap(c) : c.pickOf<const char*>({ ";", "" }));
	DESC(kind << ": {" << t << "}");
	Quiet quiet;
	std::unique_ptr<Ainur> a;
	if (pbt::throws([&] { a.reset(new Ainur(t)); }))
		return;
	CHECK(!atStart, kind << ": the program was accepted");
	int i = 0;
	double r = 0;
	std::vector<double> vr(kind == "ellipsis without a size" ? 0 : c.below(4));
	Matrix<double> mr;
	bool scalar = kind == "scalar for a vector";
	CHECK(pbt::throws([&] { a->readValue(i, label); }) || scalar, kind << ": an int was read: " << i);
	CHECK(pbt::throws([&] { a->readValue(r, label); }) || scalar, kind << ": a real was read: " << r);
	CHECK(pbt::throws([&] { a->readValue(vr, label); }) || kind == "vector for a scalar", kind << ": a vector was read: " << show(vr));
	if (kind == "no value" || kind == "absent label") {
		std::string str = "old";
		std::vector<std::string> vs;
		CHECK(pbt::throws([&] { a->readValue(str, label); }), kind << ": a string was read: {" << str << "}");
		CHECK(pbt::throws([&] { a->readValue(vs, label); }), kind << ": strings were read: " << show(vs));
	}
	CHECK(pbt::throws([&] { a->readValue(mr, label); }), kind << ": a matrix was read: " << show(flat(mr)));
}
PBT_MAIN
