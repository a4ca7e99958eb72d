// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PsiBase64.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-QUICK: 150000
// PBT-THOROUGH: 3000000
// PBT-RULE: a case writes an input file of random labelled scalars, strings, counted vectors, matrices, maps and indexed families in a random layout (comments, blank lines, values split over lines, repeated labels) and reads it back in a random order; fault cases change one thing in such a file;
// PBT-RULE: non-trivial = three or more items and (a repeated label, a vector or matrix, or a map)
#include "pbt.h"
#include <cmath>
#include <complex>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
#include "InputCheckBase.h"
#include "InputNg.h"

typedef std::complex<double> Cplx;

struct Log {
	std::vector<std::string> lines;
};

class MyCheck : public PsimagLite::InputCheckBase {

public:

	MyCheck(Log* log = 0)
	    : log_(log)
	{
	}

	bool check(const PsimagLite::String& label, const PsimagLite::Vector<PsimagLite::String>::Type& v, SizeType) const
	{
		if (log_) {
			std::string s = "V " + label;
			for (size_t i = 0; i < v.size(); ++i)
				s += " " + v[i];
			log_->lines.push_back(s);
		}
		return label[0] == 'M'; // these labels check their own sizes
	}

	void check(const PsimagLite::String& label, const PsimagLite::String& val, SizeType)
	{
		if (log_)
			log_->lines.push_back("S " + label + " " + val);
	}

	bool checkSimpleLabel(const PsimagLite::String& label, SizeType) const
	{
		if (log_)
			log_->lines.push_back("L " + label);
		return true;
	}

private:

	Log* log_;
};

typedef PsimagLite::InputNg<MyCheck> InputNgType;
typedef InputNgType::Writeable Writeable;
typedef InputNgType::Readable Readable;

enum Kind { INT,
	    REAL,
	    TEXT,
	    VEC,
	    CVEC,
	    SVEC,
	    MAT,
	    CMAT,
	    MAP,
	    FAMILY };

struct Item {
	Kind kind;
	std::string label; // as written
	std::vector<std::string> tok; // the values as written
	size_t rows, cols;
	std::vector<std::string> keys; // of a map
};

static std::string intTok(pbt::Ctx& c)
{
	if (c.chance(1, 8))
		return c.pickOf<const char*>({ "2147483647", "0", "1000000", "007", "+5" });
	return std::to_string(c.skew(0, 100000));
}

static std::string realTok(pbt::Ctx& c)
{
	switch (c.below(6)) {
	case 0: return std::to_string(c.sint(50));
	case 1: return c.pickOf<const char*>({ "0", "-0.5", "+1.25", ".5", "3.", "1e3", "-2.5e-3", "1E+2", "6.02214076e23", "1e-300", "-.25" });
	default: {
		char b[64];
		int p = c.range(1, 17);
		snprintf(b, sizeof(b), "%.*g", p, (c.real01() - 0.5) * std::pow(10.0, c.range(-6, 9)));
		return b;
	}
	}
}

static std::string complexTok(pbt::Ctx& c)
{
	if (c.chance(1, 4))
		return realTok(c);
	return "(" + realTok(c) + "," + realTok(c) + ")";
}

static Cplx complexOf(const std::string& s)
{
	if (s[0] != '(')
		return Cplx(strtod(s.c_str(), 0), 0);
	size_t k = s.find(',');
	return Cplx(strtod(s.substr(1, k - 1).c_str(), 0), strtod(s.substr(k + 1).c_str(), 0));
}

static std::string textTok(pbt::Ctx& c)
{
	// anything without blanks and comment signs; it does not start with an equal sign, nor with a ! that would start a family
	static const std::string chars = "abzXYZ_09.,:;+-*/%!$&()[]{}<>'\"\\?@^|~`=";
	std::string s;
	size_t n = c.bulk() ? c.range(1, 14) : c.rare(1, 14, 400, 200);
	for (size_t i = 0; i < n; ++i) {
		char ch = chars[c.below(chars.size())];
		if (i == 0 && (ch == '=' || ch == '!'))
			ch = 'q';
		s += ch;
	}
	return s;
}

static std::vector<std::string> labelPool(pbt::Ctx& c)
{
	static const char* stems[] = { "A", "B", "AB", "ABC", "a", "hubbardU", "hubbard", "Model", "Xi", "X", "potentialV", "_u", "Term" };
	std::vector<std::string> v;
	size_t n = c.range(2, 6);
	for (size_t i = 0; i < n; ++i) {
		std::string s = stems[c.below(sizeof(stems) / sizeof(stems[0]))];
		if (c.chance(1, 4))
			s += std::to_string(c.below(12));
		if (s[0] == 'M')
			s[0] = 'N';
		if (c.chance(1, 150))
			s += std::string(c.range(10, 300), 'L');
		if (i > 0 && c.chance(1, 8))
			s = v[c.below(i)] + c.pickOf<const char*>({ "map", "i", "v", "f" }); // one label begins as another
		v.push_back(s);
	}
	return v;
}

// one item with a given label stem; the kind is part of the label, so that each label has one kind
static Item anItem(pbt::Ctx& c, const std::string& stem, Kind k)
{
	Item it;
	it.kind = k;
	it.rows = it.cols = 0;
	static const char* suffix[] = { "i", "r", "t", "v", "cv", "sv", "m", "cm", "map", "f" };
	it.label = stem + suffix[k];
	size_t n = 0;
	// now and then a long one
	const bool                       large = !c.bulk() && c.chance(1, 120);
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	auto                             number = [&](size_t usual, size_t most) {
		size_t m = c.skew(1, large ? most : usual);
		if (large)
			bulk.reset(new pbt::Ctx::Bulk(c));
		return m;
	};
	switch (k) {
	case INT: it.tok.push_back(intTok(c)); break;
	case REAL: it.tok.push_back(realTok(c)); break;
	case TEXT: it.tok.push_back(textTok(c)); break;
	case VEC:
		n = number(12, 600);
		for (size_t i = 0; i < n; ++i)
			it.tok.push_back(realTok(c));
		break;
	case CVEC:
		n = number(8, 300);
		for (size_t i = 0; i < n; ++i)
			it.tok.push_back(complexTok(c));
		break;
	case SVEC:
		n = number(8, 300);
		for (size_t i = 0; i < n; ++i)
			it.tok.push_back(c.pickOf<const char*>({ "1:2:3", "(a,b)", "-", "0xff", "+plus", "5.6.7", "1+2", ":" }));
		break;
	case MAT:
	case CMAT:
		it.label = "M" + it.label;
		it.rows = large ? c.skew(1, 24) : c.range(1, 4);
		it.cols = large ? number(4, 24) : c.range(1, 4);
		for (size_t i = 0; i < it.rows * it.cols; ++i)
			it.tok.push_back(k == MAT ? realTok(c) : complexTok(c));
		break;
	case MAP:
		n = large ? number(5, 150) : c.range(1, 5);
		for (size_t i = 0; i < n; ++i) {
			std::string key = c.pickOf<const char*>({ "x", "xy", "y", "alpha", "1", "12", "a.b", "q,r" }) + std::string(i < 5 ? "" : "_") + std::to_string(i);
			if (i > 0 && c.chance(1, 16))
				key = it.keys[c.below(i)]; // again: the last one stays
			it.keys.push_back(key);
			it.tok.push_back(realTok(c));
		}
		break;
	case FAMILY:
		n = large ? number(12, 150) : c.range(1, 12);
		for (size_t i = 0; i < n; ++i)
			it.tok.push_back(realTok(c));
		it.keys.push_back(c.flip() ? "" : "End"); // what follows the index
		break;
	}
	return it;
}

static std::string blanks(pbt::Ctx& c, bool must)
{
	size_t n = c.skew(must ? 1 : 0, 4);
	std::string s;
	for (size_t i = 0; i < n; ++i)
		s += c.chance(1, 4) ? "\t" : " ";
	return s;
}

static std::string comment(pbt::Ctx& c)
{
	if (!c.chance(1, 4))
		return "";
	if (c.chance(1, 3)) {
		static const std::string chars = "ab19 #=!\\\"'@$:,()[]{}<>;/*\t";
		std::string s = "#";
		size_t n = c.skewRare(0, 12, 300, 150);
		for (size_t i = 0; i < n; ++i)
			s += chars[c.below(chars.size())];
		return s;
	}
	return c.pickOf<const char*>({ "#", "# a comment", "#A=3", "#B 2 1 2", "## double", "#=", "# !A$i 1 2" });
}

// between two values: blanks, or the end of a line with a comment
static std::string gap(pbt::Ctx& c)
{
	if (!c.chance(1, 6))
		return blanks(c, true);
	std::string s = blanks(c, false) + comment(c) + "\n";
	while (c.chance(1, 4))
		s += blanks(c, false) + comment(c) + "\n";
	return s + blanks(c, false);
}

static std::string render(pbt::Ctx& c, const Item& it)
{
	std::string s;
	switch (it.kind) {
	case INT:
	case REAL:
	case TEXT:
		s = it.label + "=";
		s += c.chance(1, 5) ? gap(c) : blanks(c, false);
		return s + it.tok[0];
	case MAP:
		for (size_t i = 0; i < it.tok.size(); ++i) {
			s += it.label + "[" + it.keys[i] + "]=" + it.tok[i];
			if (i + 1 < it.tok.size())
				s += gap(c);
		}
		return s;
	case FAMILY:
		s = "!" + it.label + "$i" + it.keys[0] + (c.chance(1, 4) ? "\t" : " ");
		for (size_t i = 0; i < it.tok.size(); ++i)
			s += (i ? " " : "") + it.tok[i];
		return s;
	default:
		s = it.label + gap(c);
		if (it.kind == MAT || it.kind == CMAT)
			s += std::to_string(it.rows) + gap(c) + std::to_string(it.cols);
		else
			s += std::to_string(it.tok.size());
		for (size_t i = 0; i < it.tok.size(); ++i)
			s += gap(c) + it.tok[i];
		return s;
	}
}

static std::string renderAll(pbt::Ctx& c, const std::vector<Item>& items)
{
	std::string text;
	while (c.chance(1, 4)) {
		std::string s = comment(c);
		if (text == "" && s.size() > 1 && s[1] == '#')
			s = "";
		text += blanks(c, false) + s + "\n";
	}
	if (text.compare(0, 2, "##") == 0)
		text = "\n" + text;
	for (size_t i = 0; i < items.size(); ++i) {
		bool lineStart = text == "" || text[text.size() - 1] == '\n';
		if (items[i].kind == FAMILY && !lineStart)
			text += "\n";
		else if (lineStart && items[i].kind != FAMILY)
			text += blanks(c, false);
		text += render(c, items[i]);
		bool last = i + 1 == items.size();
		if (items[i].kind == FAMILY)
			text += last && c.flip() ? "" : "\n";
		else if (last)
			text += c.flip() ? comment(c) : gap(c);
		else
			text += c.flip() ? std::string("\n") : gap(c);
	}
	return text;
}

static std::vector<Item> someItems(pbt::Ctx& c, size_t lo, bool& repeated, bool& big)
{
	std::vector<std::string> pool = labelPool(c);
	std::vector<Item> items;
	std::map<std::string, bool> seen;
	size_t n = c.rare(lo, 9, 60, 100);
	// now and then mostly one label
	const bool                      same = c.chance(1, 100);
	const Kind                      kind = Kind(c.below(6));
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (same) {
		n = c.chance(1, 6) ? c.range(95, 130) : c.range(5, 60);
		if (c.chance(1, 3))
			pool[0] += std::string(c.range(3, 100), 'L');
		bulk.reset(new pbt::Ctx::Bulk(c));
	}
	for (size_t i = 0; i < n; ++i) {
		Kind k = Kind(c.weighted({ 4, 4, 4, 4, 2, 1, 2, 1, 2, 1 }));
		bool one = same && !c.chance(1, 6);
		if (one)
			k = kind;
		Item it = anItem(c, pool[one ? 0 : c.below(pool.size())], k);
		bool was = seen[it.label];
		if (was && (k == MAP || k == FAMILY))
			continue; // families and maps are not repeated
		repeated |= was;
		seen[it.label] = true;
		big |= k >= VEC && k != FAMILY;
		items.push_back(it);
	}
	return items;
}

static std::vector<std::string> expectedLog(const std::vector<Item>& items)
{
	std::vector<std::string> log;
	std::map<std::string, size_t> times;
	auto scalar = [&](const std::string& label, const std::string& v) {
		log.push_back("L " + label);
		size_t t = times[label]++;
		log.push_back("S " + label + (t ? "@" + std::to_string(t) : "") + " " + v);
	};
	for (const Item& it : items) {
		if (it.kind <= TEXT)
			scalar(it.label, it.tok[0]);
		else if (it.kind == MAP)
			for (size_t i = 0; i < it.tok.size(); ++i)
				scalar(it.label + "[" + it.keys[i] + "]", it.tok[i]);
		else if (it.kind == FAMILY)
			for (size_t i = 0; i < it.tok.size(); ++i)
				scalar(it.label + std::to_string(i) + it.keys[0], it.tok[i]);
		else {
			std::string s = "V " + it.label;
			if (it.rows)
				s += " " + std::to_string(it.rows) + " " + std::to_string(it.cols);
			else
				s += " " + std::to_string(it.tok.size());
			for (const std::string& t : it.tok)
				s += " " + t;
			log.push_back("L " + it.label);
			log.push_back(s);
		}
	}
	return log;
}

static std::string joined(const std::vector<std::string>& v)
{
	std::string s;
	for (const std::string& x : v)
		s += x + "|";
	return s;
}

template <typename V> static V used(pbt::Ctx& c)
{
	V v;
	if (c.flip())
		v.resize(c.below(6));
	return v;
}

static void readAndCheck(pbt::Ctx& c, Readable& io, const Item& it, const std::string& text)
{
	std::string label = it.label;
	if (it.kind <= TEXT && c.flip())
		label += "=";
	const std::string& t = it.tok[0];
	switch (it.kind) {
	case INT: {
		long want = strtol(t.c_str(), 0, 10);
		size_t how = c.below(5);
		long got = -1;
		if (how == 0) {
			int x = 7;
			io.readline(x, label);
			got = x;
		} else if (how == 1) {
			SizeType x = 7;
			io.readline(x, label);
			got = x;
		} else if (how == 2) {
			long int x = 7;
			io.readline(x, label);
			got = x;
		} else if (how == 3) {
			SizeType x = 7;
			io.read(x, label);
			got = x;
		} else {
			double x = 7;
			io.readline(x, label);
			got = long(x);
		}
		CHECK(got == want, "integer " << label << " is " << got << " want " << t << " how " << how << " in " << text);
		break;
	}
	case REAL: {
		double x = 7;
		io.readline(x, label);
		CHECK(x == strtod(t.c_str(), 0), "number " << label << " is " << x << " want " << t << " in " << text);
		break;
	}
	case TEXT: {
		PsimagLite::String x = "old";
		io.readline(x, label);
		CHECK(x == t, "string " << label << " is " << x << " want " << t << " in " << text);
		break;
	}
	case VEC: {
		bool asInt = true;
		for (const std::string& s : it.tok)
			if (s.find_first_not_of("0123456789") != std::string::npos || s.size() > 9)
				asInt = false;
		if (asInt && c.flip()) {
			auto v = used<std::vector<SizeType>>(c);
			io.read(v, label);
			CHECK(v.size() == it.tok.size(), "vector " << label << " has " << v.size() << " elements in " << text);
			for (size_t i = 0; i < v.size(); ++i)
				CHECK(v[i] == strtoul(it.tok[i].c_str(), 0, 10), "vector " << label << " element " << i << " is " << v[i] << " in " << text);
			break;
		}
		auto v = used<std::vector<double>>(c);
		io.read(v, label);
		CHECK(v.size() == it.tok.size(), "vector " << label << " has " << v.size() << " elements in " << text);
		for (size_t i = 0; i < v.size(); ++i)
			CHECK(v[i] == strtod(it.tok[i].c_str(), 0), "vector " << label << " element " << i << " is " << v[i] << " want " << it.tok[i] << " in " << text);
		break;
	}
	case CVEC: {
		auto v = used<std::vector<Cplx>>(c);
		io.read(v, label);
		CHECK(v.size() == it.tok.size(), "vector " << label << " has " << v.size() << " elements in " << text);
		for (size_t i = 0; i < v.size(); ++i)
			CHECK(v[i] == complexOf(it.tok[i]), "vector " << label << " element " << i << " is " << v[i] << " want " << it.tok[i] << " in " << text);
		break;
	}
	case SVEC: {
		auto v = used<std::vector<PsimagLite::String>>(c);
		io.read(v, label);
		CHECK(v == it.tok, "vector of strings " << label << " is " << joined(v) << " in " << text);
		break;
	}
	case MAT: {
		PsimagLite::Matrix<double> m(c.below(4), c.below(4));
		io.read(m, label);
		CHECK(m.rows() == it.rows && m.cols() == it.cols, "matrix " << label << " has " << m.rows() << " rows in " << text);
		for (size_t i = 0; i < it.rows; ++i)
			for (size_t j = 0; j < it.cols; ++j)
				CHECK(m(i, j) == strtod(it.tok[i * it.cols + j].c_str(), 0), "matrix " << label << " (" << i << "," << j << ") is " << m(i, j) << " in " << text);
		break;
	}
	case CMAT: {
		PsimagLite::Matrix<Cplx> m(c.below(4), c.below(4));
		io.read(m, label);
		CHECK(m.rows() == it.rows && m.cols() == it.cols, "matrix " << label << " has " << m.rows() << " rows in " << text);
		for (size_t i = 0; i < it.rows; ++i)
			for (size_t j = 0; j < it.cols; ++j)
				CHECK(m(i, j) == complexOf(it.tok[i * it.cols + j]), "matrix " << label << " (" << i << "," << j << ") is " << m(i, j) << " in " << text);
		break;
	}
	case MAP: {
		std::map<PsimagLite::String, double> m;
		io.read(m, label);
		std::map<std::string, double> want;
		for (size_t i = 0; i < it.keys.size(); ++i)
			want[it.keys[i]] = strtod(it.tok[i].c_str(), 0);
		CHECK(m.size() == want.size(), "map " << label << " has " << m.size() << " entries in " << text);
		for (auto& p : want) {
			CHECK(m.count(p.first), "map " << label << " lacks " << p.first << " in " << text);
			CHECK(m[p.first] == p.second, "map " << label << " has " << m[p.first] << " for " << p.first << " in " << text);
		}
		break;
	}
	case FAMILY:
		for (size_t i = 0; i < it.tok.size(); ++i) {
			double x = 7;
			std::string l = it.label + std::to_string(i) + it.keys[0];
			io.readline(x, l + "=");
			CHECK(x == strtod(it.tok[i].c_str(), 0), l << " is " << x << " want " << it.tok[i] << " in " << text);
		}
		break;
	}
}

static Writeable makeWriteable(pbt::Ctx& c, const std::string& text, Log* log)
{
	if (c.chance(1, 8)) {
		std::string f = pbt::scratch() + "/n01.inp";
		{
			std::ofstream o(f.c_str());
			o << text;
		}
		Writeable w(f, MyCheck(log));
		unlink(f.c_str());
		CHECK(w.filename() == f, "name of the file");
		return w;
	}
	return Writeable(MyCheck(log), text);
}

PROP(roundTrip, 6)
{
	bool repeated = false, big = false;
	std::vector<Item> items = someItems(c, 1, repeated, big);
	std::string text = renderAll(c, items);
	DESC("file=<<" << text << ">>");
	if (items.size() > 2 && (repeated || big))
		c.nontrivial();
	c.labelIf(repeated, "repeated");

	Log log;
	Writeable w = makeWriteable(c, text, &log);
	std::vector<std::string> want = expectedLog(items);
	CHECK(log.lines == want, "the checker saw " << joined(log.lines) << " want " << joined(want) << " in <<" << text << ">>");
	Readable io(w);
	CHECK(!io.isAinur() && io.version() == 2, "line-oriented file taken for another format");

	// the labels in a random order, the entries of each label in the order of the file
	std::vector<std::string> order;
	std::map<std::string, std::vector<size_t>> where;
	for (size_t i = 0; i < items.size(); ++i) {
		if (!where.count(items[i].label))
			order.push_back(items[i].label);
		where[items[i].label].push_back(i);
	}
	std::vector<std::string> plan;
	for (size_t i = 0; i < items.size(); ++i)
		plan.push_back(items[i].label);
	for (size_t i = plan.size(); i > 1; --i)
		std::swap(plan[i - 1], plan[c.below(i)]);
	std::map<std::string, size_t> next;
	for (const std::string& l : plan) {
		const Item& it = items[where[l][next[l]]];
		if (it.kind == TEXT && c.chance(1, 4)) {
			PsimagLite::String x; // a look that does not consume
			io.readline(x, l + "=", false);
			CHECK(x == it.tok[0], "looking at " << l << " gives " << x << " want " << it.tok[0] << " in <<" << text << ">>");
		}
		readAndCheck(c, io, it, "<<" + text + ">>");
		++next[l];
	}
	// what was read stays readable with its last value
	for (const std::string& l : order)
		if (c.flip())
			readAndCheck(c, io, items[where[l].back()], "(again) <<" + text + ">>");
	// a label that is not there
	std::string absent = c.pickOf<const char*>({ "absent", "A", "Xi", "hubbard" });
	if (!where.count(absent)) {
		double x;
		PsimagLite::String s;
		std::vector<double> v;
		CHECK(pbt::throws([&] { io.readline(x, absent + "="); }), "absent number " << absent << " in <<" << text << ">>");
		CHECK(pbt::throws([&] { io.readline(s, absent + "="); }), "absent string " << absent << " in <<" << text << ">>");
		CHECK(pbt::throws([&] { io.read(v, absent); }), "absent vector " << absent << " in <<" << text << ">>");
		PsimagLite::Matrix<double> m;
		CHECK(pbt::throws([&] { io.read(m, absent); }), "absent matrix " << absent << " in <<" << text << ">>");
	}
}

PROP(removal, 1)
{
	// a forced removal makes the label absent, or uncovers the next one
	bool repeated = false, big = false;
	std::vector<Item> items = someItems(c, 2, repeated, big);
	std::string text = renderAll(c, items);
	DESC("file=<<" << text << ">>");
	Writeable w = makeWriteable(c, text, 0);
	Readable io(w);
	std::map<std::string, std::vector<std::string>> values;
	for (const Item& it : items)
		if (it.kind <= TEXT)
			values[it.label].push_back(it.tok[0]);
	if (values.size() > 1)
		c.nontrivial();
	for (auto& p : values) {
		for (size_t i = 0; i < p.second.size(); ++i) {
			PsimagLite::String x;
			io.readline(x, p.first + "=", true, true);
			CHECK(x == p.second[i], p.first << " gives " << x << " want " << p.second[i] << " in <<" << text << ">>");
		}
		PsimagLite::String x;
		CHECK(pbt::throws([&] { io.readline(x, p.first + "="); }), p.first << " is still there after its removal in <<" << text << ">>");
	}
}

PROP(faults, 3)
{
	bool repeated = false, big = false;
	std::vector<Item> items = someItems(c, 1, repeated, big);
	size_t kind = c.below(7);
	std::string stem = "Zf"; // a label that the others do not have
	std::string bad, what;
	auto complete = [&](const std::string& line) {
		// the bad line at a random place
		size_t at = c.below(items.size() + 1);
		std::vector<Item> before(items.begin(), items.begin() + at), after(items.begin() + at, items.end());
		std::string s = before.empty() ? "" : renderAll(c, before) + "\n";
		s += line + "\n";
		return after.empty() ? s : s + renderAll(c, after);
	};
	c.nontrivial();
	switch (kind) {
	case 0: {
		// wrong number of elements
		size_t n = c.range(1, 9), m = c.range(0, 10);
		if (n == m)
			++m;
		bad = stem + " " + std::to_string(n);
		for (size_t i = 0; i < m; ++i)
			bad += gap(c) + realTok(c);
		std::string text = complete(bad);
		DESC("count " << n << " for " << m << " elements: <<" << text << ">>");
		CHECK(pbt::throws([&] { Writeable w(MyCheck(), text); Readable io(w); }), n << " announced, " << m << " given: <<" << text << ">>");
		break;
	}
	case 1: {
		// a matrix without all its elements, or with a wrong size
		size_t r = c.range(1, 4), k = c.range(1, 4), n = r * k;
		size_t given = c.below(n);
		bool zero = c.chance(1, 4);
		bool cplx = c.flip();
		bad = "MZf " + (zero ? std::string(c.pickOf<const char*>({ "0", "-1", "x" })) : std::to_string(r)) + " " + std::to_string(k);
		for (size_t i = 0; i < (zero ? n : given); ++i)
			bad += " " + realTok(c);
		std::string text = complete(bad);
		DESC("matrix: <<" << text << ">>");
		CHECK(pbt::throws([&] {
			Writeable w(MyCheck(), text);
			Readable io(w);
			if (cplx) {
				PsimagLite::Matrix<Cplx> m;
				io.read(m, "MZf");
			} else {
				PsimagLite::Matrix<double> m;
				io.read(m, "MZf");
			}
		}),
		      "a matrix with a wrong size is read from <<" << text << ">>");
		break;
	}
	case 2: {
		// what is not a number
		std::string t = c.pickOf<const char*>({ "abc", "1x", "1.2.3", "--1", "1e", "e5", "0x10", "1,2", "nan1", "1-2", "+", "-", "." });
		int how = c.below(5);
		bad = stem + "=" + t;
		std::string text = complete(bad);
		DESC("not a number, how=" << how << ": <<" << text << ">>");
		Writeable w(MyCheck(), text);
		Readable io(w);
		CHECK(pbt::throws([&] {
			if (how == 0) {
				double x;
				io.readline(x, stem + "=");
			} else if (how == 1) {
				int x;
				io.readline(x, stem + "=");
			} else if (how == 2) {
				SizeType x;
				io.readline(x, stem + "=");
			} else if (how == 3) {
				long int x;
				io.readline(x, stem + "=");
			} else {
				SizeType x;
				io.read(x, stem);
			}
		}),
		      t << " is read as a number, how=" << how);
		break;
	}
	case 3: {
		// a real or a number out of range where an integer is wanted
		std::string t = c.pickOf<const char*>({ "1.5", "1e3", ".5", "3.0", "99999999999999999999", "2147483648", "-1", "-2147483648" });
		std::string text = complete(stem + "=" + t);
		DESC("not an integer: <<" << text << ">>");
		Writeable w(MyCheck(), text);
		Readable io(w);
		int how = t[0] == '-' ? c.pickOf<int>({ 1, 3 }) : int(c.below(4)); // a negative number is no size
		long int x = 0;
		CHECK(pbt::throws([&] {
			if (how == 0) {
				int y;
				io.readline(y, stem + "=");
				x = y;
			} else if (how == 1) {
				SizeType y;
				io.readline(y, stem + "=");
				x = y;
			} else if (how == 2) {
				io.readline(x, stem + "=");
			} else {
				SizeType y;
				io.read(y, stem);
				x = y;
			}
		}),
		      t << " is read as the integer " << x << " how=" << how);
		break;
	}
	case 4: {
		// an element that is not a number
		size_t n = c.range(1, 5), at = c.below(n);
		int how = c.below(6);
		bad = how < 2 || how > 3 ? stem + " " + std::to_string(n) : "MZf " + std::to_string(n) + " 1";
		std::string t;
		for (size_t i = 0; i < n; ++i) {
			std::string e = how > 3 ? std::to_string(c.below(1000)) : realTok(c);
			if (i == at && how > 3 && c.flip())
				e = t = how == 4 ? c.pickOf<const char*>({ "1.5", "-0.25", "3000000000", "-2147483649", "1e10", "1e-1" })
				                 : c.pickOf<const char*>({ "1.5", "-1", "-1e3", "1e20", "0.999", "18446744073709551616" });
			else if (i == at)
				e = t = c.pickOf<const char*>({ "1x", "1:2", "1.2.3", "--1", "(1,2", "(1,x)", "(x,2)", "+", "(,)", "1,2", "(1,2)3", "(1", "(", "(1,2))", "(1,2,3)" });
			bad += " " + e;
		}
		std::string text = complete(bad);
		DESC("bad element " << t << " how=" << how << ": <<" << text << ">>");
		Writeable w(MyCheck(), text);
		Readable io(w);
		CHECK(pbt::throws([&] {
			if (how == 0) {
				std::vector<double> v;
				io.read(v, stem);
			} else if (how == 1) {
				std::vector<Cplx> v;
				io.read(v, stem);
			} else if (how == 4) {
				std::vector<int> v;
				io.read(v, stem);
			} else if (how == 5) {
				std::vector<SizeType> v;
				io.read(v, stem);
			} else if (how == 2) {
				PsimagLite::Matrix<double> m;
				io.read(m, "MZf");
			} else {
				PsimagLite::Matrix<Cplx> m;
				io.read(m, "MZf");
			}
		}),
		      t << " is read as an element, how=" << how);
		break;
	}
	case 5: {
		// a malformed family
		bad = c.pickOf<const char*>({ "!Zf", "!Zf$", "!Zf$j 1 2", "!Zf$i", "!Zf$iB", "!Zf 1 2", "!$" });
		std::string text = complete(bad);
		DESC("family: <<" << text << ">>");
		CHECK(pbt::throws([&] { Writeable w(MyCheck(), text); Readable io(w); }), "accepted: <<" << text << ">>");
		break;
	}
	case 6: {
		// a malformed map entry; a file that is not there; an empty label
		std::string text = complete("Zf[a=3");
		DESC("map: <<" << text << ">>");
		Writeable w(MyCheck(), text);
		Readable io(w);
		std::map<PsimagLite::String, double> m;
		CHECK(pbt::throws([&] { io.read(m, "Zf"); }), "an entry without its bracket is read");
		CHECK(pbt::throws([&] { Writeable w2(pbt::scratch() + "/does-not-exist", MyCheck()); }), "a file that is not there is read");
		double x;
		CHECK(pbt::throws([&] { io.readline(x, ""); }), "an empty label is read");
		break;
	}
	}
}

PROP(ainurFamilies, 1)
{
	// the other format starts with ##; families are expanded there too
	size_t n = c.range(1, 12);
	std::string end = c.flip() ? "" : "End";
	std::vector<std::string> tok;
	std::string line = "!Fam$i" + end + " ";
	std::string decl;
	for (size_t i = 0; i < n; ++i) {
		tok.push_back(std::to_string(c.sint(1000)));
		line += (i ? " " : "") + tok[i];
		decl += "integer Fam" + std::to_string(i) + end + ";\n";
	}
	std::string text = "##Ainur1.0\n" + decl + "string s=\"hello\";\n" + line + "\n";
	DESC(text);
	if (n > 2)
		c.nontrivial();
	Writeable w = makeWriteable(c, text, 0);
	Readable io(w);
	CHECK(io.isAinur() && io.version() == 3, "not taken for Ainur: " << text);
	for (size_t i = 0; i < n; ++i) {
		int x = -7;
		io.readline(x, "Fam" + std::to_string(i) + end + (c.flip() ? "=" : ""));
		CHECK(x == strtol(tok[i].c_str(), 0, 10), "element " << i << " is " << x << " want " << tok[i] << " in " << text);
	}
	PsimagLite::String s;
	io.readline(s, "s=");
	CHECK(s == "hello", "s is " << s);
	int x;
	CHECK(pbt::throws([&] { io.readline(x, "absent="); }), "absent label");
}

PBT_MAIN
