// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-QUICK: 200000
// PBT-THOROUGH: 1500000
// PBT-RULE: a case writes a program whose values use macros (nested, adjacent, redefined, at every position) and compares each value with a reference expansion, or writes a table file and evaluates functions of its columns;
// PBT-RULE: non-trivial = two or more macro uses, or a table of three or more rows
#include "ainurg.h"
#include <unistd.h>
using namespace ag;

struct Item {
	std::string name, value;
	bool quoted;
	int order; // macros only use macros of lower order, so that expansion ends
};

static bool nameChar(char ch) { return isalnum((unsigned char)ch) || ch == '_'; }

static std::string expand(const std::map<std::string, std::string>& defs, const std::string& v)
{
	std::string s;
	for (size_t i = 0; i < v.size();) {
		if (v[i] != '\\') {
			s += v[i++];
			continue;
		}
		std::string name;
		for (++i; i < v.size() && nameChar(v[i]); ++i)
			name += v[i];
		s += expand(defs, defs.at(name));
	}
	return s;
}

PROP(strings, 4)
{
	size_t n = c.rare(2, 7, 60, 100), uses = 0, adjacent = 0, atEnd = 0;
	if (n > 7 && c.chance(1, 3))
		n = c.range(61, 200);
	const bool many = n > 7; // then each uses one other at most, or the expansions explode
	c.labelIf(many, "many macros");
	// each macro uses the one before it; the depth of expansion is limited to 100
	const bool chained = many && c.flip();
	const size_t depth = c.range(60, 95);
	c.labelIf(chained && n > 50, "long chain of macros");
	std::vector<std::string> names;
	for (size_t i = 0; i < n; ++i) {
		// names that are prefixes of each other
		std::string s = c.pickOf<const char*>({ "a", "ab", "abc", "m1", "m12", "_x", "x_y", "B", "ma_1", "a1", "a0", "z9", "Z", "A8", "_" });
			if (s == "_")
				s = "_" + std::string(1, "azAZ"[c.below(4)]);
		while (std::find(names.begin(), names.end(), s) != names.end())
			s += "0123456789bz_AZ"[c.below(15)];
		names.push_back(s);
	}
	// order of definition in the text is independent of the order of use
	std::vector<size_t> pos(n);
	for (size_t i = 0; i < n; ++i)
		pos[i] = i;
	if (chained && c.flip())
		std::reverse(pos.begin(), pos.end());
	else
		for (size_t i = n; i > 1; --i)
			std::swap(pos[i - 1], pos[c.below(i)]);

	std::map<std::string, std::string> defs;
	auto body = [&](size_t i, bool quoted) {
		std::string s;
		size_t k = chained ? c.range(1, 3) : c.skew(0, 4);
		bool lastMacro = false;
		for (size_t j = 0; j < k; ++j) {
			if (i > 0 && (chained ? j == 0 && i % depth : many ? j == 0 && c.chance(15, 16) : c.chance(2, 3))) {
				adjacent += lastMacro;
				s += "\\" + names[chained || (many && c.chance(3, 4)) ? i - 1 : c.below(i)];
				lastMacro = true;
				++uses;
			} else {
				std::string t = strBody(c, 4, "\"", quoted);
				if (lastMacro && t.size() && nameChar(t[0]))
					t = c.pickOf<const char*>({ " ", "+", "(", ".", ",", ":" }) + t;
				if (t.size())
					lastMacro = false;
				s += t;
			}
		}
		atEnd += lastMacro;
		if (quoted)
			return s;
		// an unquoted value starts and ends with something visible
		if (s.empty() || strchr(" \t\n#!(=", s[0]))
			s = "v" + s;
		if (strchr(" \t\n", s.back()))
			s += "v";
		return s;
	};
	std::string t;
	for (size_t k = 0; k < n; ++k) {
		size_t i = pos[k];
		std::string old;
		bool quoted = c.flip();
		std::string b = body(i, quoted);
		std::string text = quoted ? "\"" + b + "\"" : b;
		t += gap(c) + "string" + gap(c, true) + names[i];
		if (c.chance(1, 4)) // assigned twice; the last one counts
			t += "=" + std::string(c.flip() ? "other" : "\\nowhere") + ";" + names[i], c.label("redefined");
		t += gap(c) + "=" + gap(c) + text + blanks(c, 1) + ";";
		defs[names[i]] = b;
		if (b.size() && b[0] == '!')
			return; // the native macros start like this
	}
	DESC(t);
	if (uses > 1)
		c.nontrivial();
	c.labelIf(adjacent > 0, "adjacent macros");
	c.labelIf(atEnd > 0, "macro at the end of a value");
	std::vector<std::string> want;
	for (auto& s : names) {
		want.push_back(expand(defs, defs[s]));
		if (want.back().size() > 100000)
			return;
		if (want.back().size() && (want.back()[0] == '!' || want.back()[0] == '('))
			return; // native macros and functions start like this
		for (size_t i = 0; i < n; ++i) // nor any intermediate expansion
			if (defs[names[i]].size() && (defs[names[i]][0] == '!' || defs[names[i]][0] == '('))
				return;
	}
	Quiet quiet;
	Ainur a(t);
	for (size_t i = 0; i < n; ++i) {
		std::string s;
		if (want[i].empty() && defs[names[i]].size())
			continue; // a value that expands to nothing is no value
		a.readValue(s, names[i]);
		CHECK(s == want[i], names[i] << " is {" << s << "} and should be {" << want[i] << "}");
	}
}

// macros inside of numbers, vectors, and matrices
PROP(numbers, 2)
{
	std::string v = intText(c, true), w = realText(c);
	size_t n = c.rare(1, 6, 200, 100);
	std::string t = "int k=" + v + ";real r = " + w + ";", vec = "[", mat = "[";
	std::vector<double> want;
	for (size_t i = 0; i < n; ++i) {
		bool lit = c.chance(1, 3);
		std::string x = lit ? realText(c) : c.flip() ? "\\r" : "\\k";
		want.push_back(strtod((lit ? x : x == "\\r" ? w : v).c_str(), 0));
		vec += (i ? "," : "") + blanks(c, 1) + x + blanks(c, 1);
		mat += (i ? "," : "") + std::string("[") + x + "," + blanks(c, 1) + "\\k" + blanks(c, 1) + "]";
	}
	t += "vector v=" + vec + "];matrix m=" + mat + "];int k2=\\k;real r2=\\r" + (c.flip() ? ";" : "") ;
	DESC(t);
	if (n > 1)
		c.nontrivial();
	Quiet quiet;
	Ainur a(t);
	std::vector<double> x;
	a.readValue(x, "v");
	CHECK(sameVec(x, want), "the vector was read as " << show(x) << " and not " << show(want));
	Matrix<double> m;
	a.readValue(m, "m");
	CHECK(m.rows() == n && m.cols() == 2, "shape of the matrix " << m.rows() << "x" << m.cols());
	for (size_t i = 0; i < n; ++i)
		CHECK(m(i, 0) == want[i] && m(i, 1) == strtod(v.c_str(), 0), "row " << i << " of the matrix is " << m(i, 0) << " " << m(i, 1));
	int k = 0;
	double r = 0;
	a.readValue(k, "k2");
	a.readValue(r, "r2");
	CHECK(k == strtol(v.c_str(), 0, 10) && r == strtod(w.c_str(), 0), "scalars from macros: " << k << " " << r);
}

PROP(tables, 4)
{
	size_t rows = c.skewRare(1, 9, 400, 80), cols = c.skewRare(1, 6, 30, 150);
	int form = (int)c.range(1, 4); // how many arguments are given
	bool comma = form > 1 && c.flip();
	size_t cx = form > 2 ? c.below(cols + 1) : 0, cy = form > 3 ? c.below(cols + 1) : 1;
	// the file
	std::vector<std::vector<std::string>> cell(rows, std::vector<std::string>(cols));
	std::map<double, double> seen;
	{
		std::unique_ptr<Ctx::Bulk> bulk(rows * cols > 54 ? new Ctx::Bulk(c) : nullptr);
		c.labelIf(rows * cols > 54, "large table");
		for (auto& r : cell)
			for (auto& x : r)
				x = realText(c);
	}
	std::string text;
	for (auto& r : cell) {
		while (c.chance(1, 6))
			text += c.pickOf<const char*>({ "\n", "  \n", "\t\n", " \t \n" });
		for (size_t j = 0; j < cols; ++j)
			text += (j ? (comma ? "," : c.pickOf<const char*>({ " ", " ", "  " })) : "") + r[j];
		if (c.chance(1, 20))
			text += std::string(3000, comma ? ',' : ' '), c.label("long line");
		if (&r != &cell.back() || c.flip())
			text += "\n";
	}
	std::string file = pbt::scratch() + "/table.txt";
	{
		std::ofstream f(file);
		f << text;
	}
	bool there = !c.chance(1, 20);
	std::string def = "\\AinurFromFile(\"" + (there ? file : file + "no") + "\"";
	if (form > 1)
		def += comma ? ",comma" : ",space";
	if (form > 2)
		def += "," + std::to_string(cx);
	if (form > 3)
		def += "," + std::to_string(cy);
	def += ")";
	// arguments: those of the table, and one that is not
	std::string t, decl = "function" + gap(c, true) + "f" + gap(c) + "=" + gap(c) + def + ";";
	bool declFirst = c.flip();
	if (declFirst)
		t = decl;
	bool columns = cx < cols && cy < cols;
	size_t row = c.chance(1, 6) ? rows - 1 : c.below(rows);
	std::string arg = columns ? cell[row][cx] : "1";
	double x = strtod(arg.c_str(), 0);
	if (c.chance(1, 3)) { // another spelling of the same number
		char b[64];
		snprintf(b, sizeof b, "%.17g", x);
		arg = b;
	}
	bool listed = true;
	if (c.chance(1, 6)) {
		double y = x + (c.flip() ? 0.5 : std::abs(x) * 1e-12 + 1e-30);
		listed = false;
		for (auto& r : cell)
			listed |= columns && strtod(r[cx].c_str(), 0) == y;
		if (listed)
			return;
		char b[64];
		snprintf(b, sizeof b, "%.17g", y);
		arg = b;
	}
	// the first row with this argument counts
	for (size_t i = 0; columns && i < rows; ++i)
		if (strtod(cell[i][cx].c_str(), 0) == x) {
			row = i;
			break;
		}
	t += "real y=\\f(" + arg + ");";
	t += "real late=\\f(%t);";
	if (form == 1) // the arguments of a function in a vector cannot have commas
		t += "vector v=[\\f(" + arg + "), 3, \\f(" + arg + ")];matrix m=[[\\f(" + arg + ")]];";
	if (!declFirst)
		t += decl;
	DESC(t << " ---- {" << text.substr(0, 400) << "}");
	if (rows > 2)
		c.nontrivial();
	Quiet quiet;
	std::unique_ptr<Ainur> a;
	bool refused = pbt::throws([&] { a.reset(new Ainur(t)); });
	unlink(file.c_str());
	c.label(!there ? "no such file" : !columns ? "no such column" : !listed ? "no such argument" : "value");
	CHECK(refused == (!there || !columns), (refused ? "a table was refused" : "a table was accepted") << " with columns " << cx << " " << cy << " of " << cols << ", file there=" << there);
	if (refused)
		return;
	double y = 0;
	std::vector<double> v;
	Matrix<double> m;
	bool failed = pbt::throws([&] { a->readValue(y, "y"); });
	CHECK(failed == !listed, "f(" << arg << ") was " << (failed ? "refused" : "accepted") << ", value " << y);
	std::string late;
	a->readValue(late, "late");
	std::string l2 = late;
	PsimagLite::replaceAll(l2, "%t", arg);
	if (!listed) {
		CHECK(pbt::throws([&] { a->resolve(l2); }), "resolve of an argument that is not in the table");
		CHECK(form != 1 || pbt::throws([&] { a->readValue(v, "v"); }), "a vector was read with an argument that is not in the table");
		return;
	}
	double want = strtod(cell[row][cy].c_str(), 0);
	CHECK(y == want, "f(" << arg << ") = " << y << " and should be " << want);
	CHECK(late.size() > 4 && late.substr(late.size() - 4) == "(%t)", "a function of a text that is not a number should be left as is: " << late);
	double z = strtod(a->resolve(l2).c_str(), 0);
	CHECK(z == want, "resolve(" << l2 << ") = " << z << " and should be " << want);
	if (form == 1) {
		a->readValue(v, "v");
		CHECK(v.size() == 3 && v[0] == want && v[1] == 3 && v[2] == want, "vector of function values: " << show(v));
		a->readValue(m, "m");
		CHECK(m.rows() == 1 && m.cols() == 1 && m(0, 0) == want, "matrix of function values: " << m(0, 0));
	}
}

// functions of several tables, used next to each other
PROP(functions, 1)
{
	size_t n = c.rare(2, 5, 20, 20), nfiles = c.range(1, n);
	std::vector<std::vector<double>> table(nfiles);
	std::string t, use;
	for (size_t k = 0; k < nfiles; ++k) {
		std::ofstream o(pbt::scratch() + "/f" + std::to_string(k));
		for (size_t i = 0; i < 3; ++i) {
			table[k].push_back((double)c.sint(1000));
			o << i << " " << table[k][i] << " " << table[k][i] + 0.5 << "\n";
		}
	}
	std::vector<double> want;
	size_t m = c.range(1, 8);
	std::vector<size_t> of(n), col(n);
	for (size_t i = 0; i < n; ++i) {
		of[i] = c.below(nfiles);
		col[i] = c.flip();
		std::string file = "\"" + pbt::scratch() + "/f" + std::to_string(of[i]) + "\"";
		t += "function f" + std::to_string(i) + "=\\AinurFromFile(" + file + (col[i] ? ",space,0,2" : "") + ");";
	}
	for (size_t j = 0; j < m; ++j) {
		size_t i = c.below(n), x = c.below(3);
		use += "real r" + std::to_string(j) + "=\\f" + std::to_string(i) + "(" + std::to_string(x) + ");";
		want.push_back(table[of[i]][x] + (col[i] ? 0.5 : 0));
	}
	t = c.flip() ? t + use : use + t;
	DESC(t);
	if (n > 2)
		c.nontrivial();
	Quiet quiet;
	Ainur a(t);
	for (size_t j = 0; j < m; ++j) {
		double r = 0;
		std::string name = "r" + std::to_string(j);
		a.readValue(r, name);
		CHECK(r == want[j], name << " is " << r << " and should be " << want[j]);
	}
	for (size_t k = 0; k < nfiles; ++k)
		unlink((pbt::scratch() + "/f" + std::to_string(k)).c_str());
}

PINNED(bad_functions)
{
	Quiet quiet;
	for (const char* s : { "function f=\\AinurFromFile;", "function f=\\AinurFromFile();", "function f=\\AinurFromFile(\"none\");", "function f=\\AinurFromFile(\"none\",tab);", "function f=\\AinurFromFile(\"none\",space,0,1,2);", "real y=(\"none\")(3);" }) {
		std::string t = s;
		CHECK(pbt::throws([&] {
			      Ainur a(t);
			      double y = 0;
			      a.readValue(y, "y");
		      }),
		      "accepted: " << t);
	}
}

PINNED(two_functions)
{
	Quiet quiet;
	std::string f1 = pbt::scratch() + "/one", f2 = pbt::scratch() + "/two";
	{
		std::ofstream o1(f1), o2(f2);
		o1 << "0 1\n1 0.1234567890123456\n";
		o2 << "0 3 5\n1 4 6e-11\n\n";
	}
	Ainur a("function f=\\AinurFromFile(\"" + f1 + "\");function g=\\AinurFromFile(\"" + f2 + "\");function h=\\AinurFromFile(\"" + f2 + "\",space,1,2);vector v=[\\f(0),\\g(0),\\f(1),\\g(1)];real r=\\h(4);");
	std::vector<double> v;
	a.readValue(v, "v");
	CHECK(v.size() == 4 && v[0] == 1 && v[1] == 3 && v[2] == 0.1234567890123456 && v[3] == 4, "functions of two tables: " << show(v));
	double r = 0;
	a.readValue(r, "r");
	CHECK(r == 6e-11, "function of other columns of the second table: " << r);
	unlink(f1.c_str());
	unlink(f2.c_str());
}
PBT_MAIN
