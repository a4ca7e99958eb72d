// PBT-QUICK: 6000
// PBT-THOROUGH: 90000
// PBT-RULE: a case is a set of source files with documentation blocks, code blocks, continued blocks, prototypes, functions and marks, and a manual that pastes them and reads text or markdown files, or one of these with a fault; the manual written by scripts/doc.pl is compared with what the generator put together;
// PBT-RULE: non-trivial = at least two blocks are pasted, or the case has a fault
#include "pbt.h"
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef pbt::Ctx                 Ctx;
typedef std::vector<std::string> Lines;

static std::string repo()
{
	const char* r = getenv("VERIF_REPO");
	return r && *r ? r : "/repo";
}

static bool slurp(const std::string& f, std::string& s)
{
	std::ifstream i(f, std::ios::binary);
	if (!i)
		return false;
	std::stringstream ss;
	ss << i.rdbuf();
	s = ss.str();
	return true;
}

static void spit(const std::string& f, const std::string& s)
{
	std::ofstream o(f, std::ios::binary);
	o << s;
}

static int docpl(const std::vector<std::string>& args, const std::string& listOfFiles)
{
	std::string path = repo() + "/scripts/doc.pl", in = pbt::scratch() + "/list", dir = pbt::scratch();
	spit(in, listOfFiles);
	std::vector<char*> av { const_cast<char*>("perl"), const_cast<char*>(path.c_str()) };
	for (auto& a : args)
		av.push_back(const_cast<char*>(a.c_str()));
	av.push_back(nullptr);
	pid_t pid = vfork();
	if (pid == 0) {
		int fd = open(in.c_str(), O_RDONLY), e = open("/dev/null", O_WRONLY);
		dup2(fd, 0);
		dup2(e, 1);
		dup2(e, 2);
		struct rlimit l;
		l.rlim_cur = l.rlim_max = 5;
		setrlimit(RLIMIT_CPU, &l);
		l.rlim_cur = l.rlim_max = 1UL << 30;
		setrlimit(RLIMIT_AS, &l);
		if (chdir(dir.c_str()) != 0)
			_exit(126);
		execvp("perl", av.data());
		_exit(127);
	}
	CHECK(pid > 0, "fork");
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st))
		FAIL("doc.pl ended by signal " << WTERMSIG(st));
	CHECK(WEXITSTATUS(st) != 126 && WEXITSTATUS(st) != 127, "perl does not start");
	return WEXITSTATUS(st);
}

static std::string word(Ctx& c)
{
	static const char* w[] = { "the", "solver", "vector", "of", "sites", "\\code{x}", "$a_i$", "100", "a<b", "x*y", "#", "label", "\"quoted\"", "{", "}", "PSI", "DOC", "(see above)", "\\", "a/b", "%" };
	return w[c.below(sizeof(w) / sizeof(w[0]))];
}

static std::string text(Ctx& c)
{
	std::string s, start;
	unsigned    n = c.range(1, 5);
	for (unsigned i = 0; i < n; ++i)
		s += (i ? " " : "") + word(c);
	static const char* starts[] = { "", "", "", "\t", "  " };
	start = starts[c.below(5)];
	if (s[0] == '%' || s[0] == '#')
		s = "x" + s; // what starts with these is a comment or a heading of the manual
	return start + s;
}

// lines of code without block comments
static void function(Ctx& c, const std::string& name, Lines& out, std::vector<std::pair<std::string, Lines>>& marks)
{
	if (c.chance(1, 4)) {
		out.push_back("void " + name + (c.flip() ? "() { return; }" : "() { for (;;) { break; } }"));
		return;
	}
	out.push_back((c.flip() ? "\t" : "") + std::string("void ") + name + "(int a)");
	if (c.chance(1, 4))
		out.push_back("// a remark on its own");
	if (c.flip())
		out.push_back("{");
	else
		out.back() += (out.back()[0] == '/') ? "" : " {";
	if (out.back()[0] == '/')
		out.push_back("{");
	unsigned n = c.below(4);
	for (unsigned i = 0; i < n; ++i) {
		bool  mark = c.chance(1, 3);
		Lines body;
		if (mark)
			out.push_back(std::string(c.flip() ? "\t" : "  ") + (c.flip() ? "// " : "//") + "PSIDOCMARK_BEGIN m" + std::to_string(i));
		unsigned k = c.range(mark ? 0 : 1, 3);
		for (unsigned j = 0; j < k; ++j)
			switch (c.below(5)) {
			case 4:
				body.push_back("\tif (a) { while (a) {");
				body.push_back("\t\t--a; }}");
				break;
			case 0: body.push_back("\tint x" + std::to_string(j) + " = a;\t"); break;
			case 1:
				body.push_back("\tif (a > " + std::to_string(j) + ") {");
				body.push_back("\t\treturn; }");
				break;
			case 2: body.push_back(""); break;
			default: body.push_back("\tfor (;;) { break; } // loop"); break;
			}
		out.insert(out.end(), body.begin(), body.end());
		if (mark) {
			out.push_back("\t// PSIDOCMARK_END");
			marks.push_back({ "m" + std::to_string(i), body });
		}
	}
	out.push_back(c.flip() ? "}" : "};");
}

static std::string dressed(const Lines& l, const std::string& tabs = "  ")
{
	std::string s = "\\begin{lstlisting}\n";
	for (auto& x : l) {
		for (char ch : x)
			s += (ch == '\t') ? tabs : std::string(1, ch);
		s += "\n";
	}
	return s + "\n\\end{lstlisting}\n";
}

static bool remark(const std::string& s)
{
	size_t i = s.find_first_not_of(' ');
	return i != std::string::npos && s.compare(i, 2, "//") == 0;
}

static bool markLine(const std::string& s) { return s.find("PSIDOCMARK_") != std::string::npos; }

struct Piece {
	Lines       lines; // as in the source
	std::string label; // defined here, if any
	Lines       below; // what follows, for a documentation block
};

static std::string asText(const Lines& l)
{
	std::string s;
	for (auto& x : l)
		s += x + "\n";
	return s;
}

struct Sources {
	std::vector<Piece>                 pieces;
	std::map<std::string, std::string> value; // of each label
	Lines                              labels; // in order of creation
};

static void addDoc(Ctx& c, Sources& s, unsigned ind)
{
	Piece p;
	p.label = (c.flip() ? "Doc" : "D_") + std::to_string(ind);
	Lines                                      code;
	std::vector<std::pair<std::string, Lines>> marks;
	// below: prototypes, then maybe a function
	bool protoLine = c.chance(1, 3), fun = c.chance(2, 3);
	if (c.chance(1, 4))
		code.push_back("// nothing to see");
	if (protoLine) {
		if (c.flip())
			code.push_back("template<typename T>");
		code.push_back("T f" + std::to_string(ind) + "(int,\tint);");
	}
	if (fun)
		function(c, "g" + std::to_string(ind), code, marks);
	// what may be captured
	std::map<std::string, std::string> own;
	Lines                              got;
	bool                               ends = false;
	for (auto& l : code) {
		if (remark(l) || (markLine(l) && l.find_first_not_of(" ") == l.find("//")))
			continue;
		got.push_back(l);
		if (l.find(';') != std::string::npos) {
			ends = true;
			break;
		}
	}
	bool markBefore = false; // a mark within the prototype is shown as it is: not judged
	for (auto& l : got)
		markBefore = markBefore || markLine(l);
	if (ends && !markBefore)
		own["FirstProtoBelow"] = dressed(got);
	if (fun) {
		Lines f;
		for (auto& l : code)
			if (!remark(l) && !markLine(l))
				f.push_back(l);
		own["FirstFunctionBelow"] = dressed(f);
		for (auto& m : marks) {
			Lines b;
			for (auto& l : m.second)
				if (!remark(l))
					b.push_back(l);
			own["FirstFunctionBelow::" + m.first] = dressed(b);
		}
	}
	for (auto& o : own)
		s.value[p.label + "::" + o.first] = o.second;
	p.lines.push_back(std::string(c.flip() ? "" : "\t") + (c.flip() ? "/* " : "/*") + "PSIDOC " + p.label);
	std::string v;
	unsigned    n = c.range(1, 5);
	bool        open = false;
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = c.below(8);
		if (k == 0 && !own.empty()) {
			auto it = own.begin();
			std::advance(it, c.below(own.size()));
			p.lines.push_back("PSIDOCCOPY $" + it->first);
			v += it->second;
		} else if (k <= 2 && !s.value.empty()) {
			auto it = s.value.begin();
			std::advance(it, c.below(s.value.size()));
			if (it->first.compare(0, p.label.size() + 2, p.label + "::") != 0 || c.flip()) {
				p.lines.push_back((c.flip() ? "" : "  ") + std::string("PSIDOCCOPY ") + (c.chance(1, 4) ? " " : "") + it->first);
				v += it->second;
			}
		} else if (k == 3) {
			// the text goes on after some code, which it shows
			p.lines.push_back(c.flip() ? "PSIDOC_CONTINUE" : "\tPSIDOC_CONTINUE  ");
			p.lines.push_back("*/");
			unsigned m = c.below(3);
			for (unsigned j = 0; j < m; ++j) {
				p.lines.push_back("\tint shown" + std::to_string(j) + ";");
				v += p.lines.back() + "\n";
			}
			p.lines.push_back("/* PSIDOC_RESUME");
		} else if (k == 4 && i + 1 < n) {
			p.lines.push_back("");
			v += "\n";
		} else {
			p.lines.push_back(text(c));
			v += p.lines.back() + "\n";
		}
		(void)open;
	}
	p.lines.push_back("the end");
	v += "the end\n";
	p.lines.push_back(c.flip() ? "*/" : "\t*/");
	s.value[p.label] = v;
	s.labels.push_back(p.label);
	for (auto& o : own)
		s.labels.push_back(p.label + "::" + o.first);
	p.lines.insert(p.lines.end(), code.begin(), code.end());
	// nothing that comes next belongs to it
	p.lines.push_back(c.flip() ? "/* other things */" : "/*");
	if (p.lines.back() == "/*") {
		p.lines.push_back(text(c));
		p.lines.push_back(" */");
	}
	s.pieces.push_back(p);
}

static void addCode(Ctx& c, Sources& s, unsigned ind)
{
	Piece p;
	p.label = (c.flip() ? "Code" : "C::") + std::to_string(ind);
	p.lines.push_back(std::string(c.flip() ? "" : "\t") + "/* PSIDOC_CODE_START " + p.label + (c.flip() ? " */" : "  */ "));
	unsigned n = c.below(6);
	Lines    b;
	for (unsigned i = 0; i < n; ++i)
		switch (c.below(6)) {
		case 0: b.push_back(""); break;
		case 1: b.push_back("\t// a remark"); break;
		case 2: b.push_back("\tx = a * b; /* product */"); break;
		case 3: b.push_back("struct S { int x; };"); break;
		default: b.push_back("\treturn " + std::to_string(i) + ";"); break;
		}
	p.lines.insert(p.lines.end(), b.begin(), b.end());
	p.lines.push_back("/* PSIDOC_CODE_END */");
	s.value[p.label] = asText(b);
	s.labels.push_back(p.label);
	s.pieces.push_back(p);
}

static void shuffle(Ctx& c, std::vector<Piece>& v)
{
	for (size_t i = v.size(); i > 1; --i)
		std::swap(v[i - 1], v[c.below(i)]);
}

static Sources sources(Ctx& c)
{
	Sources  s;
	unsigned n = c.skewRare(0, 6, 40, 40);
	for (unsigned i = 0; i < n; ++i) {
		if (c.chance(1, 3))
			addCode(c, s, i);
		else
			addDoc(c, s, i);
		if (c.chance(1, 3)) {
			Piece p;
			p.lines.push_back(c.flip() ? "int plain = 0;" : "/* just a comment */");
			s.pieces.push_back(p);
		}
	}
	shuffle(c, s.pieces); // blocks may use what is defined later, or in other files
	return s;
}

// writes the sources into files; returns the list
static std::string writeSources(Ctx& c, const Sources& s, std::vector<std::string>& shown)
{
	unsigned                 nf = c.range(1, 3);
	std::vector<std::string> content(nf);
	for (size_t i = 0; i < s.pieces.size(); ++i)
		content[i * nf / s.pieces.size()] += asText(s.pieces[i].lines);
	std::string list;
	for (unsigned f = 0; f < nf; ++f) {
		std::string name = pbt::scratch() + "/s" + std::to_string(f) + (c.flip() ? ".h" : ".cpp");
		spit(name, content[f]);
		list += name + "\n";
		shown.push_back("--- source\n" + content[f]);
	}
	return list;
}

static std::string mdLine(Ctx& c, std::string& tex)
{
	std::string t = "words", a;
	switch (c.below(8)) {
	case 0: tex = "\\chapter{A title}\n"; return "# A title\n";
	case 1: tex = "\\section{More  of it}\n"; return "##  More  of it\n";
	case 2: tex = "\\subsection{Small}\n"; return "### Small\n";
	case 3: tex = "x {\\bf bold} y\n"; return "x <b>bold</b> y\n";
	case 4: tex = "{\\tt a} and {\\tt b}\n"; return "<code>a</code> and <code>b</code>\n";
	case 5: tex = "me@there\n"; return "me\\@there\n";
	case 6: tex = "{\\bf one} and {\\bf two}\n"; return "<b>one</b> and <b>two</b>\n";
	default: a = "plain " + std::to_string(c.below(9)) + "\n"; tex = a; return a;
	}
}

struct Manual {
	std::string ptex, tex;
	unsigned    pasted = 0;
};

static Manual manual(Ctx& c, const Sources& s, const std::string& docRoot, std::vector<std::string>& shown)
{
	Manual   m;
	unsigned n = c.range(1, 8), files = 0;
	for (unsigned i = 0; i < n; ++i)
		switch (c.below(7)) {
		case 0: {
			std::string t = text(c);
			m.ptex += t + "\n";
			m.tex += t + "\n";
			break;
		}
		case 1: m.ptex += (c.flip() ? "% " : "\t%") + std::string("not shown\n"); break;
		case 2: m.ptex += "\\newcommand{\\ptexPaste}[1]{\\fbox{PLEASE RUN}}\n\\newcommand{\\ptexLabel}[1]{\\ptexPaste{#1}}\n", m.tex += "\\newcommand{\\ptexPaste}[1]{\\fbox{PLEASE RUN}}\n"; break;
		case 3: {
			bool        md = c.flip();
			std::string name = (c.flip() ? "./" : "") + std::string("file") + std::to_string(files++) + (md ? ".md" : ".txt"), in, out;
			unsigned    k = c.below(6);
			for (unsigned j = 0; j < k; ++j) {
				std::string tex, l;
				if (md)
					l = mdLine(c, tex);
				else
					l = tex = (c.chance(1, 5) ? std::string("# kept <b>\n") : text(c) + "\n");
				in += l;
				out += tex;
			}
			spit((docRoot.empty() ? pbt::scratch() : docRoot) + "/" + name, in);
			shown.push_back("--- " + name + "\n" + in);
			m.ptex += "\\ptexReadFile{" + name + "}\n";
			m.tex += out;
			break;
		}
		default:
			if (s.labels.empty())
				break;
			const std::string& l = s.labels[c.below(s.labels.size())];
			m.ptex += "\\ptexPaste{" + l + "}\n";
			m.tex += s.value.at(l);
			++m.pasted;
		}
	return m;
}

// a line may or may not end after the title of a subsection
static std::string normal(std::string s)
{
	const std::string t = "\\subsection{Small}";
	for (size_t i = 0; (i = s.find(t, i)) != std::string::npos;) {
		i += t.size();
		while (i < s.size() && s[i] == '\n')
			s.erase(i, 1);
	}
	return s;
}

static void clean(const std::string& out)
{
	unlink(out.c_str());
	for (int i = 0; i < 3; ++i)
		for (const char* e : { ".h", ".cpp" })
			unlink((pbt::scratch() + "/s" + std::to_string(i) + e).c_str());
}

PROP(manuals, 3)
{
	std::string root, outDir, dir = pbt::scratch();
	Sources     s = sources(c);
	bool        options = c.chance(1, 3);
	if (options) {
		root = dir + "/root";
		outDir = dir + "/made";
		mkdir(root.c_str(), 0700);
		mkdir(outDir.c_str(), 0700);
		if (c.flip())
			outDir = "./made"; // it runs in the scratch directory
	}
	std::vector<std::string> shown;
	std::string              out = options ? dir + "/made/book.tex" : dir + "/book.tex";
	clean(out);
	std::string list = writeSources(c, s, shown);
	Manual      m = manual(c, s, root, shown);
	spit(dir + "/book.ptex", m.ptex);
	std::string all;
	for (auto& x : shown)
		all += x;
	DESC((options ? "with directories\n" : "") << all << "--- manual\n" << m.ptex);
	c.labelIf(options, "directories given");
	std::vector<std::string> args { dir + "/book.ptex" };
	if (options) {
		args.push_back(root);
		args.push_back(outDir);
	}
	CHECK(docpl(args, list) == 0, "doc.pl refuses correct documentation");
	std::string got;
	CHECK(slurp(out, got), "doc.pl wrote no manual where it should");
	CHECK(normal(got) == normal(m.tex), "the manual is\n" << got << "--- instead of\n" << m.tex);
	if (m.pasted > 1)
		c.nontrivial();
}

PROP(faults, 2)
{
	std::string dir = pbt::scratch(), out = dir + "/book.tex", fault, book = dir + "/book.ptex";
	Sources     s = sources(c);
	Piece       p;
	auto        doc = [&](const std::string& l, const std::string& copy) { Lines x { "/* PSIDOC " + l, "words" }; if (!copy.empty()) x.push_back("PSIDOCCOPY " + copy); x.push_back("*/"); return x; };
	unsigned    k = c.below(12);
	bool        missing = false;
	switch (k) {
	case 0: fault = "undefined label copied"; p.lines = doc("Zed", "Nowhere"); break;
	case 1: {
		fault = "labels that copy each other";
		unsigned n = c.range(1, 4);
		for (unsigned i = 0; i < n; ++i) {
			Lines d = doc("Z" + std::to_string(i), "Z" + std::to_string((i + 1) % n));
			p.lines.insert(p.lines.end(), d.begin(), d.end());
		}
		break;
	}
	case 2: {
		fault = "duplicate label";
		std::string l = "Same";
		p.lines = c.flip() ? doc(l, "") : Lines { "/* PSIDOC_CODE_START " + l + " */", "int x;", "/* PSIDOC_CODE_END */" };
		Lines d = c.flip() ? doc(l, "") : Lines { "/* PSIDOC_CODE_START " + l + " */", "int y;", "/* PSIDOC_CODE_END */" };
		p.lines.insert(p.lines.end(), d.begin(), d.end());
		break;
	}
	case 3: fault = "code block not closed"; p.lines = { "/* PSIDOC_CODE_START Open */", "int x;" }; break;
	case 4: fault = "nested code block"; p.lines = { "/* PSIDOC_CODE_START Open */", "int x;", "/* PSIDOC_CODE_START In */", "int y;", "/* PSIDOC_CODE_END */", "/* PSIDOC_CODE_END */" }; break;
	case 5: fault = "code block closed without being open"; p.lines = { "int x;", "/* PSIDOC_CODE_END */" }; break;
	case 6: fault = "block continued, another begun"; p.lines = { "/* PSIDOC Cont", "words", "PSIDOC_CONTINUE", "*/", "int x;", "/* PSIDOC Other", "words", "*/" }; break;
	case 7: fault = "nested marks"; p.lines = { "/* PSIDOC Marks", "words", "*/", "void f()", "{", "\t// PSIDOCMARK_BEGIN a", "\t// PSIDOCMARK_BEGIN b", "\tx;", "\t// PSIDOCMARK_END", "}" }; break;
	case 8: fault = "mark not begun"; p.lines = { "/* PSIDOC Marks", "words", "*/", "void f()", "{", "\tx;", "\t// PSIDOCMARK_END", "}" }; break;
	case 9: fault = "mark not ended"; p.lines = { "/* PSIDOC Marks", "words", "*/", "void f()", "{", "\tx;", "\t// PSIDOCMARK_BEGIN a", "}" }; break;
	case 10: fault = "source file missing"; missing = true; break;
	default: fault = "file to read missing"; break;
	}
	if (!p.lines.empty()) {
		// code blocks that stay open come last: what follows would close them
		size_t at = (k == 3) ? s.pieces.size() : c.below(s.pieces.size() + 1);
		s.pieces.insert(s.pieces.begin() + at, p);
	}
	std::vector<std::string> shown;
	clean(out);
	std::string list = writeSources(c, s, shown);
	if (missing)
		list += dir + "/nowhere.h\n";
	Manual m = manual(c, s, "", shown);
	if (k == 11)
		m.ptex += "\\ptexReadFile{nowhere.txt}\n";
	spit(book, m.ptex);
	std::string all;
	for (auto& x : shown)
		all += x;
	DESC(fault << "\n" << all << "--- manual\n" << m.ptex);
	c.label(fault);
	c.nontrivial();
	CHECK(docpl({ book }, list) != 0, "doc.pl says nothing: " << fault);
	std::string got;
	CHECK(!slurp(out, got), "doc.pl wrote a manual: " << fault);
}

// a label that is not there is shown as an error, and nothing else of the manual changes
PROP(notFound, 1)
{
	std::string              dir = pbt::scratch(), out = dir + "/book.tex";
	Sources                  s = sources(c);
	std::vector<std::string> shown;
	clean(out);
	std::string list = writeSources(c, s, shown);
	Manual      a = manual(c, s, "", shown);
	std::string label = s.labels.empty() || c.flip() ? "Nowhere" : s.labels[c.below(s.labels.size())] + (c.flip() ? "1x" : "::");
	spit(dir + "/book.ptex", a.ptex + "\\ptexPaste{" + label + "}\nlast line\n");
	DESC("label " << label << "\n" << a.ptex);
	c.nontrivial();
	CHECK(docpl({ dir + "/book.ptex" }, list) == 0, "doc.pl fails for a label not found");
	std::string got;
	CHECK(slurp(out, got), "no manual");
	std::string tail = "last line\n";
	got = normal(got);
	a.tex = normal(a.tex);
	CHECK(got.compare(0, a.tex.size(), a.tex) == 0 && got.size() > a.tex.size() + tail.size() && got.compare(got.size() - tail.size(), tail.size(), tail) == 0, "the rest of the manual changed:\n" << got);
	CHECK(got.find("ERROR", a.tex.size()) != std::string::npos, "nothing in the manual says that " << label << " was not found:\n" << got);
}

PBT_MAIN
