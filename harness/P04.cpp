// PBT-QUICK: 8000
// PBT-THOROUGH: 120000
// PBT-RULE: a case is a database of classes and files with members and their documentation, as Doxygen writes it, and a document that pastes some of it and includes files, or one of these with a fault; the document that PsimagDoc/psimagdoc.pl prints is compared with what the generator put together;
// PBT-RULE: non-trivial = at least two pastes, or the case has a fault
#include "pbt.h"
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef pbt::Ctx Ctx;

static std::string repo()
{
	const char* r = getenv("VERIF_REPO");
	return r && *r ? r : "/repo";
}

static std::string slurp(const std::string& f)
{
	std::ifstream     i(f, std::ios::binary);
	std::stringstream ss;
	ss << i.rdbuf();
	return ss.str();
}

static void spit(const std::string& f, const std::string& s)
{
	std::ofstream o(f, std::ios::binary);
	o << s;
}

// the document goes in, the finished one comes out; the order in which perl walks its tables is part of the case
static int psimagdoc(const std::string& document, unsigned order, std::string& out)
{
	std::string path = repo() + "/PsimagDoc/psimagdoc.pl", dir = pbt::scratch(), in = dir + "/in.ptex", res = dir + "/out.tex";
	std::string seed = "PERL_HASH_SEED=" + std::to_string(order);
	spit(in, document);
	char        perl[] = "perl";
	char*       av[]   = { perl, const_cast<char*>(path.c_str()), nullptr };
	char        p1[] = "PATH=/usr/bin:/bin", p2[] = "PERL_PERTURB_KEYS=2", p3[] = "LC_ALL=C";
	char*       ev[] = { p1, const_cast<char*>(seed.c_str()), p2, p3, nullptr };
	pid_t       pid  = vfork();
	if (pid == 0) {
		int fd = open(in.c_str(), O_RDONLY), o = open(res.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("/dev/null", O_WRONLY);
		dup2(fd, 0);
		dup2(o, 1);
		dup2(e, 2);
		struct rlimit l;
		l.rlim_cur = l.rlim_max = 5;
		setrlimit(RLIMIT_CPU, &l);
		l.rlim_cur = l.rlim_max = 1UL << 30;
		setrlimit(RLIMIT_AS, &l);
		if (chdir(dir.c_str()) != 0)
			_exit(126);
		execvpe("perl", av, ev);
		_exit(127);
	}
	CHECK(pid > 0, "fork");
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st))
		FAIL("psimagdoc.pl ended by signal " << WTERMSIG(st));
	CHECK(WEXITSTATUS(st) != 126 && WEXITSTATUS(st) != 127, "perl does not start");
	out = slurp(res);
	return WEXITSTATUS(st);
}

static std::string word(Ctx& c)
{
	static const char* w[] = { "the", "solver", "vector", "of", "sites", "\\code{x}", "$a_i$", "100", "a<b", "x*y", "#", "label", "\"quoted\"", "{", "}", "@inc", "it's", "(see above)", "\\", "\\\\", "%", "$x", "0", "\\verb!a!", "kind", "&" };
	return w[c.below(sizeof(w) / sizeof(w[0]))];
}

static std::string sentence(Ctx& c, unsigned lo)
{
	std::string s;
	for (unsigned n = c.skewRare(lo, 6, 200, 200); n > 0; --n)
		s += (s.empty() ? "" : " ") + word(c);
	return s;
}

static std::string q(const std::string& s)
{
	std::string r = "'";
	for (char ch : s) {
		if (ch == '\\' || ch == '\'')
			r += '\\';
		r += ch;
	}
	return r + "'";
}

struct Entry { // what can be pasted
	std::string owner, call; // "Class" or "!file", and "", "f()" or "v"
	std::string text; // with the mark of the class still in it
};

struct Maker {
	Ctx&                     c;
	std::vector<Entry>       entries;
	std::vector<std::string> owners, calls;

	// a documentation and its perl text
	std::string detailed(std::string& plain)
	{
		plain = "";
		switch (c.weighted({ 10, 1, 1 })) {
		case 1:
			return "";
		case 2:
			return "detailed => {},";
		default:
			break;
		}
		std::string s = "detailed => { doc => [ ";
		for (unsigned n = c.skewRare(1, 5, 60, 100); n > 0; --n) {
			if (c.chance(1, 4)) {
				s += "{ type => 'parbreak' }, ";
				plain += "\n\n";
			} else if (c.chance(1, 20)) {
				s += "{ type => 'text' }, ";
			} else {
				std::string t = sentence(c, 0);
				if (c.chance(1, 3))
					t += (t.empty() ? "" : " ") + std::string("!PTEX_THISCLASS") + (c.flip() ? "" : ".");
				if (c.chance(1, 12))
					t += " !PTEX_THISCLASS";
				s += "{ type => 'text', content => " + q(t) + " }, ";
				plain += t;
			}
		}
		s += "]";
		if (c.chance(1, 4))
			s += ", also => [ { type => 'see', name => 'solve', content => 'nothing' } ]";
		return s + " },";
	}

	// one member; the keys come in any order
	std::string member(const std::string& owner, const std::string& kind, const std::string& nm)
	{
		std::string plain, d = detailed(plain);
		std::vector<std::string> keys { "kind => " + q(kind) + ",", "name => " + q(nm) + ",", d, "brief => { doc => [ { type => 'text', content => 'brief' } ] },", "protection => 'public'," };
		if (kind == "function") {
			keys.push_back("parameters => [ { declaration_name => " + q(c.flip() ? nm : "x") + ", type => 'int' } ],");
			keys.push_back("type => 'void',");
			if (c.chance(1, 4))
				keys.push_back("reimplements => { name => " + q(nm) + " },");
		}
		if (kind == "enum")
			keys.push_back("values => [ { name => 'size' }, { name => 'ab' } ],");
		std::string s = "{ ";
		while (!keys.empty()) {
			unsigned k = c.below(keys.size());
			s += keys[k] + " ";
			keys.erase(keys.begin() + k);
		}
		if (kind == "function" || kind == "variable")
			entries.push_back({ owner, kind == "function" ? nm + "()" : nm, plain });
		return s + "}, ";
	}

	std::string unit(const std::string& nm, bool file)
	{
		std::string owner = (file ? "!" : "") + nm, plain;
		owners.push_back(owner);
		std::string s = "{ name => " + q(nm) + ", ";
		s += detailed(plain) + " ";
		entries.push_back({ owner, "", plain });
		if (!file && c.chance(1, 4))
			s += "kind => 'class', ";
		if (!file && c.chance(1, 4))
			s += "base => [ { name => 'Base', virtualness => 'non_virtual' } ], inner => [ { name => 'solve' }, { name => 'size' } ], ";
		if (file && c.chance(1, 4))
			s += "included_by => [ { name => 'other.h' } ], ";
		const std::vector<std::string> cls { "public_methods", "private_methods", "public_members", "private_members", "public_typedefs" };
		const std::vector<std::string> fil { "functions", "variables", "defines", "enums", "typedefs" };
		std::set<std::string> used;
		unsigned              groups = c.below(4), from = c.below(5);
		for (unsigned g = 0; g < groups; ++g) {
			s += (file ? fil : cls)[(from + g) % 5] + " => { members => [ ";
			for (unsigned n = c.skewRare(0, 4, 40, 100); n > 0; --n) {
				static const char* names[] = { "solve", "size", "a", "ab", "operator()", "operator==", "x_", "begin", "0", "kind", "function", "operator!=" };
				std::string        nm2     = c.chance(1, 10) ? nm : c.chance(1, 12) ? "~" + nm : c.chance(1, 6) ? "m" + std::to_string(c.below(60)) : std::string(names[c.below(12)]);
				static const char* kinds[] = { "function", "variable", "typedef", "enum" };
				std::string        kind    = kinds[c.weighted({ 5, 4, 1, 1 })];
				// names with () mean functions, whatever they are
				if (kind != "function" && nm2 == "operator()")
					continue;
				if (used.insert(kind + " " + nm2).second)
					s += member(owner, kind, nm2);
			}
			s += "] }, ";
		}
		return s + "}, ";
	}

	std::string database()
	{
		std::string           s = "$doxydocs = { ";
		std::set<std::string> used;
		bool                  filesFirst = c.flip();
		for (unsigned k = 0; k < 2; ++k) {
			bool file = (k == 0) == filesFirst;
			s += file ? "files => [ " : "classes => [ ";
			for (unsigned n = c.skewRare(file ? 0 : 1, 4, 40, 100); n > 0; --n) {
				static const char* cn[] = { "Solver", "PsimagLite::Vector", "A", "Ab", "Matrix< T >", "solve", "0", "If< !B >", "B >" };
				static const char* fn[] = { "Solver.h", "A", "main.cpp", "solve", "Ab", "a!b.h" };
				std::string        nm   = c.chance(1, 6) ? "U" + std::to_string(c.below(60)) : std::string(file ? fn[c.below(5)] : cn[c.below(9)]);
				if (used.insert(char('0' + file) + nm).second)
					s += unit(nm, file);
			}
			s += "], ";
			if (c.flip())
				s += "namespaces => [ { name => 'PsimagLite', detailed => { doc => [ { type => 'text', content => 'namespace' } ] } } ], ";
		}
		return s + "};\n1;\n";
	}
};

static std::string marked(std::string s, std::string owner)
{
	if (owner[0] == '!')
		owner.erase(0, 1);
	const std::string m = "!PTEX_THISCLASS";
	for (size_t p = 0; (p = s.find(m, p)) != std::string::npos; p += owner.size())
		s.replace(p, m.size(), owner);
	return s;
}

static std::string pasteOf(const Entry& e)
{
	return "\\ptexPaste{" + e.owner + (e.call.empty() ? "" : "," + e.call) + "}";
}

// a document and what becomes of it
static void document(Ctx& c, const std::vector<Entry>& entries, std::string& in, std::string& want, unsigned& pastes)
{
	for (unsigned n = c.rare(1, 10, 100, 100); n > 0; --n)
		switch (c.weighted({ 3, 6, 1, 2, 1 })) {
		case 0: { // text
			std::string s = sentence(c, 0);
			in += s + "\n";
			want += s + "\n";
			break;
		}
		case 1: { // pastes among text
			for (unsigned k = c.skew(1, 3); k > 0; --k) {
				const Entry& e = entries[c.below(entries.size())];
				std::string  s = c.flip() ? "" : sentence(c, 1) + " ";
				in += s + pasteOf(e);
				want += s + marked(e.text, e.owner);
				++pastes;
			}
			std::string s = c.flip() ? "" : " " + sentence(c, 1);
			in += s + "\n";
			want += s + "\n";
			break;
		}
		case 2: // the definitions of the commands are left out
			in += c.flip() ? "\\newcommand{\\ptexPaste}[1]{#1}\n" : "\\newcommand{\\ptexReadFile}[1]{}\n";
			break;
		case 3: { // a file
			std::string f = "inc" + std::to_string(c.below(4)) + ".tex", body;
			for (unsigned k = c.skew(0, 4); k > 0; --k)
				body += c.chance(1, 4) ? "\\ptexPaste{Nothing}\n" : sentence(c, 0) + "\n";
			if (!body.empty() && c.chance(1, 6))
				body.erase(body.size() - 1); // without a last end of line
			std::string path = pbt::scratch() + "/" + f;
			if (access(path.c_str(), F_OK) == 0)
				body = slurp(path);
			else
				spit(path, body);
			in += (c.flip() ? "" : "  ") + ("\\ptexReadFile{" + f + "}") + "\n";
			want += body;
			break;
		}
		default: { // what only looks like one
			static const char* w[] = { "\\ptexPaste{}", "\\ptexpaste{A}", "ptexPaste{A}", "\\ptexPasteA", "\\ptexReadFile{}", "!PTEX_THISCLASS", "\\newcommand{\\tex}{x}" };
			std::string        s   = w[c.below(7)];
			in += s + "\n";
			want += s + "\n";
		}
		}
	if (c.chance(1, 8) && !in.empty()) {
		in += "the end";
		want += "the end";
	}
}

static void prepare()
{
	mkdir((pbt::scratch() + "/doxygen").c_str(), 0700);
	mkdir((pbt::scratch() + "/doxygen/perlmod").c_str(), 0700);
	for (int i = 0; i < 4; ++i)
		unlink((pbt::scratch() + "/inc" + std::to_string(i) + ".tex").c_str());
}

PROP(documents, 3)
{
	prepare();
	Maker       m { c, {}, {}, {} };
	std::string db = m.database(), in, want, out;
	spit(pbt::scratch() + "/doxygen/perlmod/DoxyDocs.pm", db);
	unsigned pastes = 0, order = c.below(1000);
	document(c, m.entries, in, want, pastes);
	DESC("order " << order << "\n"
	              << db << "-----\n"
	              << in << "-----");
	if (pastes >= 2)
		c.nontrivial();
	int rc = psimagdoc(in, order, out);
	CHECK(rc == 0, "refused with " << rc);
	CHECK(out == want, "document is\n"
	          << out << "<<<and not\n"
	          << want << "<<<");
}

PROP(faults, 1)
{
	prepare();
	Maker       m { c, {}, {}, {} };
	std::string db = m.database(), in, want, out, bad;
	spit(pbt::scratch() + "/doxygen/perlmod/DoxyDocs.pm", db);
	unsigned           pastes = 0, order = c.below(1000);
	std::set<std::string> known;
	for (auto& e : m.entries)
		known.insert(pasteOf(e));
	const Entry& e = m.entries[c.below(m.entries.size())];
	unsigned     kind = c.below(6);
	switch (kind) {
	case 0: // no such class or file
		bad = pasteOf({ c.pickOf<std::string>({ "Nothing", "!nothing.h", "a", "A ", "!Solver", "solver", "PsimagLite" }), c.flip() ? "" : "solve()", "" });
		break;
	case 1: // no such member
		bad = pasteOf({ e.owner, c.pickOf<std::string>({ "nothing()", "nothing", "solve ()", "b()", "Base", "Base()", "x", "x()" }), "" });
		break;
	case 2: // a function asked for as a variable, and the reverse
		if (e.call.empty())
			return;
		bad = pasteOf({ e.owner, e.call.size() > 2 && e.call.substr(e.call.size() - 2) == "()" ? e.call.substr(0, e.call.size() - 2) : e.call + "()", "" });
		break;
	case 3: // the member of another
		if (e.call.empty())
			return;
		bad = pasteOf({ m.owners[c.below(m.owners.size())], e.call, "" });
		break;
	case 4: // a file that is missing
		bad = "\\ptexReadFile{" + c.pickOf<std::string>({ "missing.tex", "doxygen/inc.tex", "no/such" }) + "}";
		break;
	default: // nothing asked for
		bad = "\\ptexPaste{,}";
	}
	if (known.count(bad))
		return;
	document(c, m.entries, in, want, pastes);
	if (!in.empty() && in[in.size() - 1] != '\n')
		in += "\n";
	in += (kind != 4 && c.flip() ? pasteOf(e) + " " : std::string()) + bad + "\n";
	if (c.flip()) {
		std::string more;
		document(c, m.entries, more, want, pastes);
		in += more;
	}
	DESC("fault " << bad << " order " << order << "\n"
	              << db << "-----\n"
	              << in << "-----");
	c.nontrivial();
	c.label("fault " + std::to_string(kind));
	int rc = psimagdoc(in, order, out);
	CHECK(rc != 0, "accepted " << bad << ", and wrote\n"
	                           << out);
}

PBT_MAIN
