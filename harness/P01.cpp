// PBT-QUICK: 80000
// PBT-THOROUGH: 2000000
// PBT-RULE: a case is one or two generated tag files of up to 14 lines (definitions in every mode, blocks, escapes, references, comments, deletions; some malformed), read by the scripts of the repository and by a
// PBT-RULE: reference reader, or the list of drivers of a makefile; non-trivial = at least three statements in effect, or two drivers
#include "pbt.h"
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

typedef pbt::Ctx Ctx;

// ---------------------------------------------------------------- the scripts, in a process of their own
struct Server {
	pid_t owner = 0, child = 0;
	int   to = -1, from = -1;

	static std::string repo()
	{
		const char* r = getenv("VERIF_REPO");
		return r && *r ? r : "/repo";
	}

	static std::string here()
	{
		std::string f = __FILE__;
		return f.substr(0, f.rfind('/'));
	}

	void start()
	{
		owner = getpid();
		int a[2], b[2];
		if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0)
			FAIL("pipe");
		std::string script = here() + "/psitag_server.pl", dir = repo() + "/scripts";
		child = fork();
		if (child == 0) {
			dup2(a[0], 0);
			dup2(b[1], 1);
			struct rlimit l;
			l.rlim_cur = l.rlim_max = 1500u << 20;
			setrlimit(RLIMIT_AS, &l);
			execlp("perl", "perl", script.c_str(), dir.c_str(), (char*)nullptr);
			_exit(127);
		}
		close(a[0]);
		close(b[1]);
		to   = a[1];
		from = b[0];
	}

	std::string ask(const std::string& line)
	{
		if (owner != getpid())
			start();
		std::string l = line + "\n";
		signal(SIGPIPE, SIG_IGN);
		bool ok = write(to, l.data(), l.size()) == ssize_t(l.size());
		std::string head;
		char        ch;
		while (ok) {
			ok = read(from, &ch, 1) == 1;
			if (!ok || ch == '\n')
				break;
			head += ch;
		}
		size_t      n = ok ? strtoul(head.c_str(), nullptr, 10) : 0;
		std::string s(n, ' ');
		size_t      done = 0;
		while (ok && done < n) {
			ssize_t r = read(from, &s[done], n - done);
			if (r <= 0)
				ok = false;
			else
				done += r;
		}
		if (!ok) {
			close(to);
			close(from);
			int st;
			waitpid(child, &st, 0);
			owner = 0;
			FAIL("the script ended without an answer to: " << line);
		}
		if (n == 0 || s[0] == 'H')
			FAIL("the script does not end on: " << line);
		return s;
	}
};
static Server server;

// ---------------------------------------------------------------- reference reader
static std::string lstrip(const std::string& s)
{
	size_t p = s.find_first_not_of(" \t");
	return p == std::string::npos ? "" : s.substr(p);
}
static std::string rstrip(const std::string& s)
{
	size_t p = s.find_last_not_of(" \t");
	return p == std::string::npos ? "" : s.substr(0, p + 1);
}
static std::string canonical(const std::string& s0)
{
	std::string s = lstrip(rstrip(s0)), r;
	for (size_t i = 0; i < s.size();) {
		if (s[i] != ' ' && s[i] != '\t') {
			r += s[i++];
			continue;
		}
		size_t j = i;
		while (j < s.size() && (s[j] == ' ' || s[j] == '\t'))
			++j;
		r += j - i == 1 ? s[i] : ' ';
		i = j;
	}
	return r;
}

struct Refused {
	std::string why;
};

typedef std::map<std::string, std::string> Tags;

struct Reader {
	Tags&    tags;
	unsigned effects = 0;

	void add(const std::string& tag, const std::string& mode, const std::string& content)
	{
		bool has = tags.count(tag);
		++effects;
		if (mode == "=")
			tags[tag] = content;
		else if (mode == "+=")
			tags[tag] += content;
		else if (mode == "=?") {
			if (!has)
				tags[tag] = content;
		} else if (mode == "=!") {
			if (has)
				throw Refused { "strict addition" };
			tags[tag] = content;
		} else if (mode == "-=" || mode == "-=!") {
			std::string old = has ? tags[tag] : "", r;
			if (old.find(content) == std::string::npos) {
				if (mode == "-=!")
					throw Refused { "strict deletion" };
				return;
			}
			for (size_t i = 0; i < old.size();)
				if (old.compare(i, content.size(), content) == 0)
					i += content.size();
				else
					r += old[i++];
			tags[tag] = r;
		} else
			throw Refused { "mode " + mode };
	}

	static bool closes(std::string& s)
	{
		std::string t = rstrip(s);
		if (t.empty() || t[t.size() - 1] != ')')
			return false;
		s = t.substr(0, t.size() - 1);
		return true;
	}

	void read(const std::vector<std::string>& lines)
	{
		const std::string special = "=+?!-<&*";
		bool              block = false;
		std::string       tag, mode, text;
		for (auto& line : lines) {
			if (block) {
				std::string s    = lstrip(line);
				bool        done = closes(s);
				text += s + "\n";
				if (done) {
					add(tag, mode, text);
					block = false;
				}
				continue;
			}
			if (line[0] == '#' || lstrip(line).empty())
				continue;
			size_t k = line.find_first_of(special);
			if (k == std::string::npos || k == 0)
				throw Refused { "syntax" };
			size_t e = line.find_first_not_of(special, k);
			if (e == std::string::npos)
				e = line.size();
			tag              = canonical(line.substr(0, k));
			if (tag.empty())
				throw Refused { "blank tag" }; // not decided: the case is not judged
			mode             = line.substr(k, e - k);
			std::string rest = lstrip(line.substr(e));
			if (mode == "=" && rstrip(rest) == "()") {
				tags.erase(tag);
				++effects;
				continue;
			}
			bool open = !rest.empty() && rest[0] == '(';
			if (open)
				rest.erase(0, 1);
			bool close = closes(rest);
			if (close && !open)
				throw Refused { "closing parenthesis" };
			rest = lstrip(rest);
			if (open && !close) {
				block = true;
				text  = rest.empty() ? "" : rest + "\n";
			} else
				add(tag, mode, rest + "\n");
		}
		if (block)
			throw Refused { "block without end" };
	}
};

static std::vector<std::string> split(const std::string& s)
{
	std::vector<std::string> v;
	std::string              l;
	for (char ch : s)
		if (ch == '\n') {
			v.push_back(l);
			l = "";
		} else
			l += ch;
	if (!l.empty())
		v.push_back(l);
	while (!v.empty() && v.back().empty())
		v.pop_back();
	return v;
}

static std::string unwrap(const Tags& tags, const std::string& text, std::set<std::string>& open, unsigned& expansions)
{
	std::string r;
	for (auto& line : split(text)) {
		std::string s = lstrip(line);
		if (!s.empty() && s[0] == '<') {
			std::string t = canonical(s.substr(1));
			auto        it = tags.find(t);
			if (it == tags.end())
				throw Refused { "no tag " + t };
			if (!open.insert(t).second)
				throw Refused { "cycle through " + t };
			if (++expansions > 3000)
				throw Refused { "too many" };
			r += unwrap(tags, it->second, open, expansions) + "\n";
			open.erase(t);
			continue;
		}
		if (!s.empty() && s[0] == '\\')
			s.erase(0, 1);
		else
			s = line;
		std::string t = rstrip(s);
		if (!t.empty() && t[t.size() - 1] == '\\')
			s.erase(t.size() - 1, 1);
		r += s + "\n";
	}
	return r;
}

// ---------------------------------------------------------------- generator
static std::string blanks(Ctx& c, unsigned lo, unsigned hi)
{
	std::string s;
	for (unsigned n = c.range(lo, hi); n > 0; --n)
		s += c.chance(1, 3) ? '\t' : ' ';
	return s;
}

static std::string tagName(Ctx& c, bool flavors)
{
	static const std::vector<std::string> names = { "a", "b c", "0", "lib z", ".", "x:y/1", "tag" };
	static const std::vector<std::string> fl = { "flavor one", "flavor two", "a", "b c", "lib z", "0" };
	return flavors ? c.pick(fl) : c.pick(names);
}

static std::string rendered(Ctx& c, const std::string& name)
{
	std::string s;
	for (char ch : name)
		if (ch == ' ' && c.chance(1, 3))
			s += blanks(c, 2, 3);
		else
			s += ch;
	return s;
}

static std::string piece(Ctx& c)
{
	static const char abc[] = "abcABC =+-<>()\\#.$/\t";
	if (c.flip()) {
		static const std::vector<std::string> some = { "CXX = g++", "LDFLAGS += -lm", "x", "", "one two", "(deep)", "a)", "\\", "tail \\", "# remark", "-DUSE_X", "a.c", "x)\\", "}", "{" };
		return c.pick(some);
	}
	std::string s;
	for (unsigned n = c.skewRare(0, 8, 300, 200); n > 0; --n)
		s += abc[c.below(sizeof(abc) - 1)];
	return s;
}

static std::string contentLine(Ctx& c)
{
	switch (c.weighted({ 5, 3, 2, 1 })) {
	case 0:
		return piece(c);
	case 1:
		return blanks(c, 0, 1) + "<" + blanks(c, 0, 1) + rendered(c, tagName(c, c.chance(1, 5))) + blanks(c, 0, 1);
	case 2:
		return "\\" + piece(c);
	default:
		return piece(c) + "\\" + blanks(c, 0, 1);
	}
}

static std::string mode(Ctx& c)
{
	static const std::vector<std::string> m = { "=", "+=", "=?", "=!", "-=", "-=!" };
	unsigned                              k = c.weighted({ 24, 14, 7, 1, 7, 1, 1 });
	if (k < 6)
		return m[k];
	static const std::vector<std::string> bad = { "==", "=+", "?", "-", "!=", "=-", "<", "&", "*=", "=<" };
	return c.chance(1, 3) ? c.pick(bad) : std::string("=");
}

struct Gen {
	std::vector<std::string> lines;
	std::string              used; // contents given, to delete them again
	std::vector<std::string> contents;

	// several statements about one tag and one content
	void story(Ctx& c, bool flavors)
	{
		std::string name = tagName(c, flavors), s = contentLine(c), t = c.flip() ? s : contentLine(c);
		static const std::vector<std::string> m = { "=", "+=", "=?", "=!", "-=", "-=!" };
		for (unsigned n = c.range(2, 4), i = 0; i < n; ++i)
			lines.push_back(name + " " + (i == 0 ? m[c.below(2)] : m[c.weighted({ 1, 3, 2, 1, 4, 2 })]) + " " + (i < 2 || c.flip() ? s : t));
	}

	void statement(Ctx& c, bool flavors)
	{
		unsigned kind = c.weighted({ 8, 5, 1, 1, 1, 2 });
		std::string name = blanks(c, 0, 1) + rendered(c, tagName(c, flavors)) + blanks(c, 0, 2);
		if (name.find_first_not_of(" \t") == std::string::npos)
			name = "a";
		switch (kind) {
		case 0: {
			std::string m = mode(c), s = contentLine(c);
			if (m[0] == '-' && !contents.empty() && c.chance(3, 4))
				s = c.pick(contents);
			contents.push_back(s);
			// special characters after the mode would belong to it
			bool        sep = !s.empty() && strchr("=+?!-<&*", s[0]);
			lines.push_back(name + m + blanks(c, sep ? 1 : 0, 2) + s);
			break;
		}
		case 1: {
			std::string open = name + mode(c) + blanks(c, 0, 1) + "(";
			if (c.chance(1, 4)) {
				std::string s = contentLine(c);
				contents.push_back(s);
				open += blanks(c, 0, 1) + s;
			} else
				open += blanks(c, 0, 1);
			lines.push_back(open);
			for (unsigned n = c.below(4); n > 0; --n) {
				std::string s = contentLine(c);
				contents.push_back(s);
				lines.push_back(blanks(c, 0, 1) + s);
			}
			if (c.chance(24, 25))
				lines.push_back(blanks(c, 0, 1) + (c.chance(1, 4) ? contentLine(c) : std::string()) + ")" + blanks(c, 0, 1));
			break;
		}
		case 2:
			lines.push_back("#" + piece(c));
			break;
		case 3:
			lines.push_back(blanks(c, 0, 2));
			break;
		case 4:
			lines.push_back(c.chance(1, 12) ? piece(c) : std::string("# = remark"));
			break;
		default:
			lines.push_back(name + "=" + blanks(c, 0, 1) + "()" + blanks(c, 0, 1));
		}
	}

	void write(const std::string& file) const
	{
		std::ofstream f(file);
		for (auto& l : lines)
			f << l << "\n";
	}
};

static std::string takePacked(const std::string& s, size_t& p)
{
	size_t q = s.find('\n', p);
	size_t n = strtoul(s.substr(p, q - p).c_str(), nullptr, 10);
	p        = q + 1 + n;
	return s.substr(q + 1, n);
}

static std::string show(const Tags& t)
{
	std::string s;
	for (auto& x : t)
		s += "[" + x.first + "]->{" + x.second + "} ";
	return s;
}

struct Files {
	std::string names;
	Tags        tags;
	bool        refused = false, skip = false;
	std::string why;
	unsigned    effects = 0;
};

static Files make(Ctx& c, bool flavors)
{
	Files    r;
	unsigned n = c.chance(1, 4) ? 2 : 1;
	for (unsigned i = 0; i < n; ++i) {
		Gen g;
		if (flavors && i == 0 && c.chance(5, 6))
			for (auto& t : { "lib z", "b c", "a", "tag", ".", "x:y/1", "0" }) {
				if (c.chance(1, 8))
					continue;
				std::string s = c.chance(2, 3) ? (c.flip() ? "\\" : "") + piece(c) : std::string("< ") + c.pick(std::vector<std::string>(1, c.flip() ? "lib z" : "tag"));
				if (!s.empty() && s[s.size() - 1] == ')')
					s += "\\";
				g.lines.push_back(std::string(t) + " = " + (s[0] == '(' ? "\\" : "") + s);
			}
		for (unsigned k = c.skewRare(1, 8, 40, 60); k > 0; --k)
			if (c.chance(1, 12))
				g.story(c, flavors && c.flip());
			else
				g.statement(c, flavors && c.flip());
		if (flavors && i == 0) {
			g.lines.push_back("flavor one = (");
			for (unsigned k = c.below(4); k > 0; --k)
				g.lines.push_back(contentLine(c));
			g.lines.push_back(")");
			if (c.chance(3, 4)) {
				g.lines.push_back("flavor two = (");
				for (unsigned k = c.below(6); k > 0; --k)
					g.lines.push_back(c.chance(2, 3) ? "< " + tagName(c, c.chance(1, 4)) : contentLine(c));
				g.lines.push_back(")");
			}
			g.lines.push_back(std::string("default flavor =") + (c.flip() ? " one" : "  two "));
		}
		std::string f = pbt::scratch() + "/t" + std::to_string(i) + ".psiTag";
		g.write(f);
		r.names += (r.names.empty() ? "" : " ") + f;
		for (auto& l : g.lines)
			c.log << l << "\n";
		c.log << "-----\n";
		Reader rd { r.tags };
		try {
			if (!r.refused)
				rd.read(g.lines);
		} catch (Refused& e) {
			r.refused = true;
			r.why     = e.why;
			r.skip    = r.skip || e.why == "blank tag";
		}
		r.effects += rd.effects;
	}
	return r;
}

PROP(tagFile, 4)
{
	DESC("files\n");
	Files f = make(c, false);
	if (f.skip)
		return;
	if (f.effects >= 3)
		c.nontrivial();
	c.labelIf(f.refused, "refused");
	std::string a = server.ask("tags " + f.names);
	if (a[0] == 'E') {
		CHECK(f.refused, "refused (" << a.substr(1) << "), and the tags are " << show(f.tags));
		return;
	}
	CHECK(!f.refused, "accepted, in spite of: " << f.why);
	Tags   got;
	size_t p = 1;
	while (p < a.size()) {
		std::string k = takePacked(a, p);
		got[k]        = takePacked(a, p);
	}
	CHECK(got == f.tags, "tags are " << show(got) << "\nand not " << show(f.tags));
}

PROP(expansion, 4)
{
	DESC("files\n");
	Files f = make(c, true);
	if (f.skip)
		return;
	if (f.effects >= 3)
		c.nontrivial();
	std::string flavor = c.flip() ? "UNDEFINED" : c.chance(1, 8) ? c.pickOf<std::string>({ "One", "TWO", "on", "twoo", "0" }) : c.flip() ? "one" : "two";
	c.log << "flavor " << flavor << "\n";
	std::string want;
	unsigned    expansions = 0;
	if (!f.refused) {
		std::string fl = flavor;
		if (fl == "UNDEFINED")
			fl = f.tags.count("default flavor") ? f.tags["default flavor"] : "";
		for (auto& ch : fl)
			if (ch == '\n')
				ch = ' ';
		fl      = canonical(fl);
		auto it = f.tags.find("flavor " + fl);
		if (it == f.tags.end()) {
			f.refused = true;
			f.why     = "no flavor " + fl;
		} else
			try {
				std::set<std::string> open;
				want = unwrap(f.tags, it->second, open, expansions);
			} catch (Refused& e) {
				f.refused = true;
				f.why     = e.why;
				if (e.why == "too many")
					return;
			}
	}
	c.labelIf(f.refused, "refused");
	c.labelIf(!f.refused && expansions > 0, "expanded");
	c.labelIf(!f.refused && expansions > 1, "expanded twice or more");
	std::string a = server.ask("conf " + flavor + " " + f.names);
	if (a[0] == 'E') {
		CHECK(f.refused, "refused (" << a.substr(1) << "), and the text is\n"
		                             << want);
		return;
	}
	CHECK(!f.refused, "accepted, in spite of: " << f.why << "\n"
	                                            << a.substr(1));
	CHECK(a.substr(1) == want, "text is\n"
	          << a.substr(1) << "<<<and not\n"
	          << want << "<<<");
}

// ---------------------------------------------------------------- makefile
struct Rule {
	std::multiset<std::string> needs;
	std::vector<std::string>   recipe;
};

static std::vector<std::string> words(const std::string& s)
{
	std::istringstream       in(s);
	std::vector<std::string> v;
	std::string              w;
	while (in >> w)
		v.push_back(w);
	return v;
}

static std::string squeeze(const std::string& s)
{
	std::string r;
	for (auto& w : words(s))
		r += (r.empty() ? "" : " ") + w;
	return r;
}

PROP(configFiles, 1)
{
	// the basic file, and then the one given or, without it, the one of the environment
	auto name = [&]() { return std::string(c.pickOf<std::string>({ "a", "/no/such/file", pbt::scratch() + "/there", "../x.psiTag", "0x" })); };
	{
		std::ofstream f(pbt::scratch() + "/there");
		f << "x = 1\n";
	}
	std::string basic = name(), opt = c.flip() ? name() : "-", env = c.flip() ? name() : "-";
	DESC(basic << " " << opt << " " << env);
	if (opt != "-" || env != "-")
		c.nontrivial();
	std::string a = server.ask("list " + basic + " " + opt + " " + env), want = "O" + basic + "\n";
	if (opt != "-")
		want += opt + "\n";
	else if (env != "-")
		want += env + "\n";
	CHECK(a == want, "files are " << a);
}

PROP(makefile, 2)
{
	unsigned n = c.skewRare(1, 5, 40, 60);
	bool     needsLib = c.flip(), hasPath = c.chance(1, 3), extra = c.flip(), all3 = c.chance(1, 3), all4 = c.chance(1, 3), clean = c.chance(1, 3), flags = c.flip();
	std::string path = hasPath ? "../up/" : "";
	std::string spec = pbt::scratch() + "/spec", out = pbt::scratch() + "/Makefile", conf = pbt::scratch() + "/conf.psiTag";
	{
		std::ofstream f(conf);
		f << "default flavor = z\nflavor z = (\nCXX = g++\nSTRIP_COMMAND = strip\n)\n";
	}
	std::map<std::string, Rule>     want;
	std::multiset<std::string>      exes, cpps;
	{
		std::ofstream f(spec);
		f << "arg|configFiles|" << conf << "\narg|flavor|UNDEFINED\narg|code|test\n";
		if (c.flip() || needsLib)
			f << "arg|needsPsimagLiteLib|" << (needsLib ? 1 : 0) << "\n";
		f << "arg|path|" << path << "\n"; // always: the makefiles of the library give none only in their own directory
		if (extra)
			f << "arg|additional|more.h\n";
		if (clean)
			f << "arg|additional2|junk\n";
		if (all3)
			f << "arg|additional3|last\n";
		if (all4)
			f << "arg|additional4|first\n";
		if (flags)
			f << "arg|CPPFLAGS|-DQ\narg|LDFLAGS|-lq\n";
		DESC(n << " drivers: ");
		for (unsigned i = 0; i < n; ++i) {
			std::string name = std::string(1 + i / 26, char('a' + i % 26)) + (c.flip() ? "x.y" : "_1"), dotos, libs = "none", aux;
			bool        old = c.flip(), isAux = false;
			if (old)
				f << "old|" << name << "\n";
			else {
				isAux = c.chance(1, 3);
				aux   = isAux ? "1" : (c.flip() ? "0" : "");
				if (c.flip())
					dotos = c.chance(1, 3) ? std::string("other.o") : name + (c.flip() ? ".o other.o" : ".o");
				if (c.flip())
					libs = c.flip() ? "foo" : "";
				f << "new|" << name << "|" << aux << "|" << dotos << "|" << libs << "\n";
			}
			c.log << name << (old ? " old" : " new") << " aux=" << aux << " dotos=" << dotos << " libs=" << libs << "; ";
			cpps.insert(name + ".cpp");
			Rule& o = want[name + ".o"];
			o.needs = { name + ".cpp", "Makefile" };
			if (extra)
				o.needs.insert("more.h");
			o.recipe = { "$(CXX) $(CPPFLAGS) -c " + name + ".cpp" };
			if (isAux)
				continue;
			exes.insert(name);
			Rule&       r = want[name];
			std::string d = dotos.empty() ? name + ".o" : dotos, l;
			for (auto& w : words(d))
				r.needs.insert(w);
			if (old && needsLib) {
				r.needs.insert(path + "../../PsimagLite/lib/libpsimaglite.a");
				l = "-lpsimaglite";
			}
			if (!old && libs != "none" && !libs.empty()) {
				r.needs.insert("lib" + libs + ".a");
				l = "-l" + libs;
			}
			r.recipe = { squeeze("$(CXX) -o " + name + " " + d + " $(LDFLAGS) " + l + " $(CPPFLAGS)"), "$(STRIP_COMMAND) " + name };
		}
	}
	if (n >= 2)
		c.nontrivial();
	want["all"].needs = exes;
	if (all3)
		want["all"].needs.insert("last");
	if (all4)
		want["all"].needs.insert("first");
	want["Makefile.dep"].needs = cpps;
	if (extra)
		want["Makefile.dep"].needs.insert("more.h");
	std::string a = server.ask("make " + spec + " " + out);
	CHECK(a[0] == 'O', "refused: " << a);
	std::ifstream               in(out);
	std::string                 line, target, text;
	std::map<std::string, Rule> got;
	std::vector<std::string>    assigns;
	bool                        dep = false;
	while (std::getline(in, line)) {
		text += line + "\n";
		if (line.empty() || line[0] == '#')
			continue;
		if (line[0] == '\t') {
			CHECK(!target.empty(), "recipe without a rule: " << line);
			got[target].recipe.push_back(squeeze(line));
			continue;
		}
		if (line.find('=') != std::string::npos) {
			assigns.push_back(squeeze(line));
			continue;
		}
		size_t k = line.find(':');
		if (k != std::string::npos) {
			target = line.substr(0, k);
			CHECK(!got.count(target), "two rules for " << target << "\n"
			                                           << text);
			size_t q = k;
			while (q < line.size() && line[q] == ':')
				++q;
			Rule& r = got[target];
			for (auto& w : words(line.substr(q)))
				r.needs.insert(w);
			continue;
		}
		if (squeeze(line) == "include Makefile.dep") {
			dep = true;
			continue;
		}
		CHECK(squeeze(line).empty(), "line " << line);
	}
	CHECK(dep, "dependencies are not included\n"
	               << text);
	for (auto& x : want) {
		CHECK(got.count(x.first), "no rule for " << x.first << "\n"
		                                         << text);
		Rule& g = got[x.first];
		CHECK(g.needs == x.second.needs, "prerequisites of " << x.first << " in\n"
		                                                     << text);
		if (!x.second.recipe.empty())
			CHECK(g.recipe == x.second.recipe, "recipe of " << x.first << " in\n"
			                                                << text);
	}
	std::string lib = path + "../../PsimagLite/lib/libpsimaglite.a";
	CHECK(got.count(lib) && got.count("clean"), "rules for the library or for cleaning are missing\n"
	          << text);
	for (auto& x : got)
		CHECK(want.count(x.first) || x.first == lib || x.first == "clean", "a rule for " << x.first << " in\n"
		                                                                                 << text);
	std::multiset<std::string> cleaned;
	for (auto& l : got["clean"].recipe)
		for (auto& w : words(l))
			cleaned.insert(w);
	for (auto& e : exes)
		CHECK(cleaned.count(e), "clean leaves " << e << "\n"
		                                        << text);
	CHECK(!clean || cleaned.count("junk"), "clean leaves junk");
	auto has = [&](const std::string& l) { return std::find(assigns.begin(), assigns.end(), l) != assigns.end(); };
	CHECK(has("CXX = g++") && has("STRIP_COMMAND = strip"), "configuration is missing\n"
	          << text);
	CHECK(!flags || (has("CPPFLAGS += -DQ") && has("LDFLAGS += -lq")), "flags are missing\n"
	          << text);
	CHECK(got["Makefile.dep"].recipe.size() == 1 && got["Makefile.dep"].recipe[0].find("-MM") != std::string::npos, "recipe of Makefile.dep");
	for (auto& x : cpps) {
		auto w = words(got["Makefile.dep"].recipe[0]);
		CHECK(std::find(w.begin(), w.end(), x) != w.end(), "dependencies of " << x << " are not made");
	}
}

PBT_MAIN
