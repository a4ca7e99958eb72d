// PBT-SOURCES: Matrix.cpp PsimagLite.cpp ProgressIndicator.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 24000
// PBT-THOROUGH: 400000
// PBT-RULE: a case is a history of 1..25 reports through several progress indicators (one-line, stream and partial messages, buffer toggles), a program of nested profiling scopes,
// PBT-RULE: or a child process that redirects its output, writes lines and ends somehow; non-trivial = at least three messages
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "Concurrency.h"
#include "Profiling.h"
#include "ProgressIndicator.h"
#include "RedirectOutput.hh"

using namespace PsimagLite;
typedef pbt::Ctx Ctx;

static std::string slurp(const std::string& f)
{
	std::ifstream     i(f, std::ios::binary);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}

struct Quiet {
	std::streambuf*    old;
	std::ostringstream sink;
	Quiet()
	{
		old = std::cerr.rdbuf(sink.rdbuf());
	}
	~Quiet() { std::cerr.rdbuf(old); }
};

static std::string word(Ctx& c, unsigned maxLen)
{
	static const char abc[] = "abcxyzABC0123 .,:;[]=-+/\t";
	std::string       s;
	unsigned          n = c.skewRare(0, maxLen, 3000, 150);
	for (unsigned i = 0; i < n; ++i)
		s += abc[c.below(sizeof(abc) - 1)];
	return s;
}

static std::string name(Ctx& c)
{
	std::string s;
	unsigned    n = c.rare(1, 8, 200, 100);
	for (unsigned i = 0; i < n; ++i)
		s += char('A' + c.below(26));
	return s;
}

// takes "CALLER [seconds]: " at p off the text, or says why not
static std::string takePrefix(const std::string& t, size_t& p, const std::string& caller, double& secs)
{
	std::string head = caller + " [";
	if (t.compare(p, head.size(), head) != 0)
		return "expected " + head;
	p += head.size();
	size_t q = t.find("]: ", p);
	if (q == std::string::npos)
		return "no ]: ";
	std::string num = t.substr(p, q - p);
	size_t      dot = num.find('.');
	if (dot == std::string::npos || num.size() - dot != 4 || num.find_first_not_of("0123456789.") != std::string::npos)
		return "time is " + num;
	secs = atof(num.c_str());
	p    = q + 3;
	return "";
}

struct Piece {
	std::string caller, text;
};

static std::string compare(const std::string& out, const std::vector<Piece>& want, double& last)
{
	size_t p = 0;
	for (size_t i = 0; i < want.size(); ++i) {
		double      s;
		std::string e = takePrefix(out, p, want[i].caller, s);
		if (!e.empty())
			return "message " + std::to_string(i) + ": " + e + " at " + out.substr(p, 60);
		// the clock of the host may be set back; a small allowance only
		if (s < last - 0.002)
			return "message " + std::to_string(i) + ": time goes back from " + std::to_string(last) + " to " + std::to_string(s);
		last = s;
		if (out.compare(p, want[i].text.size(), want[i].text) != 0)
			return "message " + std::to_string(i) + ": got " + out.substr(p, 80) + " wanted " + want[i].text;
		p += want[i].text.size();
	}
	if (p != out.size())
		return "extra output: " + out.substr(p, 80);
	return "";
}

PROP(progress, 3)
{
	Quiet                          quiet;
	std::vector<ProgressIndicator> inds;
	std::vector<std::string>       names;
	std::vector<bool>              speaks;
	unsigned                       k = c.range(1, 3);
	for (unsigned i = 0; i < k; ++i) {
		names.push_back(name(c));
		unsigned thread = c.chance(1, 4) ? c.range(1, 7) : 0;
		speaks.push_back(thread == 0);
		inds.push_back(ProgressIndicator(names.back(), thread));
	}
	// the buffer file is made in the working directory
	std::string dir = pbt::scratch();
	char        old[4096];
	if (!getcwd(old, sizeof(old)))
		FAIL("getcwd");
	if (chdir(dir.c_str()) != 0)
		FAIL("chdir");
	std::string bufName = dir + "/buffer" + std::to_string(getpid()) + ".txt";
	unlink(bufName.c_str());

	std::ostringstream out;
	int                prec = c.range(1, 12);
	out.precision(prec);
	std::vector<Piece> toOut, toBuf;
	bool               active = false, kept = false;
	double             t0     = 0;
	OstringStream      reused(c.range(1, 12));
	unsigned           n = c.rare(1, 25, 300, 60), msgs = 0;
	std::string        error;
	DESC(k << " indicators, " << n << " steps: ");
	for (unsigned i = 0; i < n && error.empty(); ++i) {
		unsigned    w = c.below(k);
		std::string text;
		switch (c.below(5)) {
		case 0: // toggles the buffer
			c.log << "toggle; ";
			ProgressIndicator::updateBuffer(int(c.below(30)));
			if (active) {
				double      last = 0;
				std::string got  = slurp(bufName);
				if (got.empty() || got[got.size() - 1] != '\n')
					error = "buffer file does not end its line: " + got;
				else
					error = compare(got.substr(0, got.size() - 1), toBuf, last);
				if (!error.empty())
					error = "buffer: " + error;
				toBuf.clear();
				kept = c.flip(); // the next time the file is there already
				if (!kept)
					unlink(bufName.c_str());
			} else if ((access(bufName.c_str(), F_OK) == 0) != kept)
				error = "buffer file appears or disappears when the buffer is turned on";
			active = !active;
			break;
		case 1: { // a partial message
			text = word(c, 20);
			c.log << "print " << w << " '" << text << "'; ";
			inds[w].print(text, out);
			++msgs;
			if (speaks[w]) {
				toOut.push_back({ names[w], text });
				if (active)
					toBuf.push_back({ names[w], text });
			}
			break;
		}
		case 2: { // a fresh stream
			text = word(c, 20);
			OstringStream msg(6);
			msg() << text;
			c.log << "stream " << w << " '" << text << "'; ";
			inds[w].printline(msg, out);
			++msgs;
			if (speaks[w]) {
				toOut.push_back({ names[w], text + "\n" });
				if (active)
					toBuf.push_back({ names[w], text + "\n" });
			}
			break;
		}
		case 3: { // one stream used for one message after another
			if (!speaks[w])
				break; // those say nothing and leave the stream alone
			text = word(c, 20);
			reused() << text;
			c.log << "reused " << w << " '" << text << "'; ";
			inds[w].printline(reused, out);
			++msgs;
			toOut.push_back({ names[w], text + "\n" });
			if (active)
				toBuf.push_back({ names[w], text + "\n" });
			break;
		}
		default: {
			text = word(c, 30);
			c.log << "line " << w << " '" << text << "'; ";
			String s(text);
			inds[w].printline(s, out);
			++msgs;
			if (speaks[w]) {
				toOut.push_back({ names[w], text + "\n" });
				if (active)
					toBuf.push_back({ names[w], text + "\n" });
			}
		}
		}
		if (out.precision() != prec)
			error = "the precision of the stream changed";
	}
	// leave the library's buffer off and empty for the next case
	if (active) {
		ProgressIndicator::updateBuffer(0);
		if (error.empty()) {
			double      last = 0;
			std::string got  = slurp(bufName);
			error            = got.empty() ? "no buffer file" : compare(got.substr(0, got.size() - 1), toBuf, last);
			if (!error.empty())
				error = "buffer at end: " + error;
		}
	}
	unlink(bufName.c_str());
	if (chdir(old) != 0)
		FAIL("chdir back");
	if (msgs >= 3)
		c.nontrivial();
	c.labelIf(active, "buffered");
	CHECK(error.empty(), error);
	std::string e = compare(out.str(), toOut, t0);
	CHECK(e.empty(), e);
}

// ---------------------------------------------------------------- profiling
struct Prog {
	Ctx&                c;
	std::ostringstream& out;
	std::vector<Piece>& want;
	unsigned            count = 0;

	void scope(unsigned depth)
	{
		std::string caller = name(c), extra;
		bool        two = c.flip();
		++count;
		std::unique_ptr<Profiling> p;
		if (two) {
			extra = word(c, 12);
			p.reset(new Profiling(caller, extra, out));
			want.push_back({ caller, "starting clock " + extra + "\n" });
		} else {
			p.reset(new Profiling(caller, out));
			want.push_back({ caller, "starting clock\n" });
		}
		c.log << "{" << caller << " ";
		unsigned inner = depth > 3 ? 0 : c.skew(0, 3);
		for (unsigned i = 0; i < inner; ++i)
			scope(depth + 1);
		unsigned ends = c.weighted({ 2, 2, 1 });
		bool     said = false;
		for (unsigned i = 0; i < ends; ++i) {
			std::string m = word(c, 12);
			p->end(m);
			c.log << "end ";
			if (!said)
				want.push_back({ caller, "stopping clock " + m + "\n" });
			said = true;
		}
		if (c.flip() && depth < 4)
			scope(depth + 2);
		p.reset();
		if (!said)
			want.push_back({ caller, "stopping clock \n" });
		c.log << "} ";
	}
};

PROP(profiling, 1)
{
	std::ostringstream out;
	std::vector<Piece> want;
	DESC("scopes ");
	Prog p { c, out, want };
	p.scope(0);
	if (p.count >= 3)
		c.nontrivial();
	double      last = 0;
	std::string e    = compare(out.str(), want, last);
	CHECK(e.empty(), e << "\nin\n" << out.str());
}

static unsigned long status(const char* label)
{
	std::ifstream f("/proc/self/status");
	std::string   s;
	while (std::getline(f, s))
		if (s.compare(0, strlen(label), label) == 0)
			return strtoul(s.c_str() + strlen(label), nullptr, 10);
	return 0;
}

PROP(memoryLine, 1)
{
	// the report of memory in use: one line on standard output, whatever the buffer
	Quiet quiet;
	char  old[4096];
	if (!getcwd(old, sizeof(old)) || chdir(pbt::scratch().c_str()) != 0)
		FAIL("chdir");
	std::string         bufName = pbt::scratch() + "/buffer" + std::to_string(getpid()) + ".txt";
	std::string         nm      = name(c);
	ProgressIndicator   ind(nm, 0);
	std::ostringstream  out;
	bool                buffered = c.flip();
	unsigned            n        = c.range(1, 4);
	DESC(nm << " buffered " << buffered << " times " << n);
	c.nontrivial();
	std::streambuf* keep = std::cout.rdbuf(out.rdbuf());
	if (buffered)
		ProgressIndicator::updateBuffer(1);
	// memory comes and goes between the reports
	std::vector<unsigned long>             size, peak0;
	std::vector<std::pair<void*, size_t>> blocks;
	for (unsigned i = 0; i < n; ++i) {
		unsigned what = c.below(3);
		if (what == 1) {
			size_t bytes = size_t(c.range(64, 1024)) << 20;
			void*  mem   = mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (mem != MAP_FAILED)
				blocks.push_back({ mem, bytes });
		} else if (what == 2 && !blocks.empty()) {
			munmap(blocks.back().first, blocks.back().second);
			blocks.pop_back();
		}
		size.push_back(status("VmSize:"));
		peak0.push_back(status("VmPeak:"));
		ind.printMemoryUsage();
	}
	for (auto& b : blocks)
		munmap(b.first, b.second);
	if (buffered)
		ProgressIndicator::updateBuffer(1);
	std::cout.rdbuf(keep);
	std::string inBuffer = slurp(bufName);
	unlink(bufName.c_str());
	if (chdir(old) != 0)
		FAIL("chdir back");
	auto judge = [&](const std::string& text, const char* where) {
		size_t p = 0;
		for (unsigned i = 0; i < n; ++i) {
			double      s;
			std::string e = takePrefix(text, p, nm, s);
			CHECK(e.empty(), where << ": " << e << " in line " << i << " of\n"
			                       << text);
			std::string head = "Current virtual memory is ";
			CHECK(text.compare(p, head.size(), head) == 0, where << " line " << i << " of\n"
			                                                     << text);
			size_t      q    = text.find('\n', p);
			std::string line = text.substr(p, q - p);
			CHECK(q != std::string::npos, where << " unfinished line");
			std::string  mid = " maximum was ";
			size_t       m   = line.find(mid);
			CHECK(m != std::string::npos, where << ": " << line);
			std::string now = line.substr(head.size(), m - head.size()), peak = line.substr(m + mid.size());
			char        u1[8] = "", u2[8] = "";
			unsigned long a = 0, b = 0;
			CHECK(sscanf(now.c_str(), "%lu %7s", &a, u1) == 2 && !strcmp(u1, "kB"), where << ": size is " << now);
			CHECK(sscanf(peak.c_str(), "%lu %7s", &b, u2) == 2 && !strcmp(u2, "kB"), where << ": peak is " << peak);
			CHECK(a > 0 && b >= a, where << ": " << line);
			// up to what the report itself needs
			const unsigned long slack = 16384;
			CHECK(a + slack >= size[i] && a <= size[i] + slack, where << ": " << line << " when the process had " << size[i]);
			CHECK(b + slack >= peak0[i] && b <= peak0[i] + slack, where << ": " << line << " when the peak was " << peak0[i]);
			p = q + 1;
		}
		if (std::string(where) == "buffer" && p < text.size() && text[p] == '\n')
			++p;
		CHECK(p == text.size(), where << " has more than " << n << " lines:\n"
		                              << text);
	};
	judge(out.str(), "output");
	if (buffered)
		judge(inBuffer, "buffer");
}

// ---------------------------------------------------------------- redirection
PROP(redirect, 1)
{
	std::string file = pbt::scratch() + "/redirected.txt";
	unlink(file.c_str());
	std::string before;
	bool        exists = c.flip();
	if (exists) {
		before = word(c, 30) + "\n";
		std::ofstream f(file);
		f << before;
	}
	bool     append = c.flip(), unbuffered = c.flip(), bad = c.chance(1, 8);
	unsigned how = c.below(3); // 0 exit, 1 _exit without flushing, 2 exit with the stream flushed before
	unsigned n   = c.range(1, 12);
	std::vector<std::string> early, lines;
	for (unsigned i = c.below(3); i > 0; --i)
		early.push_back(word(c, 20));
	for (unsigned i = 0; i < n; ++i)
		lines.push_back(word(c, 40));
	bool two = c.flip();
	DESC((append ? "append " : "truncate ") << (unbuffered ? "unbuffered " : "buffered ") << (exists ? "old contents " : "") << (bad ? "bad name " : "")
	                                        << "end " << how << " lines " << n);
	if (n >= 3)
		c.nontrivial();
	std::string target = bad ? pbt::scratch() + "/nodir/x" : file;
	std::string outF = pbt::scratch() + "/childout", errF = pbt::scratch() + "/childerr";
	unlink(outF.c_str());
	unlink(errF.c_str());
	pid_t pid = fork();
	CHECK(pid >= 0, "fork");
	if (pid == 0) {
		int o = open(outF.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		int e = open(errF.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		dup2(o, 1);
		dup2(e, 2);
		std::ios::sync_with_stdio(true);
		if (two)
			RedirectOutput::setAppName("app", "second");
		else
			RedirectOutput::setAppName("app");
		RedirectOutput r;
		if (r.hasBeenRedirected())
			_exit(21);
		for (auto& s : early)
			std::cout << s << "\n";
		std::cout.flush();
		bool threw = false;
		try {
			RedirectOutput::doIt(target, append ? std::ofstream::app : std::ofstream::out, unbuffered);
		} catch (std::exception&) {
			threw = true;
		}
		if (threw != bad)
			_exit(22);
		if (!bad && !r.hasBeenRedirected())
			_exit(23);
		if (bad && r.hasBeenRedirected())
			_exit(24);
		for (auto& s : lines)
			std::cout << s << "\n";
		if (how == 2 || (how == 1 && bad))
			std::cout.flush();
		if (how == 1)
			_exit(0);
		// the exit handlers of the library, without those of the sanitizer's leak checker
		std::cout.flush();
		exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	std::string out = slurp(outF), err = slurp(errF), got = slurp(file);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the writer ended with " << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) << "\n"
	                                                                      << err.substr(0, 1500));
	std::string e1, e2;
	for (auto& s : early)
		e1 += s + "\n";
	for (auto& s : lines)
		e2 += s + "\n";
	if (bad) {
		CHECK(out == e1 + e2, "a failed redirection loses output: " << out);
		CHECK(got == before, "a failed redirection changes another file");
		return;
	}
	CHECK(out == e1, "standard output has '" << out << "' and not '" << e1 << "'");
	CHECK(err.find(std::string(two ? "second" : "app") + ": Standard output sent to " + target + "\n") != std::string::npos, "announcement: " << err);
	std::string kept = append ? before : "";
	if (how == 1 && !unbuffered) {
		std::string all = kept + e2;
		CHECK(got.size() <= all.size() && all.compare(0, got.size(), got) == 0 && got.size() >= kept.size(), "file is '" << got << "'");
	} else
		CHECK(got == kept + e2, "file is '" << got << "' and should be '" << kept + e2 << "'");
}

PROP(streamPrecision, 1)
{
	// the stream of a message writes numbers with the precision it was given, and says the previous one when it is changed
	int           p = c.range(1, 17);
	OstringStream s(p);
	std::string   want;
	unsigned      n = c.range(1, 8);
	DESC("precision " << p << " steps " << n);
	if (n >= 3)
		c.nontrivial();
	for (unsigned i = 0; i < n; ++i) {
		if (c.chance(1, 3)) {
			int q   = c.range(1, 17);
			int was = s.precision(q);
			CHECK(was == p, "previous precision is " << was << " and not " << p);
			p = q;
		} else {
			double x = c.unit() * std::pow(10., c.range(-8, 8));
			char   b[64];
			snprintf(b, sizeof(b), "%.*g|", p, x);
			want += b;
			s() << x << "|";
		}
	}
	CHECK(std::string(s().str().c_str()) == want, s().str() << " and not " << want);
}

PBT_MAIN
