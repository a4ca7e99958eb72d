// PBT-SOURCES: Matrix.cpp PsimagLite.cpp MersenneTwister.cpp Io/TypeToH5.cpp
// PBT-LIBS: hdf5
// PBT-QUICK: 16000
// PBT-THOROUGH: 300000
// PBT-RULE: a case makes several run identifications, writes and prints a run's record, sets environment variables, reads a generated status file, adds and subtracts times, or limits a child's memory;
// PBT-RULE: non-trivial = at least two identifications, entries, names or times
#include "pbt.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <limits>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "Io/IoNg.h"
#include "Io/IoSelector.h"
#include "ApplicationInfo.h"
#include "Limit.h"
#include "MemoryUsage.h"
#include "MicroArchitecture.h"
#include "PsimagLite.h"

using namespace PsimagLite;
typedef pbt::Ctx Ctx;

// the identification is a number followed by the count of its bits, in two digits
static std::string badId(const std::string& id)
{
	if (id.size() < 3)
		return "too short";
	if (id.find_first_not_of("0123456789") != std::string::npos)
		return "not digits";
	std::string num = id.substr(0, id.size() - 2), bits = id.substr(id.size() - 2);
	if (num.size() > 19 || (num.size() > 1 && num[0] == '0'))
		return "number is " + num;
	unsigned long long y = strtoull(num.c_str(), nullptr, 10);
	int                n = __builtin_popcountll(y);
	if (atoi(bits.c_str()) != n)
		return num + " has " + std::to_string(n) + " bits and not " + bits;
	return "";
}

static std::string word(Ctx& c, unsigned lo, unsigned hi)
{
	std::string s;
	unsigned    n = c.rare(lo, hi, 2000, 150);
	for (unsigned i = 0; i < n; ++i)
		s += "abcdefgXYZ_0123456789+-."[c.below(24)];
	return s;
}

PROP(runId, 2)
{
	unsigned              n = c.range(1, 6);
	std::set<std::string> ids;
	DESC(n << " identifications, draw " << c.below(1000000));
	if (n >= 2)
		c.nontrivial();
	for (unsigned i = 0; i < n; ++i) {
		ApplicationInfo ai(word(c, 0, 10));
		std::string     id = ai.runId();
		std::string     e  = badId(id);
		CHECK(e.empty(), id << ": " << e);
		CHECK(ai.runId() == id, "the identification of a run changes");
		ApplicationInfo copy(ai);
		CHECK(copy.runId() == id, "a copy has another identification");
		CHECK(ai.pid() == unsigned(getpid()), "pid is " << ai.pid());
		CHECK(ids.insert(id).second, "identification " << id << " is given twice");
		// identifications are by the microsecond
		struct timeval a, b;
		gettimeofday(&a, nullptr);
		do
			gettimeofday(&b, nullptr);
		while (a.tv_sec == b.tv_sec && a.tv_usec == b.tv_usec);
	}
}

static bool field(const std::string& text, const std::string& label, std::string& v)
{
	std::istringstream in(text);
	std::string        l;
	bool               found = false;
	while (std::getline(in, l))
		if (l.compare(0, label.size(), label) == 0) {
			v     = l.substr(label.size());
			found = true;
		}
	return found;
}

// the text of date says the second s, or the next few
static bool dateOk(const std::string& line, time_t lo, time_t hi)
{
	for (time_t t = lo; t <= hi; ++t) {
		std::string s = asctime(localtime(&t));
		if (!s.empty() && s[s.size() - 1] == '\n')
			s.erase(s.size() - 1);
		if (s == line)
			return true;
	}
	return false;
}

PROP(record, 2)
{
	// programs are often named by their path
	auto withSlash = [&](std::string s) {
		for (auto& ch : s)
			if (c.chance(1, 8))
				ch = c.flip() ? '/' : ' ';
		return s;
	};
	std::string file = pbt::scratch() + "/o2.h5";
	std::string nm = withSlash(word(c, 0, 12)), root = "g" + word(c, 1, 5);
	for (auto& ch : root)
		if (ch == '.' || ch == '+' || ch == '-')
			ch = 'k';
	time_t          t0 = time(nullptr) - 1;
	ApplicationInfo ai(nm);
	DESC("name '" << nm << "' root " << root);
	c.nontrivial();
	bool finalize = c.flip();
	{
		IoNg::Out out(file, IoNg::ACC_TRUNC);
		ai.write(root, out.serializer());
		if (finalize) {
			ai.finalize();
			ai.write(root, out.serializer());
		}
	}
	time_t t1 = time(nullptr) + 1;
	CHECK(ai.unixTime(false) >= t0 && ai.unixTime(false) <= time(nullptr) + 1, "time");
	time_t us = ai.unixTime(true);
	CHECK(us >= 0 && us < 1000000, "microseconds " << us);
	{
		IoNg::In in(file);
		String   s("garbage");
		in.read(s, root + "/Name");
		CHECK(s == nm, "Name is " << s);
		in.read(s, root + "/RunId");
		CHECK(s == ai.runId(), "RunId is " << s << " and not " << ai.runId());
		time_t t = 0;
		in.read(t, root + "/UnixTimeStart");
		CHECK(t >= t0 && t <= t1, "UnixTimeStart is " << t);
		bool has = !pbt::throws([&]() { in.read(t, root + "/UnixTimeEnd"); });
		CHECK(has == finalize, "UnixTimeEnd " << (has ? "present" : "absent"));
		if (has)
			CHECK(t >= t0 && t <= t1, "UnixTimeEnd is " << t);
	}
	std::ostringstream os;
	os << ai;
	time_t      t2 = time(nullptr) + 1;
	std::string v, text = os.str();
	char        host[1025] = "";
	gethostname(host, 1024);
	bool dated = false;
	{
		std::istringstream in(text);
		std::string        l;
		while (std::getline(in, l))
			if (dateOk(l, t0, t2))
				dated = true;
	}
	CHECK(dated, "no date in\n" << text);
	CHECK(dateOk(ai.getTimeDate().substr(0, ai.getTimeDate().size() - 1), t0, t2), "date is " << ai.getTimeDate());
	CHECK(ai.hostname() == std::string(host), "hostname is " << ai.hostname());
	if (!finalize) {
		CHECK(field(text, "RunID=", v) && v == ai.runId(), text);
		CHECK(field(text, "Hostname: ", v) && v == host, text);
		CHECK(field(text, "UnixTimeStart=", v) && atol(v.c_str()) >= t0 && atol(v.c_str()) <= t2, text);
		CHECK(!field(text, "UnixTimeEnd=", v), text);
		CHECK(field(text, "SizeType=", v) && v == std::to_string(sizeof(SizeType)), text);
	} else {
		CHECK(field(text, "UnixTimeEnd=", v) && atol(v.c_str()) >= t0 && atol(v.c_str()) <= t2, text);
		CHECK(!field(text, "UnixTimeStart=", v), text);
		CHECK(text.compare(0, nm.size() + 1, nm + "\n") == 0, text);
		CHECK(text.find(nm + " using " + (sizeof(double) == 8 ? "double" : "float") + "\n") != std::string::npos, text);
	}
	unlink(file.c_str());
}

PROP(environment, 1)
{
	unsigned                           n = c.rare(1, 5, 60, 60);
	std::map<std::string, std::string> want;
	DESC(n << " settings ");
	if (n >= 2)
		c.nontrivial();
	std::ostringstream out;
	std::streambuf*    keep = std::cout.rdbuf(out.rdbuf());
	std::string        said, error;
	for (unsigned i = 0; i < n; ++i) {
		std::string nm = "PBT_" + std::to_string(c.below(4)), v = word(c, 0, 8);
		bool        bad = c.chance(1, 6);
		if (bad)
			nm = c.flip() ? std::string("") : nm + "=" + v;
		c.log << nm << "<-" << v << " ";
		bool t = pbt::throws([&]() { ApplicationInfo::setEnv(nm, v); });
		if (t != bad)
			error = "setting " + nm + (t ? " fails" : " works");
		if (!bad) {
			want[nm] = v;
			said += "Set " + nm + "=" + v + "\n";
		}
	}
	std::cout.rdbuf(keep);
	CHECK(error.empty(), error);
	CHECK(out.str() == said, "output " << out.str());
	for (auto& x : want) {
		const char* p = getenv(x.first.c_str());
		CHECK(p && x.second == p, x.first << " is " << (p ? p : "unset") << " and not " << x.second);
		unsetenv(x.first.c_str());
	}
}

// ---------------------------------------------------------------- memory
PROP(statusFile, 3)
{
	std::string file = pbt::scratch() + "/status";
	auto        make = [&](std::vector<std::pair<std::string, std::string>>& e) {
                unsigned    n = c.skew(0, 8);
                std::string text;
                e.clear();
                for (unsigned i = 0; i < n; ++i) {
                        std::string label = "L" + std::to_string(i) + ":";
                        std::string gap, v;
                        for (unsigned k = c.below(4); k > 0; --k)
                                gap += c.flip() ? ' ' : '\t';
                        if (c.chance(1, 60))
                                v.assign(c.range(40000, 90000), 'x');
                        else if (!c.chance(1, 6))
                                v = word(c, 1, 8) + (c.flip() ? " kB" : "") + (c.chance(1, 5) ? " " : "");
                        e.push_back({ label, v });
                        text += label + gap + v;
                        if (i + 1 < n || c.flip())
                                text += "\n";
                        if (c.chance(1, 6) && i + 1 < n)
                                text += "\n";
                }
                std::ofstream f(file);
                f << text;
                c.log << "[" << (text.size() > 300 ? text.substr(0, 300) + "..." : text) << "] ";
	};
	std::vector<std::pair<std::string, std::string>> entries;
	DESC("file ");
	make(entries);
	MemoryUsage mu(file);
	unsigned    rounds = c.range(1, 3);
	for (unsigned r = 0; r < rounds; ++r) {
		if (r > 0) {
			std::vector<std::pair<std::string, std::string>> fresh;
			make(fresh);
			if (c.flip()) { // before an update the entries are the old ones
				for (auto& x : entries)
					CHECK(mu.findEntry(x.first) == x.second, "entry changed without an update");
			}
			entries = fresh;
			mu.update();
		}
		if (entries.size() >= 2)
			c.nontrivial();
		for (auto& x : entries) {
			std::string got = mu.findEntry(x.first);
			CHECK(got == x.second, x.first << " is '" << got.substr(0, 100) << "' and not '" << x.second.substr(0, 100) << "'");
		}
		std::string none = "L" + std::to_string(entries.size()) + ":";
		CHECK(mu.findEntry(none) == "NOT_FOUND", none << " is found");
	}
	if (c.chance(1, 3)) { // a file that goes away leaves the entries
		unlink(file.c_str());
		mu.update();
		for (auto& x : entries)
			CHECK(mu.findEntry(x.first) == x.second, "entry lost");
	}
}

PROP(times, 1)
{
	typedef MemoryUsage::TimeHandle T;
	unsigned                        n = c.range(1, 6);
	T                               acc(0, 0);
	long long                       us = 0;
	DESC(n << " times ");
	if (n >= 2)
		c.nontrivial();
	for (unsigned i = 0; i < n; ++i) {
		long s1 = c.range(0, 100000), u1 = c.range(0, 999999), s2 = c.range(0, 100000), u2 = c.range(0, 999999);
		T    a(s1, u1), b(s2, u2);
		T    d = a - b;
		c.log << s1 << "." << u1 << "-" << s2 << "." << u2 << " ";
		long long ref = (s1 - s2) * 1000000LL + (u1 - u2);
		CHECK(std::fabs(d.millis() - ref * 1e-6) < 1e-9 * (1 + std::fabs(ref * 1e-6)), "difference is " << d.millis() << " and not " << ref * 1e-6);
		CHECK((long long)d.seconds() * 1000000LL + d.useconds() == ref, "difference");
		CHECK(a.seconds() == s1 && a.useconds() == u1 && b.seconds() == s2 && b.useconds() == u2, "operands");
		if (c.flip()) {
			acc += d;
			us += ref;
		} else {
			acc += a;
			us += s1 * 1000000LL + u1;
		}
		CHECK((long long)acc.seconds() * 1000000LL + acc.useconds() == us, "sum");
		CHECK(std::fabs(acc.millis() - us * 1e-6) < 1e-9 * (1 + std::fabs(us * 1e-6)), "sum is " << acc.millis());
	}
	MemoryUsage mu(pbt::scratch() + "/nofile");
	double      t1 = mu.time().millis(), t2 = mu.time().millis();
	CHECK(t1 > -0.01 && t2 >= t1 - 0.01 && t2 < 100, "elapsed " << t1 << " " << t2);
}

PROP(memoryLimit, 1)
{
	int  s1 = c.range(1 << 20, std::numeric_limits<int>::max() - 1), h = c.flip() ? 0 : c.range(1 << 20, std::numeric_limits<int>::max() - 1);
	int  s2 = c.range(1 << 20, s1);
	bool again = c.flip();
	rlim_t big = c.chance(1, 3) ? c.bits64() >> c.below(30) : 0;
	if (big < (rlim_t(1) << 31))
		big = 0;
	DESC(big << " " << s1 << " " << h << " then " << (again ? s2 : 0));
	c.nontrivial();
	pid_t pid = fork();
	CHECK(pid >= 0, "fork");
	if (pid == 0) {
		Limit         l;
		struct rlimit before, r;
		getrlimit(RLIMIT_AS, &before);
		Limit::PairRlimType p = l.memory();
		if (p.first != before.rlim_cur || p.second != before.rlim_max)
			_exit(11);
		rlim_t hard = h > s1 ? h : s1;
		if (big && big <= before.rlim_max) { // set by somebody else
			r.rlim_cur = big;
			r.rlim_max = before.rlim_max;
			if (setrlimit(RLIMIT_AS, &r) == 0) {
				p = l.memory();
				if (p.first != big || p.second != before.rlim_max)
					_exit(15);
			}
		}
		if (hard > before.rlim_max)
			_exit(0); // cannot be set here
		l.memory(s1, h);
		getrlimit(RLIMIT_AS, &r);
		if (r.rlim_cur != rlim_t(s1) || r.rlim_max != hard)
			_exit(12);
		p = l.memory();
		if (p.first != rlim_t(s1) || p.second != hard)
			_exit(13);
		if (again) {
			l.memory(s2);
			getrlimit(RLIMIT_AS, &r);
			if (r.rlim_cur != rlim_t(s2) || r.rlim_max != rlim_t(s2))
				_exit(14);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "child ended with " << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)));
}

PINNED(processorVendor)
{
	std::ifstream fin("/proc/cpuinfo");
	std::string   l, want;
	while (std::getline(fin, l))
		if (l.find("vendor_id") != std::string::npos) {
			if (l.find("Intel") != std::string::npos)
				want = "Intel";
			else if (l.find("AMD") != std::string::npos)
				want = "AMD";
			else {
				size_t p = l.find(':');
				want     = p == std::string::npos ? "" : l.substr(p + 1);
				p        = want.find_first_not_of(" \t");
				want     = p == std::string::npos ? "" : want.substr(p);
			}
			break;
		}
	MicroArchitecture m;
	CHECK(m.vendorId() == want, "vendor is " << m.vendorId() << " and not " << want);
}

PBT_MAIN
