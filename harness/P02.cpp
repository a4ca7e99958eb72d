// PBT-QUICK: 6000
// PBT-THOROUGH: 90000
// PBT-RULE: a case is a generated table of peaks broadened by lorentzian.pl, or a sampled sum of separated Lorentzians given to naiztnerol.pl, or a malformed table; non-trivial = at least two peaks
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

typedef pbt::Ctx Ctx;

static std::string repo()
{
	const char* r = getenv("VERIF_REPO");
	return r && *r ? r : "/repo";
}

static std::string slurp(const std::string& f)
{
	std::ifstream     i(f, std::ios::binary);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}

// runs a script of the repository; its exit code, and what it says
static int script(const std::string& name, const std::vector<std::string>& args, std::string& out)
{
	std::string path = repo() + "/scripts/" + name, o = pbt::scratch() + "/out";
	unlink(o.c_str());
	std::vector<char*> av { const_cast<char*>("perl"), const_cast<char*>(path.c_str()) };
	for (auto& a : args)
		av.push_back(const_cast<char*>(a.c_str()));
	av.push_back(nullptr);
	pid_t pid = vfork();
	if (pid == 0) {
		int fd = open(o.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open("/dev/null", O_WRONLY);
		dup2(fd, 1);
		dup2(e, 2);
		struct rlimit l;
		l.rlim_cur = l.rlim_max = 8;
		setrlimit(RLIMIT_CPU, &l);
		execvp("perl", av.data());
		_exit(127);
	}
	CHECK(pid > 0, "fork");
	int st = 0;
	waitpid(pid, &st, 0);
	out = slurp(o);
	if (!WIFEXITED(st))
		FAIL(name << " ended by signal " << WTERMSIG(st));
	CHECK(WEXITSTATUS(st) != 127, "perl does not start");
	return WEXITSTATUS(st);
}

static std::string num(double x)
{
	char b[64];
	snprintf(b, sizeof(b), "%.17g", x);
	return b;
}

static std::vector<std::vector<double>> table(const std::string& s)
{
	std::vector<std::vector<double>> t;
	std::istringstream               in(s);
	std::string                      l;
	while (std::getline(in, l)) {
		if (!l.empty() && l[0] == '#')
			continue;
		std::istringstream  r(l);
		std::vector<double> v;
		std::string         w;
		while (r >> w)
			v.push_back(atof(w.c_str()));
		t.push_back(v);
	}
	return t;
}

static double dy(Ctx& c, int lim) { return c.range(-lim, lim) / 8.0; }

PROP(broaden, 3)
{
	unsigned            n = c.skewRare(0, 6, 60, 30), total = c.rare(1, 30, 1500, 30);
	std::vector<double> w, a;
	std::string         file = pbt::scratch() + "/peaks", text;
	bool                negative = c.chance(1, 4);
	for (unsigned i = 0; i < n; ++i) {
		if (c.chance(1, 5))
			text += "#" + std::string(c.flip() ? " remark here" : "1 2") + "\n";
		w.push_back(dy(c, 80));
		a.push_back((negative && c.flip() ? -1 : 1) * int(c.range(1, 40)) / 8.0);
		text += (c.chance(1, 4) ? " " : "") + num(w.back()) + (c.flip() ? " " : "\t ") + num(a.back()) + (c.chance(1, 4) ? " " : "") + "\n";
	}
	{
		std::ofstream f(file);
		f << text;
	}
	double begin = dy(c, 80), step = c.range(1, 16) / 8.0, delta = c.range(1, 16) / 16.0;
	bool   norm = n > 0 && c.flip();
	double nv   = c.chance(1, 8) ? 0 : c.range(1, 40) / 4.0;
	if (negative && norm) {
		double s = 0, t = 0;
		for (unsigned i = 0; i < total; ++i)
			for (unsigned k = 0; k < n; ++k) {
				double x = begin + i * step, f = a[k] / ((x - w[k]) * (x - w[k]) + delta * delta);
				s += f;
				t += std::fabs(f);
			}
		norm = std::fabs(s) > 1e-2 * t; // else the factor is not defined to good precision
	}
	std::vector<std::string> args { file, num(begin), std::to_string(total), num(step), num(delta) };
	if (norm)
		args.push_back(num(nv));
	DESC(n << " peaks, begin " << begin << " total " << total << " step " << step << " delta " << delta << (norm ? " norm " : " ") << (norm ? nv : 0) << "\n"
	       << text);
	if (n >= 2)
		c.nontrivial();
	std::string out;
	CHECK(script("lorentzian.pl", args, out) == 0, "refused");
	auto t = table(out);
	CHECK(out.size() && out[0] == '#', "no heading: " << out);
	CHECK(t.size() == total, t.size() << " lines and not " << total);
	std::vector<double> ref(total), mag(total);
	double              sum = 0;
	for (unsigned i = 0; i < total; ++i) {
		double x = begin + i * step;
		for (unsigned k = 0; k < n; ++k)
		{
			ref[i] += a[k] / ((x - w[k]) * (x - w[k]) + delta * delta);
			mag[i] += std::fabs(a[k] / ((x - w[k]) * (x - w[k]) + delta * delta));
		}
		sum += ref[i];
	}
	for (unsigned i = 0; i < total; ++i) {
		CHECK(t[i].size() == 2, "line " << i);
		CHECK(std::fabs(t[i][0] - (begin + i * step)) < 1e-10, "frequency " << i << " is " << t[i][0]);
		double r = norm ? ref[i] * nv / sum : ref[i];
		CHECK(std::fabs(t[i][1] - r) <= 1e-11 * (1 + mag[i] * (norm ? std::fabs(nv / sum) : 1)), "value " << i << " is " << t[i][1] << " and not " << r);
	}
}

PROP(recover, 3)
{
	// peaks on the grid, far apart compared to their widths: the script gives their places, weights and widths back
	unsigned                 n = c.skew(1, 4);
	double                   step = c.pickOf<double>({ 1. / 16, 1. / 32, 1. / 8 });
	double                   dmax = 0, begin = dy(c, 40);
	std::vector<double>      w, a, d;
	std::vector<unsigned>    at;
	unsigned                 pos = 0;
	for (unsigned i = 0; i < n; ++i) {
		unsigned wide = c.range(1, 6); // width in steps
		d.push_back(wide * step * (c.flip() ? 1 : c.range(4, 8) / 8.0));
		dmax = std::max(dmax, d.back());
		a.push_back(c.range(8, 32) / 8.0 * d.back() * d.back()); // heights are comparable
		at.push_back(i == 0 ? c.range(400, 600) : at.back() + c.range(500, 700));
		w.push_back(begin + at.back() * step);
		pos = at.back();
	}
	unsigned    total  = pos + c.range(300, 500);
	double      factor = c.pickOf<double>({ 0.75, 0.5, 0.6, 0.9, -1 });
	std::string file   = pbt::scratch() + "/table";
	bool        chain  = c.chance(1, 3) && n == 1;
	DESC(n << " peaks, step " << step << " factor " << factor << (chain ? " through lorentzian.pl" : "") << ": ");
	for (unsigned i = 0; i < n; ++i)
		c.log << w[i] << "," << a[i] << "," << d[i] << " ";
	if (n >= 2 || chain)
		c.nontrivial();
	if (chain) {
		std::string peaks = pbt::scratch() + "/peaks";
		{
			std::ofstream f(peaks);
			f << num(w[0]) << " " << num(a[0]) << "\n";
		}
		std::string out;
		CHECK(script("lorentzian.pl", { peaks, num(begin), std::to_string(total), num(step), num(d[0]) }, out) == 0, "refused");
		std::ofstream f(file);
		f << out;
	} else {
		std::ofstream f(file);
		f << "# table\n";
		for (unsigned i = 0; i < total; ++i) {
			double x = begin + i * step, v = 0;
			for (unsigned k = 0; k < n; ++k)
				v += a[k] / ((x - w[k]) * (x - w[k]) + d[k] * d[k]);
			f << num(x) << " " << num(v) << "\n";
		}
	}
	std::vector<std::string> args { file };
	if (factor > 0)
		args.push_back(num(factor));
	std::string out;
	CHECK(script("naiztnerol.pl", args, out) == 0, "refused");
	auto t = table(out);
	CHECK(t.size() == n, t.size() << " peaks and not " << n << "\n"
	                              << out);
	for (unsigned i = 0; i < n; ++i) {
		CHECK(t[i].size() == 3, "line " << i);
		CHECK(std::fabs(t[i][0] - w[i]) < 1e-9, "place of peak " << i << " is " << t[i][0]);
		double tol = n == 1 ? 1e-6 : 0.08; // the tails of the others
		CHECK(std::fabs(t[i][1] - a[i]) <= tol * a[i], "weight of peak " << i << " is " << t[i][1] << " and not " << a[i]);
		CHECK(std::fabs(t[i][2] - d[i]) <= tol * d[i], "width of peak " << i << " is " << t[i][2] << " and not " << d[i]);
	}
}

PROP(malformed, 1)
{
	std::string file = pbt::scratch() + "/bad", text, out;
	bool        missing = c.chance(1, 4);
	unsigned    lines = c.range(1, 4), bad = c.below(lines), count = c.pickOf<unsigned>({ 1, 3, 4, 0 });
	for (unsigned i = 0; i < lines; ++i) {
		unsigned k = i == bad ? count : 2;
		for (unsigned j = 0; j < k; ++j)
			text += num(c.range(1, 9)) + " ";
		text += "\n";
	}
	unlink(file.c_str());
	if (!missing) {
		std::ofstream f(file);
		f << text;
	}
	bool first = c.flip();
	DESC((first ? "lorentzian " : "naiztnerol ") << (missing ? "missing file" : text));
	c.nontrivial();
	int rc = first ? script("lorentzian.pl", { file, "0", "5", "1", "0.5" }, out) : script("naiztnerol.pl", { file }, out);
	CHECK(rc != 0, "accepted: " << out);
	for (auto& l : table(out))
		CHECK(l.empty(), "output in spite of the fault: " << out);
}

PBT_MAIN
