// PBT-SOURCES: Matrix.cpp PsimagLite.cpp TridiagonalMatrix.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 100000
// PBT-THOROUGH: 3000000
// PBT-RULE: a case builds one to four continued fractions (order 1..8), evaluates them at generated complex frequencies, plots them on generated real or Matsubara grids and writes and re-reads them;
// PBT-RULE: the oracle solves the shifted tridiagonal linear system by complex elimination; non-trivial = some fraction of order at least two with nonzero weight
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
#include "Io/IoSimple.h"
#include "TridiagonalMatrix.h"
#include "refmat.h"
#include <fstream>
using namespace PsimagLite;
typedef TridiagonalMatrix<double>         Tri;
typedef ContinuedFraction<Tri>            Cf;
typedef ContinuedFractionCollection<Cf>   Coll;
typedef std::complex<double>              Cd;
typedef ParametersForSolver<double>       Par;

struct Spec {
	std::vector<double> a, b;
	double              eg = 0, weight = 0;
	int                 isign = 1;
	bool                matsubara = false;
};

static Spec genSpec(pbt::Ctx& c)
{
	Spec   s;
	size_t n = c.range(1, 8);
	for (size_t i = 0; i < n; ++i) {
		s.a.push_back(c.chance(1, 4) ? c.unit() * 3 : c.sint(12) / 4.0);
		s.b.push_back(i == 0 ? c.sint(2) : (c.chance(1, 8) ? 0.0 : c.sint(12) / 4.0));
	}
	s.eg     = c.sint(16) / 4.0;
	s.weight = c.chance(1, 10) ? 0 : (c.flip() ? 1.0 : c.sint(12) / 8.0);
	s.isign  = c.flip() ? 1 : -1;
	return s;
}

static Tri tri(const Spec& s)
{
	Tri t;
	for (size_t i = 0; i < s.a.size(); ++i)
		t.push(s.a[i], s.b[i]);
	return t;
}

// weight * first diagonal element of (z - isign*offset + isign*T)^-1, by elimination from the last row upwards
static Cd resolvent(const Spec& s, Cd z, double offset, int isign)
{
	Cd     x = z - double(isign) * offset, d = 0;
	size_t n = s.a.size();
	for (size_t i = n; i-- > 0;) {
		Cd v = x + double(isign) * s.a[i];
		if (i + 1 < n)
			v -= s.b[i + 1] * s.b[i + 1] / d;
		d = v;
	}
	return s.weight / d;
}

static void near(const Cd& x, const Cd& y, double tol, const char* what, Cd z)
{
	CHECK(std::abs(x - y) <= tol * (1 + std::abs(y)), what << " at z=" << z << ": " << x << " instead of " << y);
}

static Cf make(pbt::Ctx& c, const Spec& s)
{
	if (!s.matsubara && c.flip()) {
		Par p;
		p.Eg     = s.eg;
		p.weight = s.weight;
		p.isign  = s.isign;
		return Cf(tri(s), p);
	}
	Cf cf(s.matsubara ? FREQ_MATSUBARA : FREQ_REAL);
	if (c.flip()) { // set a second time: nothing of the first may remain
		Spec first = genSpec(c);
		cf.set(tri(first), first.eg, first.weight, first.isign);
	}
	cf.set(tri(s), s.eg, s.weight, s.isign);
	return cf;
}

static Cd genZ(pbt::Ctx& c)
{
	double im = c.range(1, 20) / 10.0 * (c.flip() ? 1 : -1);
	return Cd(c.sint(60) / 10.0, im);
}

PROP(evaluate, 3)
{
	Spec s = genSpec(c);
	DESC("order " << s.a.size() << " weight " << s.weight << " Eg " << s.eg << " isign " << s.isign);
	if (s.a.size() >= 2 && s.weight != 0)
		c.nontrivial();
	Cf cf = make(c, s);
	CHECK(cf.size() == s.a.size(), "size " << cf.size());
	CHECK(cf.freqType() == FREQ_REAL, "frequency type");
	for (int i = 0; i < 3; ++i) {
		Cd     z      = genZ(c);
		double offset = c.flip() ? s.eg : c.sint(16) / 4.0;
		int    isign  = c.flip() ? 1 : -1;
		near(cf.iOfOmega(z, offset, isign), resolvent(s, z, offset, isign), 1e-10, "fraction", z);
	}
	Cf     none;
	CHECK(none.iOfOmega(Cd(0.5, 0.1), 1.0, 1) == Cd(0, 0), "an unset fraction is not zero");
	Cf copy(cf);
	Cd z = genZ(c);
	near(copy.iOfOmega(z, s.eg, 1), resolvent(s, z, s.eg, 1), 1e-10, "copy", z);
}

struct Grid {
	double w1, w2, dw, delta, beta;
	size_t n, nm;
};

static Grid genGrid(pbt::Ctx& c)
{
	Grid g;
	g.n     = c.below(9);
	g.dw    = c.pickOf({ 0.25, 0.5, 1.0, 0.125 });
	g.w1    = c.sint(24) / 8.0;
	g.w2    = g.w1 + g.n * g.dw; // exact
	g.delta = c.range(1, 16) / 16.0;
	g.beta  = c.range(1, 40) / 4.0;
	g.nm    = c.flip() ? 0 : c.range(1, 7);
	return g;
}

template <typename D> static void checkPlot(const D& v, const Grid& g, const std::vector<Spec>& ss, bool mats, const char* what)
{
	size_t n = mats ? g.nm : g.n;
	CHECK(v.size() == n, what << ": " << v.size() << " points instead of " << n);
	for (size_t i = 0; i < n; ++i) {
		double w = mats ? (2.0 * i + 1) * M_PI / g.beta : g.w1 + i * g.dw;
		CHECK(std::fabs(v[i].first - w) <= 1e-12 * (1 + std::fabs(w)), what << ": point " << i << " at " << v[i].first << " instead of " << w);
		Cd z = mats ? Cd(g.delta, w) : Cd(w, g.delta), want = 0;
		for (auto& s : ss)
			want += resolvent(s, z, s.eg, s.isign);
		near(v[i].second, want, 1e-9, what, z);
	}
}

PROP(plot_and_store, 4)
{
	size_t            many = c.range(1, 4);
	bool              mats = c.flip();
	std::vector<Spec> ss;
	bool              deep = false;
	for (size_t i = 0; i < many; ++i) {
		ss.push_back(genSpec(c));
		ss.back().matsubara = mats;
		deep |= ss.back().a.size() >= 2 && ss.back().weight != 0;
	}
	Grid g = genGrid(c);
	DESC(many << " fractions, " << (mats ? "Matsubara" : "real") << " grid n=" << g.n << " w1=" << g.w1 << " dw=" << g.dw << " nm=" << g.nm << " beta=" << g.beta << " first order " << ss[0].a.size());
	if (deep)
		c.nontrivial();
	bool                     asMats = mats || g.nm > 0;
	PlotParams<double>       pp(g.w1, g.w2, g.dw, g.delta, g.beta, g.nm);
	Coll                     coll(mats ? FREQ_MATSUBARA : FREQ_REAL);
	std::vector<Cf>          cfs;
	for (auto& s : ss) {
		cfs.push_back(make(c, s));
		coll.push(cfs.back());
	}
	CHECK(coll.size() == many, "collection size " << coll.size());
	CHECK(coll.freqType() == (mats ? FREQ_MATSUBARA : FREQ_REAL), "collection frequency type");
	Cf::PlotDataType v;
	size_t           k = c.below(many);
	cfs[k].plot(v, pp);
	checkPlot(v, g, { ss[k] }, asMats, "plot");
	v.clear();
	coll.plotOne(k, v, pp);
	checkPlot(v, g, { ss[k] }, asMats, "plot of one");
	v.clear();
	coll.plot(v, pp);
	if ((asMats ? g.nm : g.n) > 0)
		checkPlot(v, g, ss, asMats, "plot of all");
	// explicit choice of the kind of frequency
	v.clear();
	cfs[k].plotReal(v, pp);
	checkPlot(v, g, { ss[k] }, false, "plotReal");
	v.clear();
	cfs[k].plotMatsubara(v, pp);
	checkPlot(v, g, { ss[k] }, true, "plotMatsubara");
	// text
	std::string fn = pbt::scratch() + "/cf.txt";
	{
		IoSimple::Out io(fn);
		if (c.flip())
			io.printline("Header=1");
		coll.write(io);
	}
	IoSimple::In io(fn);
	Coll         back(io);
	CHECK(back.size() == many, "read back " << back.size() << " fractions of " << many);
	CHECK(back.freqType() == coll.freqType(), "frequency type read back");
	if ((asMats ? g.nm : g.n) > 0) {
		v.clear();
		back.plot(v, pp);
		checkPlot(v, g, ss, asMats, "plot after reading back");
		v.clear();
		back.plotOne(k, v, pp);
		checkPlot(v, g, { ss[k] }, asMats, "plot of one after reading back");
	}
	std::string fn1 = pbt::scratch() + "/one.txt";
	{
		IoSimple::Out o(fn1);
		cfs[k].write(o, "");
	}
	IoSimple::In i1(fn1);
	Cf           one(i1);
	Cd           z = genZ(c);
	CHECK(one.size() == ss[k].a.size(), "size read back");
	near(one.iOfOmega(z, ss[k].eg, ss[k].isign), resolvent(ss[k], z, ss[k].eg, ss[k].isign), 1e-9, "fraction read back", z);
}

// the text of a fraction with the lines changed that earlier versions or other programs write differently
PROP(edited_text, 1)
{
	Spec s      = genSpec(c);
	s.matsubara = false;
	if (s.weight == 0)
		s.weight = 0.5;
	Cd   w    = c.flip() ? Cd(0, c.range(1, 8) / 4.0) : Cd(c.sint(8) / 4.0, c.sint(8) / 4.0);
	bool kind = c.flip(); // without the kind of frequencies, which are then real
	bool imag = c.flip();
	if (!imag)
		w = s.weight;
	std::string fn = pbt::scratch() + "/w.txt", line, text;
	{
		IoSimple::Out o(fn);
		make(c, s).write(o, "");
	}
	std::ifstream in(fn);
	while (std::getline(in, line)) {
		if (kind && line.find("#FreqEnum") != std::string::npos)
			continue;
		if (imag && line.compare(0, 10, "#CFWeight=") == 0) {
			std::ostringstream o;
			o << "#CFWeight=" << w;
			line = o.str();
		}
		text += line + "\n";
	}
	in.close();
	std::ofstream(fn) << text;
	DESC("order " << s.a.size() << " weight " << w << (kind ? " kind omitted" : ""));
	if (s.a.size() >= 2)
		c.nontrivial();
	IoSimple::In io(fn);
	Cf           cf(io);
	CHECK(cf.freqType() == FREQ_REAL && cf.size() == s.a.size(), "kind or size");
	Cd           z = genZ(c);
	near(cf.iOfOmega(z, s.eg, s.isign), resolvent(s, z, s.eg, s.isign) / s.weight * w, 1e-9, "fraction read", z);
}

PROP(length_mismatch, 1)
{
	c.nontrivial();
	Spec   s = genSpec(c);
	Coll   coll(FREQ_REAL);
	size_t many = c.range(1, 3);
	for (size_t i = 0; i < many; ++i)
		coll.push(make(c, s));
	Grid g = genGrid(c);
	g.n    = c.range(1, 6);
	PlotParams<double> p1(g.w1, g.w1 + g.n * g.dw, g.dw, g.delta, g.beta, 0), p2(g.w1, g.w1 + (g.n + 1) * g.dw, g.dw, g.delta, g.beta, 0),
	    p3(g.w1 + 8 * g.dw, g.w1 + (8 + g.n) * g.dw, g.dw, g.delta, g.beta, 0);
	DESC("accumulating plots of " << g.n << " points");
	Cf::PlotDataType v;
	coll.plot(v, p1);
	// plotting into a non-empty result accumulates on the same grid and refuses any other
	Cf::PlotDataType w = v;
	coll.plot(w, p1);
	for (size_t i = 0; i < v.size(); ++i)
		CHECK(std::abs(w[i].second - 2.0 * v[i].second) <= 1e-12 * (1 + std::abs(v[i].second)), "accumulation at point " << i);
	CHECK(pbt::throws([&] { Cf::PlotDataType x = v; coll.plot(x, p2); }), "plots of different length were added");
	CHECK(pbt::throws([&] { Cf::PlotDataType x = v; coll.plot(x, p3); }), "plots on different grids were added");
}

PBT_MAIN
