// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PsiBase64.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-LIBS: hdf5
// PBT-QUICK: 40000
// PBT-THOROUGH: 1500000
// PBT-RULE: a case is a random lattice of any supported kind, up to a few hundred sites, whose slots are enumerated over all its bonds in both orders; or a lattice read from an input with the right number and shape of couplings or a wrong one, in memory, line-oriented or Ainur form;
// PBT-RULE: non-trivial = four or more sites with three or more bonds, or a wrong input
#include "pbt.h"
#include "geomref.h"
#include <memory>
#include <set>

typedef FakeInput<double> Fake;
typedef PsimagLite::GeometryBase<double, Fake> Base;

// every bond of these lattices has a slot
static const Kind slotted[] = { CHAIN, LONGCHAIN, LADDER, LADDERX, LADDERBATH, STAR };

static Base* make(const Lattice& g, Fake& io)
{
	switch (g.kind) {
	case CHAIN:
	case LONGCHAIN:
		return new PsimagLite::LongChain<double, Fake>(g.L, io);
	case LADDER:
		return new PsimagLite::Ladder<double, Fake>(g.L, io);
	case LADDERX:
		return new PsimagLite::LadderX<double, Fake>(g.L, io);
	case LADDERBATH:
		return new PsimagLite::LadderBath<double, Fake>(g.L, io);
	default:
		return new PsimagLite::Star<double, Fake>(g.L, io);
	}
}

PROP(slots, 5)
{
	Lattice g = aLattice(c, slotted[c.below(6)], c.chance(1, 10) ? 12 : 2);
	Term<double> t = aTerm<double>(c, g);
	DESC(t.describe());
	Deck<double> d;
	writeTerm(c, d, t, "", 3, false);
	Fake io(d, 3);
	std::unique_ptr<Base> b;
	{
		Quiet q;
		b.reset(make(g, io));
	}
	const Reference& r = t.ref;
	c.label(g.name().substr(0, g.name().find(' ')));
	if (g.L > 3 && r.bonds.size() > 2)
		c.nontrivial();
	CHECK(b->dirs() == r.dirs, "directions " << b->dirs());
	std::vector<std::set<size_t>> used(r.dirs);
	for (auto& kv : r.bonds) {
		size_t i = kv.first.first, j = kv.first.second;
		CHECK(b->connected(i, j) && b->connected(j, i), "bond " << i << "-" << j << " isn't connected");
		size_t dir = b->calcDir(i, j);
		CHECK(dir == b->calcDir(j, i) && dir < b->dirs(), "direction of " << i << "-" << j << " is " << dir << " and " << b->calcDir(j, i));
		size_t h = b->handle(i, j);
		CHECK(h == b->handle(j, i), "slot of " << i << "-" << j << " is " << h << " and " << b->handle(j, i));
		CHECK(h < b->getVectorSize(dir), "slot " << h << " of " << i << "-" << j << " isn't below " << b->getVectorSize(dir) << " in direction " << dir);
		CHECK(used[dir].insert(h).second, "slot " << h << " of " << i << "-" << j << " in direction " << dir << " is another bond's");
	}
	// other pairs aren't bonds
	for (int k = 0; k < 20; ++k) {
		size_t i = c.below(g.L), j = c.below(g.L);
		bool want = r.find(i, j) != 0;
		CHECK(b->connected(i, j) == want, i << " and " << j << " connected=" << !want);
	}
	for (size_t dir = 0; dir < r.dirs; ++dir)
		CHECK(b->getVectorSize(dir) == r.sizes[dir], "direction " << dir << " asks for " << b->getVectorSize(dir) << " values and not " << r.sizes[dir]);
}

enum Wrong { NOTHING,
	     FEWER,
	     MORE,
	     ONE_FOR_ALL, // per-bond couplings given as a constant
	     SHAPE,
	     NWRONG };

template <typename T> void inputs(Ctx& c, int how)
{
	Kind k = c.chance(1, 6) ? KTWO : slotted[c.below(6)];
	Lattice g = aLattice(c, k);
	Term<T> t = aTerm<T>(c, g);
	for (auto& v : t.values)
		if (v.empty())
			how = 0;
	Wrong w = (Wrong)c.weighted({ 4, 3, 3, 1, 2 });
	size_t dir = c.below(t.values.size());
	auto& v = t.values[dir];
	bool wrong = true;
	const size_t n0 = v.size();
	switch (w) {
	case FEWER:
		if (v.size() < 2 && how != 0)
			return;
		if (v.empty())
			return;
		v.resize(v.size() - 1 - c.skew(0, v.size() - 1 - (how != 0)));
		break;
	case MORE:
		// a matrix too many isn't read
		wrong = (t.orbs == 1);
		for (size_t n = 1 + c.skew(0, 3); n > 0; --n) {
			PsimagLite::Matrix<T> m(t.orbs, t.orbs);
			setValue(m(0, 0), n);
			v.push_back(m);
		}
		break;
	case ONE_FOR_ALL:
		if (t.constant || v.size() < 2)
			return;
		v.resize(1);
		break;
	case SHAPE:
		if (t.orbs == 1)
			return;
		{
			size_t at = c.below(v.size());
			size_t r = t.orbs, q = t.orbs;
			(c.flip() ? r : q) += c.flip() ? 1 : -1;
			v[at] = PsimagLite::Matrix<T>(r, q);
		}
		break;
	default:
		wrong = false;
		break;
	}
	int version = (how == 0) ? c.range(2, 3) : (how == 1) ? 2 : 3;
	// repeated labels: matrices of one direction run into those of the next
	if (w != NOTHING && w != SHAPE && t.orbs > 1 && version == 2)
		return;
	// without numbers, and so the label of a single matrix
	if ((w == FEWER || w == MORE) && t.orbs > 1 && (v.size() == 1 || n0 == 1 || t.constant))
		return;
	if (w == ONE_FOR_ALL && t.orbs > 1)
		return;
	std::vector<Term<T>> terms(1, t);
	Deck<T> d = makeDeck(c, terms, version, false);
	std::string s = (how == 0) ? std::string("") : (how == 1) ? d.plain() : d.ainur(GeomCheck(false).import());
	DESC((wrong ? "wrong " : "right ") << t.describe() << " direction " << dir << " has " << v.size() << " values\n" << s);
	if (wrong || (g.L > 3 && t.ref.bonds.size() > 2))
		c.nontrivial();
	static const char* names[] = { "right", "fewer", "more", "one for all", "shape" };
	c.label(names[w]);
	bool bad = false;
	{
		Quiet q;
		if (how == 0) {
			Fake* unused = 0;
			(void)unused;
			FakeInput<T> io(d, version);
			bad = pbt::throws([&] { PsimagLite::Geometry<T, FakeInput<T>, Globals> x(io); });
		} else {
			GeomInputNg::Writeable wr(GeomCheck(t.orbs > 1), s);
			GeomInputNg::Readable io(wr);
			bad = pbt::throws([&] { PsimagLite::Geometry<T, GeomInputNg::Readable, Globals> x(io); });
		}
	}
	CHECK(bad == wrong, (bad ? "refused" : "accepted"));
}

PROP(memoryReal, 2) { inputs<double>(c, 0); }
PROP(memoryComplex, 1) { inputs<Cplx>(c, 0); }
PROP(plainReal, 1) { inputs<double>(c, 1); }
PROP(ainurComplex, 1) { inputs<Cplx>(c, 2); }

static void addImaginary(double& x, double y) { x += y; }
static void addImaginary(Cplx& x, double y) { x += Cplx(0, y); }

template <typename T> void longRange(Ctx& c)
{
	Lattice g = aLattice(c, LONGRANGE);
	Term<T> t = aTerm<T>(c, g, true);
	Deck<T> d;
	std::vector<Term<T>> terms(1, t);
	int how = c.below(3);
	d = makeDeck(c, terms, how == 1 ? 2 : 3, false);
	Entry<T>& e = d.e.back();
	bool wrong = true;
	switch (c.below(6)) {
	case 0:
		wrong = false;
		break;
	case 1:
	case 2: {
		// a row or a column too many or too few
		bool row = c.flip();
		size_t r = e.mat.rows(), q = e.mat.cols();
		(row ? r : q) += c.flip() ? 1 : -1;
		if (r == 0 || q == 0)
			return;
		wrong = (t.options != "compact" || !row);
		if (!wrong && r > e.mat.rows())
			return; // one more entry
		PsimagLite::Matrix<T> m(r, q);
		for (size_t i = 0; i < std::min(r, e.mat.rows()); ++i)
			for (size_t j = 0; j < std::min(q, e.mat.cols()); ++j)
				m(i, j) = e.mat(i, j);
		e.mat = m;
		break;
	}
	case 3:
	case 4: {
		if (t.options != "compact")
			return;
		size_t k = c.below(e.mat.rows());
		size_t q = c.below(e.mat.cols() - 1);
		switch (c.below(6)) {
		case 0:
			e.mat(k, q) = ((t.orbs > 1 && (q & 1)) ? t.orbs : g.L) + c.below(3);
			break;
		case 1:
			e.mat(k, q) = -1. - c.below(2);
			break;
		case 2:
			e.mat(k, q) = -0.125 * c.range(1, 7);
			break;
		case 3:
			addImaginary(e.mat(k, q), c.flip() ? 0.5 : -1);
			if (e.mat(k, q) == std::conj(e.mat(k, q))) // real couplings
				e.mat(k, q) = 0.5;
			break;
		case 4:
			e.mat(k, q) = c.pickOf<double>({ 1e300, -1e300, 1e19, 18446744073709551616., 4294967296. });
			break;
		default:
			e.mat(k, q) += 0.5;
			break;
		}
		break;
	}
	default:
		for (auto& x : d.e)
			if (x.label == "GeometryOptions")
				x.word = c.pickOf<const char*>({ "Compact", "constantValues", "compact2", "ConstantValues,compact" });
		break;
	}
	std::string s = (how == 0) ? std::string("") : (how == 1) ? d.plain() : d.ainur(GeomCheck(false).import());
	DESC((wrong ? "wrong " : "right ") << t.describe() << " connectors " << e.mat.rows() << "x" << e.mat.cols() << "\n" << s);
	if (wrong || t.raw.rows() > 3)
		c.nontrivial();
	c.label(wrong ? "wrong" : "right");
	bool bad = false;
	{
		Quiet q;
		if (how == 0) {
			FakeInput<T> io(d, 3);
			bad = pbt::throws([&] { PsimagLite::Geometry<T, FakeInput<T>, Globals> x(io); });
		} else {
			GeomInputNg::Writeable wr(GeomCheck(true), s);
			GeomInputNg::Readable io(wr);
			bad = pbt::throws([&] { PsimagLite::Geometry<T, GeomInputNg::Readable, Globals> x(io); });
		}
	}
	CHECK(bad == wrong, (bad ? "refused" : "accepted"));
}
PROP(longRangeReal, 2) { longRange<double>(c); }
PROP(longRangeComplex, 1) { longRange<Cplx>(c); }

PROP(sizes, 1)
{
	// numbers of sites that don't suit the lattice
	Kind k = c.pickOf<Kind>({ LADDER, LADDERX, LADDERBATH, LONGCHAIN });
	Lattice g = aLattice(c, k);
	bool zero = false, silent = false;
	if ((k == LADDER || k == LADDERBATH) && g.leg > 2 && c.chance(1, 3))
		silent = true; // whether its legs close must be said
	else if (k == LONGCHAIN)
		g.d = g.L + c.skew(0, 5);
	else if (k == LADDERBATH)
		g.L += c.range(1, (1 + g.bps) * g.leg - 1);
	else if (c.chance(1, 6)) {
		g.leg = 0;
		zero = true;
	} else
		g.L += c.range(1, g.leg - 1);
	DESC(g.name());
	c.nontrivial();
	Deck<double> d;
	if (k == LADDERBATH)
		d.number("BathSitesPerSite", g.bps);
	if (k == LONGCHAIN)
		d.number("LongChainDistance", g.d);
	else {
		d.number("LadderLeg", g.leg);
		if (g.leg > 2 && !silent)
			d.number("IsPeriodicY", g.py);
	}
	c.labelIf(silent, "silent");
	d.number("IsPeriodicX", g.px);
	Fake io(d, 3);
	Quiet q;
	CHECK(pbt::throws([&] { std::unique_ptr<Base> b(make(g, io)); }), "accepted" << zero);
}

PBT_MAIN
