// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PsiBase64.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-LIBS: hdf5
// PBT-QUICK: 150000
// PBT-THOROUGH: 4000000
// PBT-RULE: a case is a lattice of up to a few hundred sites split into blocks of a random size, growing or with all blocks in the system; or a lattice and a cut into system and environment, complete or with sites still to be added, whose boundary sites, their substitutes and the couplings between the two parts are compared with those of the bonds constructed by coordinates; or translations and reflections of every site;
// PBT-RULE: non-trivial = blocks of two or more sites or an odd number of sites (splitting), a cut inside a lattice with four or more sites (boundaries), four or more sites (translations)
#include "pbt.h"
#include "geomref.h"
#include <memory>
#include <set>

typedef FakeInput<double> Fake;
typedef PsimagLite::GeometryBase<double, Fake> Base;
typedef PsimagLite::Geometry<double, Fake, Globals> GeometryType;
typedef std::vector<SizeType> VectorSizeType;

static std::string show(const VectorSizeType& v)
{
	std::string s = "[";
	for (auto x : v)
		s += " " + std::to_string(x);
	return s + " ]";
}

PROP(splitting, 4)
{
	size_t b = 1 + c.skew(0, 5);
	size_t L = b * (1 + c.skew(0, c.chance(1, 20) ? 100 : 16)) + (c.chance(1, 8) ? c.below(b) : 0);
	bool all = c.chance(1, 3);
	DESC("sites=" << L << " block=" << b << " all in system=" << all);
	Lattice g = aLattice(c, LONGRANGE);
	g.L = L;
	Deck<double> d;
	d.number("TotalNumberOfSites", L);
	d.number("NumberOfTerms", 1);
	d.word("GeometryKind", c.flip() ? "star" : "chain");
	d.word("GeometryOptions", "ConstantValues");
	d.vec("Connectors", std::vector<double>(1, 1.0), "", "dir0:");
	if (L < 2)
		return;
	Fake io(d, 3);
	GeometryType geo(io);
	VectorSizeType S, E;
	std::vector<VectorSizeType> X, Y;
	Quiet q;
	bool bad = pbt::throws([&] { geo.split(b, S, X, Y, E, all); });
	bool wantBad = b > 1 && (L % b != 0 || L / b < 3);
	CHECK(bad == wantBad, (bad ? "refused" : "accepted"));
	if (bad)
		return;
	if (b > 1 || (L & 1))
		c.nontrivial();
	c.labelIf((L / b) & 1, "odd number of blocks");
	std::string text = "S=" + show(S) + " X=";
	for (auto& v : X)
		text += show(v);
	text += " Y=";
	for (auto& v : Y)
		text += show(v);
	text += " E=" + show(E);
	std::vector<int> seen(L, 0);
	auto block = [&](VectorSizeType v, size_t first, const char* what) {
		if (!all)
			CHECK(std::is_sorted(v.begin(), v.end()), "the sites of " << what << " aren't in order: " << text);
		std::sort(v.begin(), v.end());
		CHECK(v.size() == b, what << " has " << v.size() << " sites: " << text);
		for (size_t k = 0; k < v.size(); ++k) {
			CHECK(v[k] < L && seen[v[k]]++ == 0, "site " << v[k] << " of " << what << " is assigned twice or isn't in the lattice: " << text);
			CHECK(v[k] == first + k, what << " isn't the block of sites from " << first << ": " << text);
		}
	};
	block(S, 0, "S");
	// X grows S, Y grows E
	for (size_t k = 0; k < X.size(); ++k)
		block(X[k], b * (k + 1), "a block of X");
	for (size_t k = 0; k < Y.size(); ++k)
		block(Y[k], L - b * (k + 2), "a block of Y");
	block(E, L - b, "E");
	for (size_t i = 0; i < L; ++i)
		CHECK(seen[i] == 1, "site " << i << " is in no part: " << text);
	if (all)
		CHECK(Y.empty(), "blocks in Y: " << text);
	else
		CHECK(X.size() == Y.size() || X.size() == Y.size() + 1, "X and Y don't balance: " << text);
}

static Base* make(const Lattice& g, Fake& io)
{
	switch (g.kind) {
	case CHAIN:
	case LONGCHAIN:
		return new PsimagLite::LongChain<double, Fake>(g.L, io);
	case LADDER:
		return new PsimagLite::Ladder<double, Fake>(g.L, io);
	case LADDERX:
		return new PsimagLite::LadderX<double, Fake>(g.L, io);
	case LADDERBATH:
		return new PsimagLite::LadderBath<double, Fake>(g.L, io);
	default:
		return new PsimagLite::LongRange<double, Fake>(g.L, "none", io);
	}
}

PROP(completeBoundary, 3)
{
	// the lattice is cut in two
	Lattice g = aLattice(c, c.pickOf<Kind>({ CHAIN, LONGCHAIN, LADDER, LADDERX, LADDERBATH }), 2);
	g.px = false;
	Term<double> t = aTerm<double>(c, g);
	Deck<double> d;
	writeTerm(c, d, t, "", 3, false);
	Fake io(d, 3);
	Quiet q;
	std::unique_ptr<Base> b(make(g, io));
	if (g.L < 4)
		return;
	// a rung on either side; ladders with baths are cut through the ladder
	bool ladder = (g.kind == LADDER || g.kind == LADDERX || g.kind == LADDERBATH);
	size_t first = 0, n = g.L;
	if (g.kind == LADDERBATH) {
		n     = g.L / (1 + g.bps);
		first = (n / 2) * g.bps;
	}
	size_t cut = c.below(n - 1), smax = first + cut;
	bool exact = !ladder || (cut + 1 >= g.leg && cut + 1 + g.leg <= n);
	DESC(g.name() << " system up to " << smax);
	c.nontrivial();
	c.label(g.name().substr(0, g.name().find(' ')));
	std::set<size_t> want;
	for (auto& kv : t.ref.bonds)
		if (kv.first.first <= smax && kv.first.second > smax && !(g.kind == LADDERBATH && kv.second.dir == 2)) {
			want.insert(kv.first.first);
			want.insert(kv.first.second);
		}
	for (size_t i = 0; i < g.L; ++i)
		if (exact || want.count(i) || i < first || i >= first + n)
			CHECK(b->fringe(i, smax, smax + 1) == (want.count(i) > 0), "site " << i << (want.count(i) ? " isn't" : " is") << " on the boundary");
}

PROP(growing, 4)
{
	// sites are still to be added between system and environment: the
	// environment's boundary sites take the place of the next sites
	Kind k = c.pickOf<Kind>({ CHAIN, LONGCHAIN, LADDER, LADDERX, LONGRANGE, LADDERBATH });
	Lattice g = aLattice(c, k, 2);
	g.px = g.py = false;
	if (k == LADDER || k == LADDERBATH)
		g.leg = 2;
	size_t first = 0;
	if (k == LADDERBATH) {
		size_t n = (g.L / (1 + g.bps) + 5) & ~1UL;
		g.L      = n * (1 + g.bps);
		first    = (n / 2) * g.bps;
	} else
		g.L = (g.L + 5) & ~1UL;
	// the ladder, without its baths
	size_t n = g.L - 2 * first;
	if (k == LONGCHAIN)
		g.d = c.range(1, std::max<size_t>(1, g.L / 4));
	size_t smax = first + c.range(1, n / 2 - 2);
	size_t emin = g.L - 1 - smax;
	if ((k == CHAIN || k == LONGCHAIN) && c.flip())
		emin = c.range(smax + 2, g.L - 1);
	size_t gap = emin - smax - 1;
	Term<double> t = aTerm<double>(c, g, true);
	if (t.options == "compact")
		t.options = "none";
	DESC(t.describe() << " system up to " << smax << " environment from " << emin);
	c.nontrivial();
	c.label(g.name().substr(0, g.name().find(' ')));
	Deck<double> d;
	writeTerm(c, d, t, "", 3, true);
	Quiet q;
	Fake io(d, 3);
	std::unique_ptr<Base> b(make(g, io));
	// one of several terms on this lattice
	std::vector<Term<double>> terms(1, t);
	const size_t nterms = c.skewRare(1, 3, 11, 100);
	while (terms.size() < nterms) {
		terms.push_back(aTerm<double>(c, g, true));
		if (terms.back().options == "compact")
			terms.back().options = "none";
	}
	const size_t term = c.below(nterms);
	std::swap(terms[0], terms[term]);
	c.labelIf(nterms > 1, "several terms");
	Deck<double> d2 = makeDeck(c, terms, 3, true);
	Fake io2(d2, 3);
	GeometryType geo(io2);
	for (size_t i = 0; i <= smax; ++i) {
		bool want = (k == LONGRANGE);
		for (auto& kv : t.ref.bonds)
			want |= !(k == LADDERBATH && kv.second.dir == 2) && ((kv.first.first == i && kv.first.second > smax) || (kv.first.second == i && kv.first.first > smax));
		CHECK(b->fringe(i, smax, emin) == want, "system site " << i << (want ? " isn't" : " is") << " on the boundary");
	}
	for (size_t j = emin; j < g.L; ++j) {
		bool want = (k == LONGRANGE);
		for (auto& kv : t.ref.bonds)
			want |= !(k == LADDERBATH && kv.second.dir == 2) && ((kv.first.first == j && kv.first.second < emin) || (kv.first.second == j && kv.first.first < emin));
		CHECK(b->fringe(j, smax, emin) == want, "environment site " << j << (want ? " isn't" : " is") << " on the boundary");
		if (!want)
			continue;
		size_t s = b->getSubstituteSite(smax, emin, j);
		CHECK(s == j - gap, "the substitute of " << j << " is " << s << " and not " << j - gap);
		CHECK(s > smax && s < g.L, "the substitute " << s << " of " << j << " isn't a site after the system");
	}
	// couplings between the two parts are those of the grown lattice
	for (size_t i = 0; i <= smax; ++i)
		for (size_t j = emin; j < g.L; ++j) {
			bool both = b->fringe(i, smax, emin) && b->fringe(j, smax, emin);
			size_t jj = both ? j - gap : j;
			for (size_t e1 = 0; e1 < t.orbs; ++e1)
				for (size_t e2 = 0; e2 < t.orbs; ++e2) {
					double v = geo(smax, emin, i, e1, j, e2, term);
					CHECK(t.matches(v, i, e1, jj, e2), "coupling (" << i << "," << e1 << ")-(" << j << "," << e2 << ") is " << v << " and not " << t.want(i, e1, jj, e2));
					double v2 = geo(smax, emin, j, e2, i, e1, term);
					if (k != LONGRANGE)
						CHECK(v2 == v, "coupling (" << i << "," << e1 << ")-(" << j << "," << e2 << ") depends on the order");
				}
			if (both || t.ref.find(i, jj))
				CHECK(geo.connected(smax, emin, i, j) && geo.connected(smax, emin, j, i), i << " and " << j << " aren't connected");
			else
				CHECK(!geo.connected(smax, emin, i, j), i << " and " << j << " are connected");
		}
	CHECK(!geo.connected(smax, emin, smax, smax), "site connected with itself");
}

PROP(moving, 3)
{
	Lattice g = aLattice(c, c.pickOf<Kind>({ CHAIN, LADDER, LONGRANGE, LONGCHAIN }), 2);
	Term<double> t = aTerm<double>(c, g, true);
	Deck<double> d;
	DESC(g.name());
	d.number("TotalNumberOfSites", g.L);
	d.number("NumberOfTerms", 1);
	writeTerm(c, d, t, "", 3, false);
	if (g.L > 3)
		c.nontrivial();
	Quiet q;
	Fake io(d, 3);
	GeometryType geo(io);
	size_t leg = (g.kind == LADDER) ? g.leg : 1;
	size_t lx = g.L / leg;
	CHECK(geo.length(0, 0) == lx, "length " << geo.length(0, 0));
	if (leg > 1)
		CHECK(geo.length(1, 0) == leg, "length across " << geo.length(1, 0));
	size_t dir = leg > 1 ? c.below(2) : 0;
	size_t amount = c.skewRare(0, 3 * (dir ? leg : lx), 50 * g.L, 20);
	for (size_t i = 0; i < g.L; ++i) {
		size_t x = i / leg, y = i % leg;
		size_t r = geo.findReflection(i, 0);
		CHECK(r == (leg > 1 ? (lx - 1 - x) * leg + y : g.L - 1 - i), "reflection of " << i << " is " << r);
		size_t s = geo.translate(i, dir, amount, 0);
		size_t want = dir ? x * leg + (y + amount) % leg : ((x + amount) % lx) * leg + y;
		CHECK(s == want, "site " << i << " moved by " << amount << " in direction " << dir << " is " << s << " and not " << want);
	}
	// reflections keep bonds, translations keep those of periodic lattices
	size_t smax = g.L > 1 ? c.below(g.L - 1) : 0;
	for (auto& kv : t.ref.bonds) {
		size_t i = kv.first.first, j = kv.first.second;
		CHECK(geo.connected(smax, smax + 1, geo.findReflection(i, 0), geo.findReflection(j, 0)), "reflected bond " << i << "-" << j);
		if (dir ? g.py : g.px)
			CHECK(geo.connected(smax, smax + 1, geo.translate(i, dir, amount, 0), geo.translate(j, dir, amount, 0)), "translated bond " << i << "-" << j);
	}
}

PINNED(unimplemented)
{
	// lattices without reflections or translations say so
	for (Kind k : { LADDERX, LADDERBATH, STAR, KTWO }) {
		Deck<double> d;
		d.number("TotalNumberOfSites", 8);
		d.number("NumberOfTerms", 1);
		static const char* n[] = { "", "", "", "ladderx", "ladderbath", "ktwoniffour", "star" };
		d.word("GeometryKind", n[k]);
		d.word("GeometryOptions", "ConstantValues");
		d.number("LadderLeg", 2);
		d.number("BathSitesPerSite", 1);
		d.number("SignChange", 1);
		for (int dir = 0; dir < 4; ++dir)
			d.vec("Connectors", std::vector<double>(1, 1.0), "", "dir" + std::to_string(dir) + ":");
		Quiet q;
		Fake io(d, 3);
		GeometryType geo(io);
		CHECK(pbt::throws([&] { geo.findReflection(1, 0); }), n[k] << " has a reflection");
		CHECK(pbt::throws([&] { geo.translate(1, 0, 1, 0); }), n[k] << " has a translation");
	}
}

PBT_MAIN
