// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PsiBase64.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-LIBS: hdf5
// PBT-QUICK: 40000
// PBT-THOROUGH: 1500000
// PBT-RULE: a case is one to three Hamiltonian terms, each on a random lattice (chain, long chain, ladder, ladder with diagonals, ladder with baths, CuO2 plane, star, long range) with random size, legs, periodicity, degrees of freedom and real or complex couplings, constant or per bond, given as an in-memory, line-oriented or Ainur input; every pair of sites and degrees of freedom is compared with bonds constructed by coordinates;
// PBT-RULE: non-trivial = four or more sites and three or more bonds in some term
#include "pbt.h"
#include <memory>
#include "geomref.h"
#include "Geometry/GeometryDca.h"

static Lattice anyLattice(Ctx& c, size_t big = 1)
{
	return aLattice(c, (Kind)c.weighted({ 3, 3, 4, 3, 3, 2, 2, 3 }), big);
}

// some lattice with this number of sites
static Lattice latticeWith(Ctx& c, size_t L)
{
	for (int k = 0; k < 4; ++k) {
		Lattice g = anyLattice(c);
		switch (g.kind) {
		case CHAIN:
		case LONGCHAIN:
			if (L <= g.d)
				continue;
			break;
		case LADDER:
		case LADDERX:
			if (L % g.leg)
				continue;
			break;
		case LADDERBATH:
			if (L % (g.leg * (1 + g.bps)))
				continue;
			break;
		case STAR:
			if (L < 2)
				continue;
			break;
		default:
			break;
		}
		g.L = L;
		return g;
	}
	Lattice g = aLattice(c, LONGRANGE);
	g.L = L;
	return g;
}

template <typename T> std::vector<std::vector<T>> table(const std::string& text, size_t from, size_t lines)
{
	std::vector<std::vector<T>> v;
	std::istringstream in(text.substr(from));
	std::string line;
	while (v.size() < lines && std::getline(in, line)) {
		std::istringstream l(line);
		std::vector<T> row;
		T x;
		while (l >> x)
			row.push_back(x);
		v.push_back(row);
	}
	return v;
}

template <typename T, typename InputType>
void compare(Ctx& c, InputType& io, const std::vector<Term<T>>& terms)
{
	typedef PsimagLite::Geometry<T, InputType, Globals> GeometryType;
	GeometryType g(io);
	size_t L = terms[0].ref.g.L;
	CHECK(g.terms() == terms.size() && g.numberOfSites() == L, "terms " << g.terms() << " sites " << g.numberOfSites());
	size_t smax = L > 1 ? c.below(L - 1) : 0;
	for (size_t i = 0; i < L; ++i) {
		for (size_t j = 0; j < L; ++j) {
			bool any = false;
			for (size_t t = 0; t < terms.size(); ++t) {
				const Term<T>& x = terms[t];
				size_t oi = x.ref.orbitals(i, x.orbs), oj = x.ref.orbitals(j, x.orbs);
				CHECK(g.orbitals(t, i) == oi, "site " << i << " has " << g.orbitals(t, i) << " degrees of freedom in " << x.describe());
				const Bond* b = x.ref.find(i, j);
				any |= (b != 0) || x.ref.g.kind == LONGRANGE;
				if (b) {
					size_t dir = g.calcDir(t, i, j);
					CHECK(dir == b->dir, "bond " << i << "-" << j << " has direction " << dir << " and not " << b->dir << " in " << x.describe());
				}
				for (size_t e1 = 0; e1 < oi; ++e1)
					for (size_t e2 = 0; e2 < oj; ++e2) {
						T v = g(i, e1, j, e2, t);
						CHECK(x.matches(v, i, e1, j, e2), "coupling (" << i << "," << e1 << ")-(" << j << "," << e2 << ") is " << v << " and not " << x.want(i, e1, j, e2) << " in " << x.describe());
						T v2 = g(smax, smax + 1, i, e1, j, e2, t);
						CHECK(v2 == v, "coupling " << i << "-" << j << " depends on where a complete lattice is cut in " << x.describe());
					}
			}
			if (i == j && any)
				continue; // every site of a long-range term
			bool got = g.connected(smax, smax + 1, i, j);
			CHECK(got == any, "sites " << i << " and " << j << (got ? " connected" : " not connected") << " in " << terms[0].describe());
			bool s1 = i <= smax, s2 = j <= smax;
			auto k = g.connectionKind(smax, i, j);
			auto wantKind = s1 ? (s2 ? Globals::ConnectionEnum::SYSTEM_SYSTEM : Globals::ConnectionEnum::SYSTEM_ENVIRON) : (s2 ? Globals::ConnectionEnum::ENVIRON_SYSTEM : Globals::ConnectionEnum::ENVIRON_ENVIRON);
			CHECK(k == wantKind, "kind of " << i << "," << j << " cut at " << smax);
		}
	}
	for (size_t t = 0; t < terms.size(); ++t) {
		static const char* labels[] = { "longchain", "longchain", "ladder", "ladderx", "ladderbath", "KTwoNiFFour", "star", "LongRange" };
		CHECK(g.label(t) == labels[terms[t].ref.g.kind], "label " << g.label(t));
		CHECK(g.directions(t) == terms[t].ref.dirs, "directions " << g.directions(t) << " in " << terms[t].describe());
		CHECK(g.options(t) == terms[t].options, "options " << g.options(t));
	}
	if (c.chance(1, 4)) {
		std::ostringstream os;
		os.precision(17);
		bool whole = c.flip();
		if (whole)
			os << g;
		else
			g.print(os);
		std::string s = os.str();
		size_t at = 0;
		for (size_t t = 0; t < terms.size(); ++t) {
			const Term<T>& x = terms[t];
			std::string mark = "#orbital changes first\n";
			at = s.find(mark, at);
			CHECK(at != std::string::npos, "no table for term " << t);
			at += mark.size();
			size_t rows = 0;
			for (size_t i = 0; i < L; ++i)
				rows += x.ref.orbitals(i, x.orbs);
			auto m = table<T>(s, at, rows);
			CHECK(m.size() == rows, "table of term " << t << " has " << m.size() << " rows");
			size_t r = 0;
			for (size_t i = 0; i < L; ++i)
				for (size_t e1 = 0; e1 < x.ref.orbitals(i, x.orbs); ++e1, ++r) {
					CHECK(m[r].size() == rows, "row " << r << " has " << m[r].size() << " columns of " << rows);
					size_t q = 0;
					for (size_t j = 0; j < L; ++j)
						for (size_t e2 = 0; e2 < x.ref.orbitals(j, x.orbs); ++e2, ++q)
							CHECK(x.matches(m[r][q], i, e1, j, e2), "printed coupling (" << i << "," << e1 << ")-(" << j << "," << e2 << ") is " << m[r][q] << " in " << x.describe());
				}
		}
		c.label("printed");
	}
}

template <typename T> void run(Ctx& c, int how, bool manySites = false)
{
	std::vector<Term<T>> terms;
	const bool large = manySites || c.chance(1, 400);
	c.labelIf(large, "large lattice");
	std::unique_ptr<Ctx::Bulk> bulk;
	size_t n = manySites ? 1 : c.skewRare(1, 3, 12, 150);
	bool empty = false, lr = false;
	Lattice first = anyLattice(c, manySites ? c.range(3, 8) : large ? 6 : 1);
	if (large)
		bulk.reset(new Ctx::Bulk(c));
	terms.push_back(aTerm<T>(c, first));
	for (size_t k = 1; k < n; ++k)
		terms.push_back(aTerm<T>(c, latticeWith(c, terms[0].ref.g.L)));
	std::string text;
	for (auto& t : terms) {
		text += t.describe() + "; ";
		c.label(t.ref.g.name().substr(0, t.ref.g.name().find(' ')));
		if (t.ref.g.L > 3 && t.ref.bonds.size() > 2)
			c.nontrivial();
		lr |= t.ref.g.kind == LONGRANGE;
		for (auto& v : t.values)
			empty |= v.empty();
	}
	// these cannot be written in the text formats
	if (empty || (how == 1 && n > 1 && lr))
		how = 0;
	// an in-memory input follows either convention for several matrices
	int version = (how == 0) ? c.range(2, 3) : (how == 1) ? 2 : 3;
	Deck<T> d = makeDeck(c, terms, version, how == 1 && n > 1);
	Quiet q;
	if (how == 0) {
		DESC(text);
		FakeInput<T> io(d, version);
		compare<T>(c, io, terms);
		return;
	}
	std::string s = (how == 1) ? d.plain() : d.ainur(GeomCheck(false).import());
	DESC(text << "\n" << s);
	// line-oriented inputs: whether Connectors are vectors or matrices is for the checker to say
	bool mats = false;
	for (auto& e : d.e)
		mats |= e.what == Entry<T>::MATRIX;
	GeomInputNg::Writeable w(GeomCheck(mats), s);
	GeomInputNg::Readable io(w);
	compare<T>(c, io, terms);
}

PROP(momenta, 4)
{
	// clusters of two by two: momenta are pairs of bits that add modulo two
	Lattice g = aLattice(c, c.chance(3, 4) ? STAR : CHAIN);
	size_t orbs = c.pickOf<size_t>({ 4, 4, 4, 4, 1, 2, 3, 5, 8 });
	Deck<double> d;
	d.number("TotalNumberOfSites", g.L);
	d.number("NumberOfTerms", 1);
	d.word("GeometryKind", g.kind == STAR ? "star" : "chain");
	d.word("GeometryOptions", "ConstantValues");
	d.vec("Connectors", std::vector<double>(1, 1.0), "", "dir0:");
	FakeInput<double> io(d, 3);
	Quiet q;
	typedef PsimagLite::Geometry<double, FakeInput<double>, Globals> GeometryType;
	GeometryType geo(io);
	PsimagLite::GeometryDca<double, GeometryType> dca(geo, orbs);
	bool ok = g.kind == STAR && orbs == 4;
	DESC(g.name() << " with " << orbs << " orbitals");
	c.nontrivial();
	for (size_t k = 0; k < 4; ++k)
		for (size_t l = 0; l < 4; ++l) {
			if (!ok) {
				CHECK(pbt::throws([&] { dca.kSum(k, l); }) && pbt::throws([&] { dca.kSustract(k, l); }), "momenta of another cluster");
				continue;
			}
			size_t want = ((k % 2 + l % 2) % 2) + 2 * ((k / 2 + l / 2) % 2);
			CHECK(dca.kSum(k, l) == want, k << "+" << l << " is " << dca.kSum(k, l));
			CHECK(dca.kSustract(want, l) == k, want << "-" << l << " is " << dca.kSustract(want, l));
		}
}

PROP(memoryReal, 18) { run<double>(c, 0); }
PROP(memoryComplex, 18) { run<Cplx>(c, 0); }
PROP(plainReal, 6) { run<double>(c, 1); }
PROP(plainComplex, 6) { run<Cplx>(c, 1); }
PROP(ainurReal, 6) { run<double>(c, 2); }
PROP(ainurComplex, 6) { run<Cplx>(c, 2); }
PROP(manySites, 1) { run<double>(c, 0, true); }

PINNED(rules)
{
	Quiet q;
	// an unknown lattice, no degrees of freedom, a modifier
	for (int k = 0; k < 5; ++k) {
		Deck<double> d;
		d.number("TotalNumberOfSites", 4);
		d.number("NumberOfTerms", 1);
		d.number("DegreesOfFreedom", k == 1 ? 0 : 1);
		d.word("GeometryKind", k == 0 ? "chains" : (k == 4 ? "chainEx" : "chain"));
		d.word("GeometryOptions", "ConstantValues");
		if (k == 2)
			d.word("GeometryValueModifier", "x");
		d.vec("Connectors", std::vector<double>(1, 1.5), "", "dir0:");
		FakeInput<double> io(d, 3);
		typedef PsimagLite::Geometry<double, FakeInput<double>, Globals> G;
		bool bad = pbt::throws([&] { G g(io); });
		CHECK(bad == (k != 3), "case " << k << (bad ? " is an error" : " isn't an error"));
	}
}

PBT_MAIN
