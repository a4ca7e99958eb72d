// reference lattices: their bonds by coordinates, and inputs that describe them
#ifndef GEOMREF_H
#define GEOMREF_H
#include <algorithm>
#include <complex>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "InputCheckBase.h"
#include "InputNg.h"
#include "Matrix.h"
#include "Geometry/Geometry.h"

typedef std::complex<double> Cplx;
using pbt::Ctx;

enum Kind { CHAIN,
	    LONGCHAIN,
	    LADDER,
	    LADDERX,
	    LADDERBATH,
	    KTWO,
	    STAR,
	    LONGRANGE,
	    NKINDS };

struct Lattice {
	Kind kind;
	size_t L; // sites
	size_t d; // distance
	bool px, py;
	bool askPx; // IsPeriodicX is in the input
	size_t leg, bps;
	int sign;
	std::string name() const
	{
		std::ostringstream o;
		static const char* n[] = { "chain", "longchain", "ladder", "ladderx", "ladderbath", "ktwoniffour", "star", "LongRange" };
		o << n[kind] << " sites=" << L;
		if (kind == LONGCHAIN)
			o << " distance=" << d;
		if (kind == LADDER || kind == LADDERX || kind == LADDERBATH)
			o << " legs=" << leg;
		if (kind == LADDERBATH)
			o << " bath=" << bps;
		if (px)
			o << " periodicX";
		if (py)
			o << " periodicY";
		if (kind == KTWO)
			o << " sign=" << sign;
		return o.str();
	}
};

struct Bond {
	size_t dir;
	size_t slot;
	size_t alt; // the other slot if the bond is both a step and a wrap
	int sign;
};

struct Reference {
	Lattice g;
	size_t dirs;
	std::vector<size_t> sizes; // values per direction (0 = not defined)
	std::map<std::pair<size_t, size_t>, Bond> bonds; // keyed by (smaller, larger)

	void add(size_t i, size_t j, size_t dir, size_t slot, int sign = 1)
	{
		std::pair<size_t, size_t> k(std::min(i, j), std::max(i, j));
		if (bonds.count(k)) {
			bonds[k].alt = slot;
			return;
		}
		Bond b = { dir, slot, slot, sign };
		bonds[k] = b;
	}
	const Bond* find(size_t i, size_t j) const
	{
		auto it = bonds.find(std::make_pair(std::min(i, j), std::max(i, j)));
		return it == bonds.end() ? 0 : &it->second;
	}
	size_t orbitals(size_t site, size_t orbs) const
	{
		return (g.kind == KTWO && site % 4 == 3) ? 1 : orbs;
	}
};

// a ladder of lx rungs and leg legs: site = x*leg + y
inline void addLadder(Reference& r, size_t first, size_t lx, size_t leg, bool px, bool py)
{
	for (size_t x = 0; x < lx; ++x)
		for (size_t y = 0; y < leg; ++y) {
			size_t s = x * leg + y;
			if (x + 1 < lx)
				r.add(first + s, first + s + leg, 0, s);
			else if (px && lx > 1)
				r.add(first + s, first + y, 0, s);
			if (y + 1 < leg)
				r.add(first + s, first + s + 1, 1, py ? s : x * (leg - 1) + y);
			else if (py)
				r.add(first + s, first + x * leg, 1, s);
		}
	r.sizes[0] = px ? lx * leg : (lx - 1) * leg;
	r.sizes[1] = py ? lx * leg : lx * (leg - 1);
}

inline Reference reference(const Lattice& g)
{
	Reference r;
	r.g = g;
	size_t L = g.L;
	r.dirs = 1;
	r.sizes.assign(4, 0);
	switch (g.kind) {
	case CHAIN:
	case LONGCHAIN:
		for (size_t i = 0; i < L; ++i) {
			if (i + g.d < L)
				r.add(i, i + g.d, 0, i);
			else if (g.px)
				r.add(i, i + g.d - L, 0, i);
		}
		r.sizes[0] = g.px ? L : L - g.d;
		break;
	case LADDER:
		r.dirs = 2;
		addLadder(r, 0, L / g.leg, g.leg, g.px, g.py);
		break;
	case LADDERX:
		r.dirs = 4;
		addLadder(r, 0, L / 2, 2, g.px, false);
		for (size_t x = 0; x + 1 < L / 2; ++x) {
			r.add(2 * x + 1, 2 * x + 2, 2, x);
			r.add(2 * x, 2 * x + 3, 3, x);
		}
		r.sizes[2] = r.sizes[3] = L - 2;
		break;
	case LADDERBATH: {
		// bath of the first half, the cluster, bath of the second half
		r.dirs = 3;
		size_t n = L / (1 + g.bps), half = n / 2, first = half * g.bps;
		addLadder(r, first, n / g.leg, g.leg, g.px, g.py);
		for (size_t b = 0; b < g.bps; ++b) {
			for (size_t s = 0; s < half; ++s)
				r.add(b * half + s, first + s, 2, s * g.bps + b);
			for (size_t s = half; s < n; ++s)
				r.add(first + n + b * (n - half) + s - half, first + s, 2, s * g.bps + b);
		}
		r.sizes[2] = n * g.bps;
		break;
	}
	case KTWO:
		// units of four: an oxygen along x, two oxygens along y, a copper
		r.dirs = 4;
		for (size_t u = 0; u * 4 < L; ++u) {
			size_t o = 4 * u;
			auto add = [&](size_t i, size_t j, size_t dir, int sign) {
				if (i >= L || j >= L)
					return;
				bool inverted = (i % 8 == 4 || j % 8 == 4);
				r.add(i, j, dir, 0, inverted ? sign * g.sign : sign);
			};
			add(o, o + 3, 0, 1);
			add(o + 3, o + 4, 0, -1);
			add(o + 1, o + 3, 1, 1);
			add(o + 2, o + 3, 1, -1);
			add(o, o + 1, 2, 1);
			add(o, o + 2, 3, 1);
			add(o + 2, o + 4, 2, 1);
			add(o + 1, o + 4, 3, 1);
		}
		break;
	case STAR:
		r.add(0, 1, 0, 0);
		for (size_t j = 2; j < L; ++j)
			r.add(1, j, 0, j - 1);
		r.sizes[0] = L - 1;
		break;
	default:
		for (size_t i = 0; i < L; ++i)
			for (size_t j = i + 1; j < L; ++j)
				r.add(i, j, 0, i);
		break;
	}
	return r;
}

// sites = 0 for any number of sites that suits the lattice
inline Lattice aLattice(Ctx& c, Kind k, size_t big = 1)
{
	Lattice g;
	g.kind = k;
	g.d = 1;
	g.px = g.py = false;
	g.leg = 2;
	g.bps = 1;
	g.sign = 1;
	g.askPx = c.chance(1, 4);
	// large ones need not be mostly small
	auto upTo = [&](size_t most) { return big > 2 && c.chance(1, 3) ? c.range(0, most) : c.skew(0, most); };
	switch (k) {
	case CHAIN:
		g.L = 2 + upTo(14 * big);
		g.px = c.flip();
		break;
	case LONGCHAIN:
		g.L = 2 + upTo(14 * big);
		g.d = c.range(1, g.L - 1);
		g.px = c.flip();
		break;
	case LADDER:
		g.leg = 2 + upTo(big > 1 ? 10 : 4);
		g.L = g.leg * (1 + upTo(5 * big));
		g.px = c.flip();
		g.py = g.leg > 2 && c.flip();
		break;
	case LADDERX:
		g.L = 2 * (1 + upTo(8 * big));
		g.px = c.flip();
		break;
	case LADDERBATH:
		g.leg = 2 + upTo(big > 1 ? 6 : 2);
		g.bps = 1 + upTo(big > 1 ? 5 : 2);
		g.L = g.leg * (1 + upTo(3 * big)) * (1 + g.bps);
		g.px = c.chance(1, 3);
		g.py = g.leg > 2 && c.chance(1, 3);
		break;
	case KTWO:
		g.L = 4 + upTo(24 * big);
		g.sign = c.flip() ? 1 : -1;
		break;
	case STAR:
		g.L = 2 + upTo(14 * big);
		break;
	default:
		g.L = 1 + upTo(9 * big);
		break;
	}
	return g;
}

// ---------------------------------------------------------------- values
inline double mix(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ULL;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
	x ^= x >> 31;
	long n = (long)(x % 4001) - 2000;
	return (n == 0 ? 1 : n) / 16.0; // exact in text
}
inline void setValue(double& v, uint64_t x) { v = mix(x); }
inline void setValue(Cplx& v, uint64_t x) { v = Cplx(mix(2 * x), mix(2 * x + 1)); }
inline std::string textOf(double v)
{
	std::ostringstream o;
	o.precision(17);
	o << v;
	return o.str();
}
inline std::string textOf(double v, bool) { return textOf(v); }
inline std::string textOf(Cplx v, bool ainur)
{
	if (ainur)
		return textOf(v.real()) + "i" + textOf(v.imag());
	return "(" + textOf(v.real()) + "," + textOf(v.imag()) + ")";
}

// ---------------------------------------------------------------- inputs
template <typename T> struct Entry {
	enum { SCALAR,
	       WORD,
	       VECTOR,
	       MATRIX } what;
	std::string label; // without prefix for the plain format
	std::string term; // gtN: or empty
	std::string dir; // dirN: or empty
	std::string word;
	std::vector<T> vec;
	PsimagLite::Matrix<T> mat;
};

template <typename T> struct Deck {
	std::vector<Entry<T>> e;
	void word(const std::string& label, const std::string& w, const std::string& term = "")
	{
		Entry<T> x;
		x.what = Entry<T>::WORD;
		x.label = label;
		x.term = term;
		x.word = w;
		e.push_back(x);
	}
	void number(const std::string& label, long n, const std::string& term = "")
	{
		word(label, std::to_string(n), term);
		e.back().what = Entry<T>::SCALAR;
	}
	void real(const std::string& label, double v, const std::string& term = "")
	{
		word(label, textOf(v), term);
		e.back().what = Entry<T>::SCALAR;
	}
	void vec(const std::string& label, const std::vector<T>& v, const std::string& term, const std::string& dir)
	{
		word(label, "", term);
		e.back().what = Entry<T>::VECTOR;
		e.back().dir = dir;
		e.back().vec = v;
	}
	void mat(const std::string& label, const PsimagLite::Matrix<T>& m, const std::string& term, const std::string& dir)
	{
		word(label, "", term);
		e.back().what = Entry<T>::MATRIX;
		e.back().dir = dir;
		e.back().mat = m;
	}
	std::string plain() const
	{
		std::string s;
		for (const auto& x : e) {
			if (x.what == Entry<T>::SCALAR || x.what == Entry<T>::WORD) {
				s += x.label + "=" + x.word + "\n";
				continue;
			}
			if (x.what == Entry<T>::VECTOR) {
				s += x.label + " " + std::to_string(x.vec.size());
				for (const auto& v : x.vec)
					s += " " + textOf(v, false);
			} else {
				s += x.label + " " + std::to_string(x.mat.rows()) + " " + std::to_string(x.mat.cols()) + "\n";
				for (size_t i = 0; i < x.mat.rows(); ++i)
					for (size_t j = 0; j < x.mat.cols(); ++j)
						s += (j ? " " : "\n") + textOf(x.mat(i, j), false);
			}
			s += "\n";
		}
		return s;
	}
	std::string ainur(const std::string& declared) const
	{
		std::string s = "##Ainur1.0\n";
		for (const auto& x : e) {
			std::string full = x.term + x.dir + x.label;
			bool known = declared.find(" " + full + ";") != std::string::npos;
			switch (x.what) {
			case Entry<T>::SCALAR:
				s += (known ? "" : std::string(x.word.find('.') == std::string::npos ? "integer " : "real ")) + full + "=" + x.word;
				break;
			case Entry<T>::WORD:
				s += (known ? "" : "string ") + full + "=\"" + x.word + "\"";
				break;
			case Entry<T>::VECTOR:
				s += (known ? "" : "vector ") + full + "=[";
				for (size_t i = 0; i < x.vec.size(); ++i)
					s += (i ? ", " : "") + textOf(x.vec[i], true);
				s += "]";
				break;
			default:
				s += (known ? "" : "matrix ") + full + "=[";
				for (size_t i = 0; i < x.mat.rows(); ++i) {
					s += i ? ",\n[" : "\n[";
					for (size_t j = 0; j < x.mat.cols(); ++j)
						s += (j ? ", " : "") + textOf(x.mat(i, j), true);
					s += "]";
				}
				s += "]";
				break;
			}
			s += ";\n";
		}
		return s;
	}
};

// the smallest input: a map of what the deck says
template <typename T> class FakeInput {

public:

	FakeInput(const Deck<T>& d, double version)
	    : version_(version)
	{
		for (const auto& x : d.e)
			map_[x.term + x.dir + x.label].push_back(x);
	}
	std::string& prefix() { return prefix_; }
	double version() const { return version_; }
	const Entry<T>& get(const std::string& label0, bool clean)
	{
		std::string label = prefix_ + label0;
		if (!label.empty() && label.back() == '=')
			label.pop_back();
		auto it = map_.find(label);
		if (it == map_.end() || it->second.empty())
			throw PsimagLite::RuntimeError("No label " + label + "\n");
		last_ = it->second.front();
		if (clean && it->second.size() > 1)
			it->second.pop_front();
		return last_;
	}
	void readline(std::string& v, const std::string& label, bool clean = true) { v = get(label, clean).word; }
	void readline(int& v, const std::string& label) { v = atol(get(label, true).word.c_str()); }
	void readline(SizeType& v, const std::string& label) { v = atol(get(label, true).word.c_str()); }
	void readline(double& v, const std::string& label) { v = atof(get(label, true).word.c_str()); }
	void read(std::vector<T>& v, const std::string& label)
	{
		const Entry<T>& e = get(label, true);
		if (e.what != Entry<T>::VECTOR)
			throw PsimagLite::RuntimeError("not a vector\n");
		v = e.vec;
	}
	void read(PsimagLite::Matrix<T>& m, const std::string& label)
	{
		const Entry<T>& e = get(label, true);
		if (e.what != Entry<T>::MATRIX)
			throw PsimagLite::RuntimeError("not a matrix\n");
		m = e.mat;
	}

private:

	double version_;
	std::string prefix_;
	std::map<std::string, std::deque<Entry<T>>> map_;
	Entry<T> last_;
};

struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM,
		                    SYSTEM_ENVIRON,
		                    ENVIRON_SYSTEM,
		                    ENVIRON_ENVIRON };
};

class GeomCheck : public PsimagLite::InputCheckBase {

public:

	GeomCheck(bool matrices)
	    : matrices_(matrices)
	{
	}
	std::string import() const;
	bool check(const PsimagLite::String& label, const PsimagLite::Vector<PsimagLite::String>::Type&, SizeType) const
	{
		return matrices_ && label == "Connectors";
	}
	void check(const PsimagLite::String&, const PsimagLite::String&, SizeType) { }
	bool checkSimpleLabel(const PsimagLite::String&, SizeType) const { return true; }

private:

	bool matrices_;
};
typedef PsimagLite::InputNg<GeomCheck> GeomInputNg;
typedef PsimagLite::Geometry<double, GeomInputNg::Readable, Globals> GeomRealNg;
inline std::string GeomCheck::import() const { return GeomRealNg::import(); }

// ---------------------------------------------------------------- a term
template <typename T> struct Term {
	Reference ref;
	size_t orbs;
	bool constant;
	std::string options;
	std::string kindWord;
	bool writeDof;
	std::vector<std::vector<PsimagLite::Matrix<T>>> values; // [dir][slot]
	PsimagLite::Matrix<T> raw; // LongRange
	bool entangler;
	double entanglerValue;
	size_t maxConn;

	T at(const Bond& b, size_t slot, size_t i, size_t e1, size_t j, size_t e2) const
	{
		const PsimagLite::Matrix<T>& m = values[b.dir][constant ? 0 : slot];
		if (orbs == 1)
			return m(0, 0);
		double s = b.sign;
		return (i > j) ? m(e1, e2) * s : PsimagLite::conj(m(e2, e1)) * s;
	}
	bool matches(T got, size_t i, size_t e1, size_t j, size_t e2) const
	{
		if (ref.g.kind == LONGRANGE)
			return got == raw(i * orbs + e1, j * orbs + e2);
		const Bond* b = ref.find(i, j);
		if (!b)
			return got == T(0);
		return got == at(*b, b->slot, i, e1, j, e2) || got == at(*b, b->alt, i, e1, j, e2);
	}
	T want(size_t i, size_t e1, size_t j, size_t e2) const
	{
		if (ref.g.kind == LONGRANGE)
			return raw(i * orbs + e1, j * orbs + e2);
		const Bond* b = ref.find(i, j);
		return b ? at(*b, b->slot, i, e1, j, e2) : T(0);
	}
	std::string describe() const
	{
		return ref.g.name() + " dof=" + std::to_string(orbs) + " options=" + options;
	}
};

template <typename T> Term<T> aTerm(Ctx& c, const Lattice& g, bool smallOnly = false)
{
	Term<T> t;
	t.ref = reference(g);
	t.orbs = 1 + ((g.kind == KTWO) ? c.skew(0, 1) : g.L < 20 ? c.skewRare(0, 2, 9, 60) : c.skew(0, 2));
	t.constant = (g.kind == KTWO) ? true : c.flip();
	t.options = t.constant ? "ConstantValues" : "none";
	// one of several options
	if (t.constant && g.kind != LONGRANGE && c.chance(1, 5))
		t.options = c.pickOf<const char*>({ "ConstantValues,other", "other,ConstantValues", "noneConstantValues" });
	t.kindWord = g.name().substr(0, g.name().find(' '));
	if (g.kind == LONGRANGE && c.flip())
		t.kindWord = "General";
	if ((g.kind == LONGCHAIN && c.flip()))
		t.kindWord = "chain";
	t.writeDof = true;
	t.entangler = false;
	t.entanglerValue = 0;
	t.maxConn = 0;
	uint64_t seed = c.below(1000);
	seed *= 100003;
	if (g.kind == LONGRANGE) {
		size_t n = g.L * t.orbs;
		t.raw = PsimagLite::Matrix<T>(n, n);
		t.maxConn = c.below(4);
		if (!smallOnly && c.chance(1, 6)) {
			t.entangler = true;
			t.entanglerValue = mix(seed);
			for (size_t i = 0; i < n; ++i)
				for (size_t j = i + 1; j < n; ++j)
					t.raw(i, j) = t.entanglerValue;
			return t;
		}
		unsigned fill = c.below(4);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = (fill == 3) ? 0 : i + 1; j < n; ++j)
				if (fill != 2 || mix(seed + i * 1000 + j) > 0)
					setValue(t.raw(i, j), seed + i * n + j);
		t.options = c.pickOf<const char*>({ "none", "ConstantValues", "compact" });
		return t;
	}
	for (size_t dir = 0; dir < t.ref.dirs; ++dir) {
		size_t n = t.constant ? 1 : t.ref.sizes[dir];
		if (t.orbs > 1 && n == 0)
			n = 1;
		std::vector<PsimagLite::Matrix<T>> v;
		for (size_t k = 0; k < n; ++k) {
			PsimagLite::Matrix<T> m(t.orbs, t.orbs);
			for (size_t a = 0; a < t.orbs; ++a)
				for (size_t b = 0; b < t.orbs; ++b)
					setValue(m(a, b), seed + dir * 10007 + k * 101 + a * 10 + b);
			v.push_back(m);
		}
		t.values.push_back(v);
	}
	return t;
}

// writes the term; version 3 numbers the matrices of a direction, version 2 repeats the label
template <typename T> void writeTerm(Ctx& c, Deck<T>& d, const Term<T>& t, const std::string& prefix, int version, bool allLabels)
{
	const Lattice& g = t.ref.g;
	if (t.orbs > 1 || allLabels || g.kind == LONGRANGE || c.flip())
		d.number("DegreesOfFreedom", t.orbs, prefix);
	d.word("GeometryKind", t.kindWord, prefix);
	d.word("GeometryOptions", t.options, prefix);
	bool ladder = (g.kind == LADDER || g.kind == LADDERX || g.kind == LADDERBATH);
	if (g.kind == LADDERBATH)
		d.number("BathSitesPerSite", g.bps, prefix);
	if (ladder)
		d.number("LadderLeg", g.leg, prefix);
	if (ladder || g.kind == CHAIN || g.kind == LONGCHAIN)
		if (g.px || g.askPx || allLabels)
			d.number("IsPeriodicX", g.px, prefix);
	if (ladder && (g.leg > 2 || allLabels))
		d.number("IsPeriodicY", g.py, prefix);
	if (g.kind == LONGCHAIN || (g.kind == CHAIN && allLabels))
		d.number("LongChainDistance", g.d, prefix);
	if (g.kind == KTWO)
		d.number("SignChange", g.sign, prefix);
	if (g.kind == LONGRANGE) {
		d.number("GeometryMaxConnections", t.maxConn, prefix);
		if (t.entangler) {
			d.real("GeometryEntangler", t.entanglerValue, prefix);
			return;
		}
		if (t.options == "compact") {
			std::vector<std::pair<size_t, size_t>> nz;
			for (size_t i = 0; i < t.raw.rows(); ++i)
				for (size_t j = 0; j < t.raw.cols(); ++j)
					if (t.raw(i, j) != T(0))
						nz.push_back(std::make_pair(i, j));
			if (nz.empty())
				nz.push_back(std::make_pair(0, 0)); // an explicit zero
			PsimagLite::Matrix<T> m(nz.size(), t.orbs > 1 ? 5 : 3);
			for (size_t k = 0; k < nz.size(); ++k) {
				size_t q = 0;
				m(k, q++) = nz[k].first / t.orbs;
				if (t.orbs > 1)
					m(k, q++) = nz[k].first % t.orbs;
				m(k, q++) = nz[k].second / t.orbs;
				if (t.orbs > 1)
					m(k, q++) = nz[k].second % t.orbs;
				m(k, q++) = t.raw(nz[k].first, nz[k].second);
			}
			d.mat("Connectors", m, prefix, "");
			return;
		}
		d.mat("Connectors", t.raw, prefix, "");
		return;
	}
	for (size_t dir = 0; dir < t.values.size(); ++dir) {
		std::string p = "dir" + std::to_string(dir) + ":";
		const auto& v = t.values[dir];
		if (t.orbs == 1) {
			std::vector<T> x;
			for (const auto& m : v)
				x.push_back(m(0, 0));
			d.vec("Connectors", x, prefix, p);
			continue;
		}
		for (size_t k = 0; k < v.size(); ++k)
			d.mat("Connectors" + std::string((v.size() > 1 && version > 2) ? std::to_string(k) : ""), v[k], prefix, p);
	}
}

template <typename T> Deck<T> makeDeck(Ctx& c, const std::vector<Term<T>>& terms, int version, bool allLabels)
{
	Deck<T> d;
	d.number("TotalNumberOfSites", terms[0].ref.g.L);
	d.number("NumberOfTerms", terms.size());
	for (size_t k = 0; k < terms.size(); ++k)
		writeTerm(c, d, terms[k], terms.size() > 1 ? "gt" + std::to_string(k) + ":" : "", version, allLabels);
	return d;
}

// the library announces periodic lattices and short matrices on these streams
struct Quiet {
	std::ostringstream sink;
	std::streambuf *o, *e;
	Quiet()
	    : o(std::cout.rdbuf(sink.rdbuf()))
	    , e(std::cerr.rdbuf(sink.rdbuf()))
	{
	}
	~Quiet()
	{
		std::cout.rdbuf(o);
		std::cerr.rdbuf(e);
	}
};
#endif
