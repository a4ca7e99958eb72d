// PBT-SOURCES: Matrix.cpp PsimagLite.cpp
// PBT-QUICK: 600000
// PBT-THOROUGH: 10000000
// PBT-RULE: a case is an operator specification, a name with a site in brackets, or a bra or ket specification, built from its parts and decoded, or one of them with a character inserted, removed or changed, decided by an independent grammar;
// PBT-RULE: non-trivial = a specification of two or more parts, or a mutated one
#include "pbt.h"
#include <cctype>
#include <string>
#include "PsimagLite.h"
#include "GetBraOrKet.h"
#include "OneOperatorSpec.h"

using PsimagLite::GetBraOrKet;
using PsimagLite::OneOperatorSpec;

static std::string aName(pbt::Ctx& c)
{
	static const char* pool[] = { "c", "n", "sz", "splus", "c_up", "identity", "_", "n1", "A.b", "-c", "P0", "x y" };
	if (c.chance(1, 100))
		return "op" + std::string(c.range(10, 300), 'n');
	return pool[c.below(sizeof(pool) / sizeof(pool[0]))];
}

static std::string mutate(pbt::Ctx& c, const std::string& in, const std::string& chars)
{
	std::string s = in;
	size_t n = c.range(1, 2);
	for (size_t i = 0; i < n; ++i) {
		size_t at = c.below(s.size() + 1);
		size_t how = c.below(3);
		if (how == 0 || at == s.size())
			s.insert(at, 1, chars[c.below(chars.size())]);
		else if (how == 1)
			s[at] = chars[c.below(chars.size())];
		else
			s.erase(at, 1);
	}
	return s;
}

static bool allDigits(const std::string& s)
{
	for (char ch : s)
		if (!isdigit((unsigned char)ch))
			return false;
	return !s.empty();
}

static bool fits(std::string digits)
{
	digits.erase(0, digits.find_first_not_of("0"));
	return digits.size() < 10 || (digits.size() == 10 && digits <= "2147483647");
}

static void checkOperator(const std::string& s)
{
	// name [? digits] [']
	std::string t = s;
	bool transpose = !t.empty() && t[t.size() - 1] == '\'';
	if (transpose)
		t.erase(t.size() - 1);
	size_t q = t.find('?');
	std::string name = t.substr(0, q), digits = q == std::string::npos ? "0" : t.substr(q + 1);
	bool good = allDigits(digits) && fits(digits);
	if (!good) {
		CHECK(pbt::throws([&] { OneOperatorSpec o(s); }), "operator accepted: " << s);
		return;
	}
	OneOperatorSpec o(s);
	CHECK(o.label == name, "name of " << s << " is " << o.label << " want " << name);
	CHECK(o.transpose == transpose, "transpose of " << s << " is " << o.transpose);
	CHECK(o.dof == strtoul(digits.c_str(), 0, 10), "index of " << s << " is " << o.dof << " want " << digits);
}

PROP(operators, 2)
{
	std::string s = aName(c);
	int parts = 0;
	if (c.chance(2, 3)) {
		s += "?" + std::to_string(c.chance(1, 6) ? c.below(3000000000u) : c.below(20));
		++parts;
	}
	if (c.flip()) {
		s += "'";
		++parts;
	}
	bool mutated = c.flip();
	if (mutated)
		s = mutate(c, s, "c'?01x -[]");
	DESC(s);
	if (mutated || parts > 1)
		c.nontrivial();
	checkOperator(s);
}

PROP(sites, 2)
{
	char b = '[', e = ']';
	bool round = c.chance(1, 4);
	if (round) {
		b = '(';
		e = ')';
	}
	std::string root1 = c.chance(1, 4) ? "" : aName(c), root2 = c.flip() ? "" : c.pickOf<const char*>({ "'", "?1", "tail" });
	std::string site = c.pickOf<const char*>({ "0", "12", "", "p", "%l", "a,b", "3x" });
	std::string s = root1;
	bool has = c.chance(4, 5);
	if (has)
		s += b + site + e;
	s += root2;
	bool mutated = c.flip();
	if (mutated) {
		std::string chars = "c1'?";
		chars += b;
		chars += e;
		chars += round ? "[]" : "()";
		chars += b;
		chars += e;
		s = mutate(c, s, chars);
	}
	DESC(s << " round=" << round);
	if (mutated || has)
		c.nontrivial();
	// brackets come in pairs, none inside another; the last pair is the site
	bool good = true, open = false;
	size_t first = 0, last = 0, pairs = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == b) {
			good &= !open;
			open = true;
			first = i;
		} else if (s[i] == e) {
			good &= open;
			open = false;
			last = i;
			++pairs;
		}
	}
	good &= !open;
	auto get = [&] { return round ? OneOperatorSpec::extractSiteIfAny(s, b, e) : OneOperatorSpec::extractSiteIfAny(s); };
	if (!good) {
		CHECK(pbt::throws([&] { get(); }), "brackets accepted: " << s);
		return;
	}
	if (pairs > 1)
		return; // not specified
	OneOperatorSpec::SiteSplit r = get();
	CHECK(r.hasSiteString == (pairs > 0), "site of " << s << " present: " << r.hasSiteString);
	std::string wantRoot = pairs ? s.substr(0, first) + s.substr(last + 1) : s;
	std::string wantSite = pairs ? s.substr(first + 1, last - first - 1) : "";
	CHECK(r.root == wantRoot, "root of " << s << " is " << r.root << " want " << wantRoot);
	CHECK(r.siteString == wantSite, "site of " << s << " is " << r.siteString << " want " << wantSite);
	bool number = allDigits(wantSite);
	CHECK(OneOperatorSpec::isNonNegativeInteger(wantSite) == number, wantSite << " is a number: " << !number);
	if (number && fits(wantSite))
		CHECK(OneOperatorSpec::strToNumberOrFail(wantSite) == strtoul(wantSite.c_str(), 0, 10), "number of " << wantSite);
	else
		CHECK(pbt::throws([&] { OneOperatorSpec::strToNumberOrFail(wantSite); }), "number accepted: " << wantSite);
}

static bool number(const std::string& s, size_t& i, size_t& x)
{
	std::string d;
	while (i < s.size() && isdigit((unsigned char)s[i]))
		d += s[i++];
	if (d == "" || !fits(d))
		return false;
	x = strtoul(d.c_str(), 0, 10);
	return true;
}

static void checkVector(const std::string& s)
{
	bool ket = true;
	std::string t = s;
	if (s.size() > 2 && s[0] == '|' && s[s.size() - 1] == '>')
		t = s.substr(1, s.size() - 2);
	else if (s.size() > 2 && s[0] == '<' && s[s.size() - 1] == '|') {
		t = s.substr(1, s.size() - 2);
		ket = false;
	}
	// gs, time, R number, Pnumber, Q number [X number], X number
	bool good = true, legacyPX = false;
	char kind = 'E';
	size_t first = 0, second = 0, i = 0;
	if (t == "gs")
		i = t.size();
	else if (t == "time") {
		kind = 'P';
		i = t.size();
	} else if (t != "" && (t[0] == 'P' || t[0] == 'R' || t[0] == 'Q')) {
		kind = t[0] == 'Q' ? 'E' : t[0];
		i = 1;
		good = number(t, i, first);
	} else
		good = t != "" && t[0] == 'X';
	if (good && kind != 'R' && i < t.size() && t[i] == 'X') {
		legacyPX = kind == 'P';
		++i;
		good = number(t, i, second);
	}
	good &= i == t.size();
	if (!good) {
		CHECK(pbt::throws([&] { GetBraOrKet g(s); }), "vector accepted: " << s);
		return;
	}
	if (legacyPX)
		return; // not specified
	GetBraOrKet g(s);
	CHECK(g.isKet() == ket, s << " is a ket: " << g.isKet());
	CHECK(g.toString() == t, s << " is read as " << g.toString());
	CHECK(g.isPvector() == (kind == 'P') && g.isRvector() == (kind == 'R'), s << " has another kind");
	if (kind == 'E') {
		CHECK(g.sectorIndex() == first, s << " sector " << g.sectorIndex());
		CHECK(g.levelIndex() == second, s << " level " << g.levelIndex());
		CHECK(pbt::throws([&] { g.pIndex(); }), s << " has a P index");
	} else {
		CHECK(g.pIndex() == first, s << " index " << g.pIndex());
		CHECK(pbt::throws([&] { g.sectorIndex(); }) && pbt::throws([&] { g.levelIndex(); }), s << " has a sector or a level");
	}
}

PROP(vectors, 3)
{
	auto n = [&] { return std::to_string(c.chance(1, 8) ? c.below(3000000000u) : c.below(30)); };
	std::string t;
	switch (c.below(7)) {
	case 0: t = "gs"; break;
	case 1: t = "time"; break;
	case 2: t = "P" + n(); break;
	case 3: t = "R" + n(); break;
	case 4: t = "Q" + n(); break;
	case 5: t = "X" + n(); break;
	default: t = "Q" + n() + "X" + n(); break;
	}
	int form = c.below(3);
	std::string s = form == 0 ? t : form == 1 ? "|" + t + ">" : "<" + t + "|";
	bool mutated = c.flip();
	if (mutated)
		s = mutate(c, s, "<|>PQXR01gsx ");
	DESC(s);
	if (mutated || t.size() > 2)
		c.nontrivial();
	checkVector(s);
}

PBT_MAIN
