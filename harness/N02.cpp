// PBT-SOURCES: Matrix.cpp PsimagLite.cpp PsiBase64.cpp TridiagonalMatrix.cpp ProgressIndicator.cpp MemResolv.cpp Concurrency.cpp Mpi.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-QUICK: 120000
// PBT-THOROUGH: 4000000
// PBT-RULE: a case is a registry of option names and a list over registered names, near misses of them and arbitrary text, in each of the three modes; or an input file with a random subset of the solver parameters, general and for several indices, from which the parameters of one index are read;
// PBT-RULE: non-trivial = two or more options listed with two or more registered, or a file with parameters for two or more different indices
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "InputNg.h"
#include "InputCheckBase.h"
#include "LabelDisabled.h"
#include "Options.h"
#include "ParametersForSolver.h"

using PsimagLite::Options;
typedef std::vector<PsimagLite::String> VectorString;

static std::string aName(pbt::Ctx& c)
{
	static const char* pool[] = { "fast", "fas", "fastest", "verbose", "hasthreads", "Fast", "a", "b", "ab", "none", "twositedmrg", "x1", "x", "useSvd", "use Svd", "_", "f.g", "1", "restartFromFile", "restartFromFiles", "restartFromTape", "calcAndPrintEnergies", "calcAndPrintEntropies" };
	if (c.chance(4, 5))
		return pool[c.below(sizeof(pool) / sizeof(pool[0]))];
	std::string s;
	size_t n = c.rare(1, 5, 200, 100);
	for (size_t i = 0; i < n; ++i)
		s += "abfst =.-"[c.below(9)];
	return s;
}

static std::string mutated(pbt::Ctx& c, std::string s)
{
	switch (c.below(5)) {
	case 0: return s + "s";
	case 1: return s.substr(0, s.size() - 1);
	case 2: s[c.below(s.size())] ^= 32; return s;
	case 3: return " " + s;
	default: return s + " ";
	}
}

PROP(options, 3)
{
	VectorString reg;
	size_t n = c.rare(0, 7, 120, 150);
	for (size_t i = 0; i < n; ++i)
		reg.push_back(aName(c));
	VectorString listed;
	size_t m = c.skewRare(0, 6, 120, 150);
	std::string text;
	bool unknown = false;
	// all of them registered, but perhaps the last one or the first one
	const bool mostly = c.flip();
	const size_t odd = mostly ? c.pickOf<size_t>({ 0, m - 1, m }) : 0;
	for (size_t i = 0; i < m; ++i) {
		std::string s;
		if (!reg.empty() && (mostly ? i != odd : c.chance(5, 6)))
			s = reg[c.below(reg.size())];
		else if (!reg.empty() && c.flip())
			s = mutated(c, reg[c.below(reg.size())]);
		else
			s = aName(c);
		if (s == "" || s.find(',') != std::string::npos)
			s = "q";
		listed.push_back(s);
		unknown |= std::find(reg.begin(), reg.end(), s) == reg.end();
		if (i)
			text += ",";
		text += s;
	}
	SizeType mode = c.pickOf<SizeType>({ Options::Writeable::DISABLED, Options::Writeable::PERMISSIVE, Options::Writeable::STRICT });
	std::string regText;
	for (const std::string& r : reg)
		regText += r + "|";
	DESC("registered " << regText << " listed " << text << " mode " << mode);
	if (listed.size() > 1 && reg.size() > 1)
		c.nontrivial();
	c.labelIf(unknown, "unknown option");
	Options::Writeable w(reg, mode);
	if (mode == Options::Writeable::STRICT && unknown) {
		bool thrown = pbt::throws([&] { Options::Readable r(w, text); });
		CHECK(thrown, "options " << text << " accepted; registered are " << regText);
		return;
	}
	Options::Readable r(w, text);
	std::set<std::string> ask(listed.begin(), listed.end());
	ask.insert(reg.begin(), reg.end());
	for (const std::string& s : listed)
		ask.insert(mutated(c, s));
	ask.insert("");
	ask.insert(text);
	for (const std::string& s : ask) {
		bool want = mode != Options::Writeable::DISABLED && std::find(listed.begin(), listed.end(), s) != listed.end();
		CHECK(r.isSet(s) == want, "option " << s << " is " << (want ? "not " : "") << "set with options " << text << " mode " << mode);
	}
	// reading the list again gives the same answers
	Options::Readable r2(w, text);
	for (const std::string& s : ask)
		CHECK(r.isSet(s) == r2.isSet(s), "option " << s << " differs on the second reading of " << text);
}

PROP(disabled, 1)
{
	PsimagLite::LabelDisabled d;
	std::set<std::string> off;
	size_t n = c.rare(1, 12, 200, 100);
	std::string trail;
	for (size_t i = 0; i < n; ++i) {
		std::string s = aName(c);
		if (c.flip()) {
			d.disable(s);
			off.insert(s);
			trail += "disable " + s + "; ";
		}
		std::string q = c.flip() ? aName(c) : mutated(c, s);
		CHECK(d(q) == (off.count(q) > 0), "label " << q << " after " << trail);
	}
	DESC(trail);
	if (off.size() > 1)
		c.nontrivial();
}

typedef PsimagLite::InputNg<PsimagLite::InputCheckBase> InputNgType;
typedef PsimagLite::ParametersForSolver<double> ParamsType;

static const char* names[] = { "Steps", "MinSteps", "Eps", "StepsForEnergyConvergence", "EigsForStop", "Options", "OneOverA", "B", "Energy", "NoSaveLanczosVectors" };

static std::string valueOf(const ParamsType& p, size_t k)
{
	char b[64];
	switch (k) {
	case 0: return std::to_string(p.steps);
	case 1: return std::to_string(p.minSteps);
	case 2: snprintf(b, sizeof(b), "%.17g", p.tolerance); return b;
	case 3: return std::to_string(p.stepsForEnergyConvergence);
	case 4: return std::to_string(p.eigsForStop);
	case 5: return p.options;
	case 6: snprintf(b, sizeof(b), "%.17g", p.oneOverA); return b;
	case 7: snprintf(b, sizeof(b), "%.17g", p.b); return b;
	case 8: snprintf(b, sizeof(b), "%.17g", p.Eg); return b;
	default: return p.lotaMemory ? "0" : "not kept";
	}
}

PROP(solver, 2)
{
	std::string prefix = c.pickOf<const char*>({ "Lanczos", "L", "Tridiag", "Chebyshev" });
	std::map<std::string, std::string> given;
	std::vector<std::string> lines;
	std::set<int> indices;
	size_t n = c.range(0, 14);
	for (size_t i = 0; i < n; ++i) {
		size_t k = c.below(10);
		int ind = c.chance(1, 10) ? c.pickOf<int>({ 9, 10, 11, 99, 100, 123456 }) : int(c.below(6)) - 2;
		std::string label = (c.chance(1, 8) ? std::string("Other") : prefix) + (ind < 0 ? "" : std::to_string(ind)) + names[k];
		if (given.count(label))
			continue;
		std::string v;
		if (k == 2 || (k >= 6 && k <= 8)) {
			char b[64];
			snprintf(b, sizeof(b), "%.17g", (c.real01() - 0.25) * 10);
			v = b;
		} else if (k == 5)
			v = c.pickOf<const char*>({ "reortho", "none2", "a,b", "UseExcited" });
		else if (k == 9)
			v = c.chance(1, 6) ? c.pickOf<const char*>({ "2", "3", "10" }) : c.flip() ? "0" : "1";
		else
			v = std::to_string(c.chance(1, 40) ? c.range(5000, 2000000000) : c.below(5000));
		given[label] = v;
		indices.insert(ind);
		lines.push_back(label + "=" + v);
	}
	std::string text;
	for (const std::string& l : lines)
		text += l + "\n";
	int ask = c.chance(1, 8) ? c.pickOf<int>({ 9, 10, 11, 12, 99, 100, 101, 150 }) : int(c.below(7)) - 1;
	DESC("prefix " << prefix << " index " << ask << " file <<" << text << ">>");
	if (indices.size() > 1)
		c.nontrivial();
	PsimagLite::InputCheckBase check;
	InputNgType::Writeable w(check, text);
	InputNgType::Readable io(w);
	ParamsType p(io, prefix, ask);
	static const char* defaults[] = { "200", "4", "", "1000000", "1", "none", "0", "0", "0", "0" };
	for (size_t k = 0; k < 10; ++k) {
		std::string want = defaults[k];
		if (k == 2)
			want = "9.9999999999999998e-13";
		if (given.count(prefix + names[k]))
			want = given[prefix + names[k]];
		for (int i = 0; i <= ask; ++i)
			if (given.count(prefix + std::to_string(i) + names[k]))
				want = given[prefix + std::to_string(i) + names[k]];
		if (k == 9 && want != "0")
			want = "not kept"; // any positive number: they are not kept
		CHECK(valueOf(p, k) == want, names[k] << " is " << valueOf(p, k) << " want " << want << " for index " << ask << " prefix " << prefix << " in <<" << text << ">>");
	}
}

PBT_MAIN
