// PBT-SOURCES: PsimagLite.cpp
// PBT-QUICK: 400000
// PBT-THOROUGH: 12000000
// PBT-RULE: a case is a multiset whose permutations are all generated, a sum decomposed in every way, mixed-radix indices packed and unpacked, a machine word whose bits are counted, or a map printed
// PBT-RULE: non-trivial = a multiset with two or more different elements, a sum into two or more parts, an index above the radix, a word with two or more bits, a map of two or more entries
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "BitManip.h"
#include "Map.h"
#include "PackIndices.h"
#include "Permutations.h"
#include "PsimagLite.h"
#include "SumDecomposition.h"

typedef PsimagLite::Vector<SizeType>::Type VectorSizeType;

static std::string show(const VectorSizeType& v)
{
	std::string s;
	for (SizeType x : v)
		s += std::to_string(x) + " ";
	return s;
}

PROP(permutations, 2)
{
	size_t n = c.rare(0, 7, 40, 40);
	size_t kinds = 1 + c.below(8), odd = n;
	if (n > 12)
		odd = c.range(0, 2); // of so many, all but these are equal
	else if (n > 7)
		kinds = 1 + c.below(2);
	SizeType scale = c.chance(1, 4) ? 1000003 : 1;
	VectorSizeType orig(n);
	for (auto& x : orig)
		x = scale * c.below(kinds);
	for (size_t i = odd; i < n; ++i)
		orig[i] = orig[0];
	if (n <= 7 && c.chance(1, 3))
		for (size_t i = 0; i < n; ++i)
			orig[i] = i; // all different
	DESC("permutations of " << show(orig));
	std::vector<SizeType> all(orig.begin(), orig.end());
	std::sort(all.begin(), all.end());
	if (n > 1 && all[0] != all[n - 1])
		c.nontrivial();
	// how many there must be
	double count = 1;
	for (size_t i = 0, run = 0; i < n; ++i) {
		run = (i > 0 && all[i] == all[i - 1]) ? run + 1 : 1;
		count = count * (i + 1) / run;
	}
	PsimagLite::Permutations<VectorSizeType> p(orig);
	CHECK(p.size() == n, "size " << p.size());
	double visited = 0;
	std::vector<SizeType> last;
	while (true) {
		std::vector<SizeType> v;
		for (size_t i = 0; i < n; ++i)
			v.push_back(p[i]);
		CHECK(visited == 0 || last < v, "not after the previous one: " << show(v));
		CHECK(visited > 0 || v == all, "first is not the sorted one: " << show(v));
		last = v;
		++visited;
		std::ostringstream os;
		os << p;
		CHECK(os.str() == show(v), "printed '" << os.str() << "'");
		std::sort(v.begin(), v.end());
		CHECK(v == all, "not a permutation: " << show(last));
		if (visited > count)
			break;
		if (!p.increase())
			break;
	}
	CHECK(visited == count, "visited " << visited << " permutations, there are " << count);
	// the last one stays
	CHECK(!p.increase(), "increased after the last one");
	for (size_t i = 0; i < n; ++i)
		CHECK(p[i] == last[i], "last permutation changed");
}

PROP(sums, 2)
{
	using PsimagLite::SumDecomposition;
	size_t parts = c.below(6), total = c.below(parts > 3 ? 8 : 15);
	if (c.chance(1, 200)) {
		parts = c.range(1, 3);
		total = c.range(15, parts == 3 ? 40 : 400);
		c.label("large sum");
	}
	// every vector of that many parts with that sum, in lexicographic order
	std::vector<VectorSizeType> want;
	VectorSizeType v(parts, 0);
	while (true) {
		if (std::accumulate(v.begin(), v.end(), SizeType(0)) == total)
			want.push_back(v);
		size_t k = parts;
		while (k > 0 && v[k - 1] == total)
			v[--k] = 0;
		if (k == 0)
			break;
		++v[k - 1];
	}
	size_t mode = c.below(4);
	size_t selection = c.below(want.size() + 2);
	DESC(total << " into " << parts << " parts, mode " << mode << " selection " << selection << ", there are " << want.size());
	if (parts > 1 && total > 1)
		c.nontrivial();
	SumDecomposition sd = mode == 0 ? SumDecomposition(parts, total)
	    : mode == 1                ? SumDecomposition(parts, total, SumDecomposition::SEL_ALL)
	    : mode == 2                ? SumDecomposition(parts, total, SumDecomposition::SEL_SIZE)
	                               : SumDecomposition(parts, total, SumDecomposition::SEL_INDEX, selection);
	CHECK(sd.size() == want.size(), "there are " << sd.size());
	std::vector<VectorSizeType> stored;
	if (mode < 2)
		stored = want;
	if (mode == 3 && selection < want.size())
		stored.push_back(want[selection]);
	CHECK(sd.storedSize() == stored.size(), "stored " << sd.storedSize() << " want " << stored.size());
	std::string text = std::to_string(stored.size()) + "\n";
	for (size_t i = 0; i < stored.size(); ++i) {
		CHECK(sd(i) == stored[i], "number " << i << " is " << show(sd(i)) << " want " << show(stored[i]));
		text += std::to_string(parts) + "\n";
		for (SizeType x : stored[i])
			text += std::to_string(x) + "\n";
		text += "\n";
	}
	CHECK(pbt::throws([&] { (void)sd(stored.size() + c.below(3)); }), "index beyond the last accepted");
	std::ostringstream os;
	os << sd;
	CHECK(os.str() == text, "printed '" << os.str() << "' want '" << text << "'");
}

PROP(pack, 4)
{
	SizeType n = c.flip() ? 1 + c.below(20) : 1 + c.below(1u << 30);
	SizeType x = c.below(n), y = c.flip() ? c.below(40) : c.below(1u << 30);
	DESC("radix " << n << " digits " << x << " " << y);
	if (y > 0 && n > 1)
		c.nontrivial();
	PsimagLite::PackIndices pack(n);
	SizeType a = 77, b = 77;
	pack.unpack(a, b, x + y * n);
	CHECK(a == x && b == y, "unpacked " << a << " " << b);
	if (n > 20 || y >= 40)
		return;
	size_t rows = y + 1 + c.below(3);
	VectorSizeType perm(n * rows);
	for (size_t i = 0; i < perm.size(); ++i)
		perm[i] = i;
	for (size_t i = perm.size(); i > 1; --i)
		std::swap(perm[i - 1], perm[c.below(i)]);
	CHECK(pack.pack(x, y, perm) == perm[x + y * n], "packed " << pack.pack(x, y, perm));
	VectorSizeType id(n * rows);
	for (size_t i = 0; i < id.size(); ++i)
		id[i] = i;
	pack.unpack(a, b, pack.pack(x, y, id));
	CHECK(a == x && b == y, "unpacked what was packed: " << a << " " << b);
}

PROP(bits, 8)
{
	unsigned long w = c.bits64() >> c.below(64);
	switch (c.below(4)) {
	case 0: w = 1ul << c.below(64); break;
	case 1: w = ~0ul << c.below(64); break;
	case 2: w |= 1ul << c.below(64); break;
	}
	DESC("word " << w);
	int want = 0;
	for (int i = 0; i < 64; ++i)
		want += (w >> i) & 1;
	if (want > 1)
		c.nontrivial();
	CHECK(PsimagLite::BitManip::count(w) == want, "count " << PsimagLite::BitManip::count(w) << " want " << want);
	CHECK((int)PsimagLite::BitManip::countKernighan(w) == want, "countKernighan " << PsimagLite::BitManip::countKernighan(w) << " want " << want);
}

PROP(maps, 1)
{
	PsimagLite::Map<std::string, int>::Type m;
	std::map<std::string, int> ref;
	for (size_t i = c.below(6); i > 0; --i) {
		std::string key(c.below(3), 'a');
		for (char& ch : key)
			ch = (char)('a' + c.below(3));
		int x = (int)c.sint(50);
		m[key] = x;
		ref[key] = x;
	}
	DESC("map of " << ref.size());
	if (ref.size() > 1)
		c.nontrivial();
	std::ostringstream os, want;
	PsimagLite::printMap(os, m, "label");
	for (auto& kv : ref)
		want << "label[" << kv.first << "]=" << kv.second << "\n";
	CHECK(os.str() == want.str(), "printed '" << os.str() << "' want '" << want.str() << "'");
}

PBT_MAIN
