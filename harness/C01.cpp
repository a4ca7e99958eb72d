// PBT-SOURCES: PsimagLite.cpp
// PBT-QUICK: 2500000
// PBT-THOROUGH: 60000000
// PBT-RULE: a case is a container (vector or deque; integers, reals, strings, pairs; with repeated values, already sorted, reversed or empty) sorted whole, or up to a prefix length, with its permutation
// PBT-RULE: non-trivial = three or more elements that were not in order
#include "pbt.h"
#include <memory>
#include <algorithm>
#include <deque>
#include <string>
#include <utility>
#include <vector>
#include "PsimagLite.h"
#include "Sort.h"

template <typename T> struct Gen;
template <> struct Gen<int> {
	static int f(pbt::Ctx& c, int kinds) { return kinds ? (int)c.sint(kinds) : (int)c.bits64(); }
	static std::string show(int x) { return std::to_string(x); }
};
template <> struct Gen<SizeType> {
	static SizeType f(pbt::Ctx& c, int kinds) { return kinds ? c.below(kinds) : c.bits64() >> c.below(64); }
	static std::string show(SizeType x) { return std::to_string(x); }
};
template <> struct Gen<double> {
	static double f(pbt::Ctx& c, int kinds) { return kinds ? c.sint(kinds) * 0.5 : (c.unit() - 0.5) * (c.flip() ? 1e-12 : 1e12); }
	static std::string show(double x) { return std::to_string(x); }
};
template <> struct Gen<std::string> {
	static std::string f(pbt::Ctx& c, int kinds)
	{
		std::string s(c.below(4), 'a');
		for (char& ch : s)
			ch = (char)('a' + c.below(kinds ? 2 : 20));
		return s;
	}
	static std::string show(const std::string& x) { return x; }
};
typedef std::pair<int, int> PairType;
template <> struct Gen<PairType> {
	static PairType f(pbt::Ctx& c, int kinds)
	{
		int a = Gen<int>::f(c, kinds);
		return PairType(a, (int)c.sint(2));
	}
	static std::string show(const PairType& x) { return std::to_string(x.first) + ":" + std::to_string(x.second); }
};

template <typename C> static void check(pbt::Ctx& c, const char* what)
{
	typedef typename C::value_type T;
	// more than 16 elements: the other branch of the usual introsort
	size_t n = c.chance(1, 3) ? c.skew(0, 200) : c.below(20);
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (c.chance(1, 3000)) {
		n = c.range(201, 80000);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("long sequence");
	}
	static const int kindsOf[] = { 0, 1, 2, 3, 10, 100 };
	int kinds = kindsOf[c.below(6)];
	C orig(n);
	for (size_t i = 0; i < n; ++i)
		orig[i] = Gen<T>::f(c, kinds);
	size_t shape = c.below(5);
	if (shape == 0)
		std::sort(orig.begin(), orig.end());
	if (shape == 1) {
		std::sort(orig.begin(), orig.end());
		std::reverse(orig.begin(), orig.end());
	}
	bool prefix = n > 0 && c.chance(1, 4);
	size_t m = prefix ? 1 + c.below(n) : n;
	std::string list;
	for (size_t i = 0; i < n; ++i)
		list += i < 300 ? Gen<T>::show(orig[i]) + " " : "";
	DESC(what << " " << (prefix ? "prefix of " : "") << m << " of " << n << ": " << list);
	if (m > 2 && !std::is_sorted(orig.begin(), orig.begin() + m))
		c.nontrivial();
	C x = orig;
	PsimagLite::Vector<SizeType>::Type iperm(m);
	for (auto& i : iperm)
		i = c.chance(1, 4) ? c.below(1000) : 0; // whatever was there
	PsimagLite::Sort<C> sort;
	if (prefix)
		sort.sort(x, iperm, m);
	else
		sort.sort(x, iperm);
	CHECK(x.size() == n && iperm.size() == m, "sizes changed: " << x.size() << " and " << iperm.size());
	std::vector<char> seen(m, 0);
	for (size_t i = 0; i < m; ++i) {
		CHECK(iperm[i] < m, "permutation entry " << i << " is " << iperm[i]);
		CHECK(!seen[iperm[i]], "index " << iperm[i] << " is twice in the permutation");
		seen[iperm[i]] = 1;
		CHECK(x[i] == orig[iperm[i]], "element " << i << " is not the original one at " << iperm[i]);
		CHECK(i == 0 || !(x[i] < x[i - 1]), "elements " << i - 1 << " and " << i << " are out of order");
	}
	for (size_t i = m; i < n; ++i)
		CHECK(x[i] == orig[i], "element " << i << " after the prefix changed");
	// sorting what is sorted changes nothing
	C y = x;
	sort.sort(y, iperm, prefix ? m : 0);
	for (size_t i = 0; i < n; ++i)
		CHECK(y[i] == x[i], "sorting again changed element " << i);
}

PROP(sort, 1)
{
	switch (c.below(7)) {
	case 0: check<PsimagLite::Vector<int>::Type>(c, "int"); break;
	case 1: check<PsimagLite::Vector<SizeType>::Type>(c, "SizeType"); break;
	case 2: check<PsimagLite::Vector<double>::Type>(c, "double"); break;
	case 3: check<PsimagLite::Vector<std::string>::Type>(c, "string"); break;
	case 4: check<PsimagLite::Vector<PairType>::Type>(c, "pair"); break;
	case 5: check<std::deque<int>>(c, "deque of int"); break;
	default: check<std::deque<std::string>>(c, "deque of string");
	}
}

PBT_MAIN
