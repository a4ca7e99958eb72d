// PBT-SOURCES: PsimagLite.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 800000
// PBT-THOROUGH: 10000000
// PBT-RULE: a case asks one load balancer for its complete assignment of 0..120 (rarely up to 70000) tasks to 1..16 (rarely up to 300) workers, with equal or generated weights (including zero and huge ones); non-trivial = at least two workers and more tasks than workers
#include "LoadBalancerDefault.h"
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
#include "pbt.h"
using namespace PsimagLite;
typedef std::vector<SizeType> VS;

static void dims(pbt::Ctx& c, size_t& n, size_t& th)
{
	th = c.chance(1, 50) ? c.range(17, 300) : c.range(1, 16);
	n  = c.chance(1, 4) ? c.below(th + 2) : (c.chance(1, 4) ? th * c.below(8) + c.below(2) : c.skew(0, 120));
	if (c.chance(1, 200))
		n = c.skew(121, 3000);
	if (c.chance(1, 20000)) {
		n = 65530 + c.below(5000);
		c.label("more than 65529 tasks");
	}
	c.labelIf(th > 16, "more than sixteen workers");
	if (th >= 2 && n > th)
		c.nontrivial();
	c.labelIf(n < th, "fewer tasks than workers");
	c.labelIf(n == 0, "no tasks");
}

// blocks in order: worker k gets the k-th block; the last non-empty one may be shorter
template <typename B> static void blocks(pbt::Ctx& c)
{
	size_t n, th;
	dims(c, n, th);
	DESC("blocks tasks " << n << " workers " << th);
	const B           b(n, th);
	std::vector<int>  owner(n, -1);
	size_t            most = 0, total = 0;
	for (size_t w = 0; w < th; ++w) {
		size_t mine = 0, bs = b.blockSize(w);
		for (size_t p = 0; p < bs; ++p) {
			size_t t = b.taskNumber(w, p);
			if (t >= n)
				break; // how every driver stops
			CHECK(owner[t] < 0, "task " << t << " belongs to workers " << owner[t] << " and " << w);
			owner[t] = w;
			++mine;
		}
		total += mine;
		most = std::max(most, mine);
	}
	CHECK(total == n, total << " of " << n << " tasks assigned");
	size_t share = (n + th - 1) / th;
	CHECK(most <= share, "a worker has " << most << " tasks, more than the equal share " << share);
	for (size_t t = 1; t < n; ++t)
		CHECK(owner[t] >= owner[t - 1], "tasks are not assigned in contiguous blocks");
}

template <typename F> static void weighted(const LoadBalancerWeights& b, const VS& w, size_t th, F)
{
	size_t              n = w.size();
	std::vector<int>    owner(n, -1);
	std::vector<double> load(th, 0), smallest(th, 1e300);
	std::vector<size_t> count(th, 0);
	for (size_t k = 0; k < th; ++k) {
		size_t bs = b.blockSize(k);
		for (size_t p = 0; p < bs; ++p) {
			long t = b.taskNumber(k, p);
			CHECK(t >= 0 && size_t(t) < n, "task number " << t << " of " << n);
			CHECK(owner[t] < 0, "task " << t << " belongs to workers " << owner[t] << " and " << k);
			owner[t] = k;
			load[k] += w[t];
			smallest[k] = std::min<double>(smallest[k], w[t]);
			++count[k];
		}
	}
	for (size_t t = 0; t < n; ++t)
		CHECK(owner[t] >= 0, "task " << t << " of " << n << " was not assigned");
	// moving its lightest task to any other worker cannot relieve a worker
	size_t live = std::min(n, th);
	for (size_t a = 0; a < th; ++a)
		for (size_t s = 0; s < live; ++s)
			if (count[a])
				CHECK(load[a] - smallest[a] <= load[s], "worker " << a << " with load " << load[a] << " could give its task of weight " << smallest[a] << " to worker " << s << " with load " << load[s]);
	bool equal = true;
	for (size_t t = 1; t < n; ++t)
		equal = equal && w[t] == w[0];
	if (equal && n && w[0] > 0)
		for (size_t a = 0; a < th; ++a)
			CHECK(count[a] == n / th || count[a] == n / th + 1, "worker " << a << " has " << count[a] << " of " << n << " equal tasks");
}

PROP(default_blocks, 2) { blocks<LoadBalancerDefault>(c); }
PROP(mpi_blocks, 2) { blocks<LoadBalancerMpi>(c); }
PROP(weights, 3)
{
	size_t n, th;
	dims(c, n, th);
	VS            w(n);
	unsigned long top = c.pickOf({ 0ul, 1ul, 5ul, 1000ul, 1ul << 31, 1ul << 32, 1ul << 40, 1ul << 44 });
	for (size_t i = 0; i < n; ++i) {
		if (i >= 300) {
			w[i] = w[i - 300];
			continue;
		}
		bool little = c.chance(1, 8);
		w[i] = little ? c.below(3) : (top ? (c.bits64() % (top + 1)) : 1);
	}
	DESC("weights up to " << top << " tasks " << n << " workers " << th);
	VS saved = w;
	const LoadBalancerWeights b(w, th);
	CHECK(w == saved, "the weights were changed");
	weighted(b, w, th, 0);
}
PROP(equal_weights, 1)
{
	size_t n, th;
	dims(c, n, th);
	DESC("no weights, tasks " << n << " workers " << th);
	const LoadBalancerWeights b(n, th);
	weighted(b, VS(n, 1), th, 0);
}
PBT_MAIN
