// PBT-SOURCES: PsimagLite.cpp MersenneTwister.cpp Concurrency.cpp Mpi.cpp
// PBT-QUICK: 600000
// PBT-THOROUGH: 15000000
// PBT-RULE: a case is a seed (with extremes frequent), a rank, and a history of draws, reseedings and copies of one or two generators, against generators written from the published recurrences
// PBT-RULE: non-trivial = two or more blocks of the state (more than 624 draws) or a reseeding after draws for the twister; a reseeding or two generators for the others
#include "pbt.h"
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <string>
#include <vector>
#include "PsimagLite.h"
#include "MersenneTwister.h"
#include "Random48.h"
#include "RandomForTests.h"

// MT19937 as published, with the library's own filling of the first block
struct Twister {
	std::vector<uint32_t> x; // the whole sequence
	size_t at;
	void seed(uint32_t s)
	{
		x.assign(1, s);
		for (uint32_t i = 1; i < 624; ++i) {
			uint64_t t = x[i - 1] ^ (x[i - 1] >> 30);
			x.push_back((uint32_t)((1812433253ull * ((t + i) & 0xffffffffull)) & 0xffffffffull));
		}
		at = 624;
	}
	uint32_t next()
	{
		// x[k+n] = x[k+m] xor (upper bit of x[k], lower 31 bits of x[k+1]) A
		size_t k = at - 624;
		uint64_t y = (x[k] & 0x80000000ull) | (x[k + 1] & 0x7fffffffull);
		uint32_t z = (uint32_t)(x[k + 397] ^ (y >> 1));
		if (y & 1)
			z ^= 0x9908b0dfu;
		x.push_back(z);
		++at;
		z ^= z >> 11;
		z ^= (z << 7) & 0x9d2c5680u;
		z ^= (z << 15) & 0xefc60000u;
		z ^= z >> 18;
		return z;
	}
};

static uint32_t aSeed(pbt::Ctx& c)
{
	switch (c.below(3)) {
	case 0: return (uint32_t)c.below(10);
	case 1: return 0xffffffffu - (uint32_t)c.below(10);
	default: return (uint32_t)c.bits64();
	}
}

PROP(twister, 3)
{
	using PsimagLite::MersenneTwister;
	uint32_t s = aSeed(c);
	Twister ref;
	ref.seed(s);
	bool ranked = c.chance(1, 3);
	int rank = (int)c.below(6);
	std::string log = "seed " + std::to_string(s);
	if (ranked) {
		log += " rank " + std::to_string(rank);
		uint32_t r = 0;
		for (int i = 0; i <= rank; ++i)
			r = ref.next();
		ref.seed(r);
	}
	MersenneTwister g = ranked ? MersenneTwister(s, rank, (int)(rank + 1 + c.below(4))) : MersenneTwister(s);
	CHECK(MersenneTwister::max() == 0xffffffffu, "max " << MersenneTwister::max());
	size_t steps = 1 + c.below(6), drawn = 0;
	for (size_t i = 0; i < steps; ++i) {
		switch (c.weighted({ 4, 1, 1 })) {
		case 0: {
			size_t n = c.flip() ? c.below(10) : c.below(1300);
			bool real = c.flip();
			log += " draw " + std::to_string(n) + (real ? " reals" : "");
			DESC(log);
			for (size_t j = 0; j < n; ++j) {
				uint32_t want = ref.next();
				if (real) {
					double x = g();
					CHECK(x >= 0 && x <= 1, "real " << x);
					CHECK(x == (double)want / 4294967295.0, "real number " << drawn + j << " is " << x << " want " << (double)want / 4294967295.0);
				} else {
					unsigned x = g.random();
					CHECK(x == want, "number " << drawn + j << " is " << x << " want " << want);
				}
			}
			drawn += n;
			if (drawn > 624)
				c.nontrivial();
			break;
		}
		case 1: {
			uint32_t t = c.flip() ? s : aSeed(c);
			log += " reseed " + std::to_string(t);
			if (drawn > 0)
				c.nontrivial();
			g.seed(t);
			ref.seed(t);
			break;
		}
		default: {
			// a copy goes on where the original is, and does not move it
			log += " copy";
			DESC(log);
			MersenneTwister h(g);
			Twister r2 = ref;
			for (size_t j = c.below(700); j > 0; --j)
				CHECK(h.random() == r2.next(), "copy goes another way");
		}
		}
	}
	DESC(log);
}

// the 48-bit linear congruential generator of the standard
struct Lcg48 {
	uint64_t x;
	void seed(long s) { x = (((uint64_t)(uint32_t)s << 16) + 0x330e) & 0xffffffffffffull; }
	double next()
	{
		x = (x * 0x5deece66dull + 0xb) & 0xffffffffffffull;
		return std::ldexp((double)x, -48);
	}
};

template <typename T> static void random48(pbt::Ctx& c, const char* what)
{
	using PsimagLite::Random48;
	long s = c.flip() ? (long)c.below(20) : (long)(int32_t)aSeed(c);
	SizeType nprocs = 1 + c.below(5), rank = c.below(nprocs);
	bool plain = nprocs == 1 && c.flip();
	std::string log = std::string(what) + " seed " + std::to_string(s) + " rank " + std::to_string(rank) + " of " + std::to_string(nprocs);
	Lcg48 ref;
	ref.seed(s);
	long own = 0;
	for (SizeType i = 0; i <= rank; ++i)
		own = (long)(10000.0 * ref.next());
	ref.seed(own);
	Random48<T> g = plain ? Random48<T>(s) : Random48<T>(s, rank, nprocs);
	CHECK(g.seed() == own, "seed of the rank " << g.seed() << " want " << own);
	size_t steps = 1 + c.below(6), drawn = 0;
	for (size_t i = 0; i < steps; ++i) {
		if (c.chance(1, 3)) {
			long t = c.flip() ? own : (long)c.below(1000);
			log += " reseed " + std::to_string(t);
			g.seed(t);
			CHECK(g.seed() == t, "seed " << g.seed());
			ref.seed(t);
			if (drawn)
				c.nontrivial();
			continue;
		}
		size_t n = c.below(40);
		log += " draw " + std::to_string(n);
		DESC(log);
		for (size_t j = 0; j < n; ++j) {
			T want = (T)ref.next();
			T x = c.flip() ? g() : g.random();
			CHECK(x == want, "number " << drawn + j << " is " << x << " want " << want);
			CHECK(std::real(x) >= 0 && (sizeof(T) < 8 || std::real(x) < 1), "out of the interval " << x);
		}
		drawn += n;
	}
	DESC(log);
}

PROP(lcg48, 2)
{
	switch (c.below(3)) {
	case 0: random48<float>(c, "float"); break;
	case 1: random48<std::complex<double>>(c, "complex"); break;
	default: random48<double>(c, "double");
	}
}

// the minimal standard generator x -> 16807 x mod 2^31 - 1
PROP(minimalStandard, 2)
{
	using PsimagLite::RandomForTests;
	int s = c.flip() ? 1 + (int)c.below(20) : 1 + (int)c.below(2147483646);
	if (c.chance(1, 6))
		s = 2147483646 - (int)c.below(5);
	int t = c.flip() ? s : 1 + (int)c.below(1000);
	size_t n = c.below(60);
	DESC("seeds " << s << " " << t << " draws " << n);
	if (n > 1 && s != t)
		c.nontrivial();
	RandomForTests<double> g(s), h(t);
	RandomForTests<float> f(s);
	uint64_t x = s, y = t;
	for (size_t i = 0; i < n; ++i) {
		x = x * 16807 % 2147483647;
		double a = g();
		CHECK(a == (double)x / 2147483647.0, "number " << i << " is " << a << " want " << (double)x / 2147483647.0);
		CHECK(a > 0 && a < 1, "out of the interval " << a);
		CHECK(std::fabs(f() - a) <= 1e-7, "single precision number " << i);
		if (c.flip()) {
			// another generator is independent of this one
			y = y * 16807 % 2147483647;
			double b = h();
			CHECK(b == (double)y / 2147483647.0, "second generator " << b << " want " << (double)y / 2147483647.0);
		}
	}
	// any seed whatever stays in the interval
	RandomForTests<double> any((int)(uint32_t)c.bits64());
	for (size_t i = 0; i < 10; ++i) {
		double a = any();
		CHECK(a > 0 && a < 1, "out of the interval for any seed " << a);
	}
}

PINNED(park_miller_ten_thousandth)
{
	PsimagLite::RandomForTests<double> g(1);
	double a = 0;
	for (int i = 0; i < 10000; ++i)
		a = g();
	CHECK(a == 1043618065 / 2147483647.0, "ten thousandth number of seed 1 is " << a * 2147483647.0);
}

PBT_MAIN
