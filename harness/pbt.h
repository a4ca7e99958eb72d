// pbt.h - a small property-based testing runner driven by recorded choice sequences.
//
// A case is a function of a sequence of bounded integer choices.  Fresh cases draw the choices
// from a generator seeded by (seed, property, case number); replays and shrinking feed a recorded
// sequence back (missing choices read as 0, choices too large are clamped), so every failure is a
// value that can be shrunk, stored in a text file and replayed without the generator.
//
// Cases run in forked workers.  The choices of the running case live in memory shared with the
// parent, so assertion failures, sanitizer reports, signals, exit() calls and hangs inside the code
// under test are caught, attributed to the case, shrunk and replayed like ordinary failures.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" inline const char* __attribute__((used, visibility("default"), no_sanitize("address")))
pbt_asan_opts_()
{
	return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
	       "hard_rss_limit_mb=3500:max_allocation_size_mb=3000:detect_odr_violation=0:print_legend=0";
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return pbt_asan_opts_(); }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:abort_on_error=1"; }
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options() { return "exitcode=66:abort_on_error=1:halt_on_error=1"; }
#endif

#ifdef PBT_COV // coverage of the code under test, for experiments
extern "C" void __gcov_dump(void);
#define PBT_DUMP __gcov_dump()
#else
#define PBT_DUMP ((void)0)
#endif

namespace pbt {

struct Discard { };

struct Fail {
	std::string msg;
};

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ULL;
	return h;
}

static const uint32_t MAX_CHOICES = 60000;

struct Slot { // shared between worker and parent
	std::atomic<uint64_t> caseIdx;
	std::atomic<uint32_t> sub;
	std::atomic<uint32_t> n;
	std::atomic<int>      state; // 0 idle, 1 running, 2 failed (message set), 3 finished all
	std::atomic<double>   start;
	char                  msg[4000];
	uint64_t              choices[MAX_CHOICES];
};

inline double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
	    .count();
}

class Ctx {
public:

	Ctx(uint64_t seed, Slot* slot)
	    : rng_(seed)
	    , slot_(slot)
	{ }

	Ctx(const std::vector<uint64_t>& replay, Slot* slot)
	    : replaying_(true)
	    , replay_(replay)
	    , slot_(slot)
	{ }

	// ---------------------------------------------------------- draws
	uint64_t below(uint64_t n) // uniform in [0,n)
	{
		if (n == 0)
			n = 1;
		uint64_t v = 0;
		if (bulk_) {
			bulkRng_ += 0x9e3779b97f4a7c15ULL;
			return mix(bulkRng_) % n;
		}
		if (replaying_) {
			v = (count_ < replay_.size()) ? replay_[count_] : 0;
			if (v >= n)
				v = n - 1;
		} else {
			v = next() % n;
		}
		if (count_ >= MAX_CHOICES)
			throw Discard();
		slot_->choices[count_++] = v;
		slot_->n.store(count_, std::memory_order_relaxed);
		return v;
	}

	// while it lives, draws come from a generator seeded by two recorded draws: for large
	// contents, whose size is shrunk but not their elements
	struct Bulk {
		Ctx& c;
		bool outer;
		explicit Bulk(Ctx& c_)
		    : c(c_)
		    , outer(c_.bulk_)
		{
			if (outer)
				return;
			c.bulkRng_ = c.bits64();
			c.bulk_    = true;
		}
		~Bulk() { c.bulk_ = outer; }
	};
	bool bulk() const { return bulk_; }

	// decided once per case: is this one of the rare cases of large dimensions?
	bool large(unsigned den = 500)
	{
		if (!largeDrawn_) {
			largeDrawn_ = true;
			large_      = chance(1, den);
			if (large_)
				label("large dimensions");
		}
		return large_;
	}

	long range(long lo, long hi) { return lo + static_cast<long>(below(hi - lo + 1)); }

	// small values more likely; shrinks to lo
	long skew(long lo, long hi)
	{
		long top = range(lo, hi);
		return range(lo, top);
	}

	bool flip() { return below(2) == 1; }

	// as range or skew, and rarely up to big
	long rare(long lo, long hi, long big, unsigned den = 60) { return chance(1, den) ? range(hi + 1, big) : range(lo, hi); }
	long skewRare(long lo, long hi, long big, unsigned den = 60) { return chance(1, den) ? range(hi + 1, big) : skew(lo, hi); }

	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }

	// integer in [-m,m], shrinks to 0
	long sint(long m)
	{
		uint64_t v = below(2 * m + 1);
		return (v & 1) ? -static_cast<long>((v + 1) / 2) : static_cast<long>(v / 2);
	}

	uint64_t bits64()
	{
		uint64_t hi = below(1ULL << 32);
		return (hi << 32) | below(1ULL << 32);
	}

	// a real in (-1,1) on a fine grid, shrinks to 0
	double unit() { return static_cast<double>(sint(1000000)) / 1000001.0; }

	double real01() { return static_cast<double>(below(1000001)) / 1000001.0; }

	template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }

	template <typename T> T pickOf(std::initializer_list<T> v)
	{
		return *(v.begin() + below(v.size()));
	}

	// index distributed according to weights
	unsigned weighted(std::initializer_list<unsigned> w)
	{
		unsigned total = 0;
		for (unsigned x : w)
			total += x;
		unsigned r = below(total);
		unsigned i = 0;
		for (unsigned x : w) {
			if (r < x)
				return i;
			r -= x;
			++i;
		}
		return 0;
	}

	// ---------------------------------------------------------- reporting
	void nontrivial() { nontrivial_ = true; }

	void label(const std::string& s)
	{
		labels_.push_back(s);
	}

	void labelIf(bool b, const std::string& s)
	{
		if (b)
			labels_.push_back(s);
	}

	bool                describing = false;
	std::ostringstream  log;
	bool                replaying() const { return replaying_; }
	bool                isNontrivial() const { return nontrivial_; }
	const std::vector<std::string>& labels() const { return labels_; }
	uint32_t            count() const { return count_; }

	uint64_t hash(uint64_t h) const
	{
		for (uint32_t i = 0; i < count_; ++i)
			h = mix(h ^ slot_->choices[i]);
		return h ? h : 1;
	}

private:

	uint64_t next()
	{
		rng_ += 0x9e3779b97f4a7c15ULL;
		uint64_t z = rng_;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}

	uint64_t                 rng_ = 0;
	bool                     replaying_ = false;
	bool                     bulk_ = false;
	bool                     largeDrawn_ = false;
	bool                     large_ = false;
	uint64_t                 bulkRng_ = 0;
	std::vector<uint64_t>    replay_;
	uint32_t                 count_ = 0;
	Slot*                    slot_ = nullptr;
	bool                     nontrivial_ = false;
	std::vector<std::string> labels_;
};

struct Sub {
	std::string                name;
	unsigned                   weight;
	std::function<void(Ctx&)> fn;
	double                     cpuLimit;
};

struct Pinned {
	std::string           name;
	std::function<void()> fn;
};

inline std::vector<Sub>& subs()
{
	static std::vector<Sub> s;
	return s;
}

inline std::vector<Pinned>& pinned()
{
	static std::vector<Pinned> s;
	return s;
}

struct RegisterSub {
	RegisterSub(const char* name, unsigned w, std::function<void(Ctx&)> f, double cpu = 10)
	{
		subs().push_back(Sub { name, w, f, cpu });
	}
};

struct RegisterPinned {
	RegisterPinned(const char* name, std::function<void()> f)
	{
		pinned().push_back(Pinned { name, f });
	}
};

// scratch directory, created by the runner, private to the process that asks for it
inline std::string& scratchRoot()
{
	static std::string s;
	return s;
}

inline std::string scratch()
{
	static std::string s;
	static pid_t       owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		s     = scratchRoot() + "/p" + std::to_string(owner);
		mkdir(s.c_str(), 0700);
	}
	return s;
}

struct LabelEntry {
	char                  name[56];
	std::atomic<uint64_t> count;
};

static const unsigned NLABELS  = 400;
static const uint64_t HASHCAP  = 1ULL << 22;
static const unsigned NSUBS    = 64;
static const unsigned NSAMPLES = 2;
static const unsigned SAMPLELEN = 1600;

struct Shared {
	std::atomic<uint64_t> evaluations, discarded, nontrivial, distinct;
	std::atomic<uint64_t> perSub[NSUBS], perSubNontrivial[NSUBS];
	std::atomic<int>      stop;
	std::atomic<int>      labelLock;
	LabelEntry            labels[NLABELS];
	std::atomic<int>      sampleClaim[NSUBS];
	char                  samples[NSUBS][NSAMPLES][SAMPLELEN];
	std::atomic<uint64_t> hashes[HASHCAP];
};

inline void* shmem(size_t n)
{
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		_exit(2);
	}
	return p;
}

class Runner {
public:

	Runner(int argc, char** argv)
	{
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (i + 1 < argc && a.substr(0, 2) == "--")
				opt_[a.substr(2)] = argv[++i];
			else
				opt_["mode"] = a;
		}
	}

	int main()
	{
		scratchRoot() = get("scratch", "/tmp");
		shared_ = static_cast<Shared*>(shmem(sizeof(Shared)));
		if (subs().size() > NSUBS) {
			std::cerr << "too many subs\n";
			return 2;
		}
		const std::string mode = get("mode", "run");
		if (mode == "replay")
			return replayMode();
		if (mode == "list") {
			for (auto& s : subs())
				std::cout << s.name << " weight " << s.weight << "\n";
			for (auto& p : pinned())
				std::cout << "pinned " << p.name << "\n";
			return 0;
		}
		return runMode();
	}

private:

	struct Outcome {
		int         kind = 0; // 0 pass, 1 failed check, 2 crash, 3 hang, 4 discard
		std::string msg;
		std::string desc;
		std::vector<uint64_t> used;
	};

	std::string get(const std::string& k, const std::string& d)
	{
		return opt_.count(k) ? opt_[k] : d;
	}

	static void setMsg(Slot* s, const std::string& m)
	{
		std::string t = m.substr(0, sizeof(s->msg) - 1);
		memcpy(s->msg, t.c_str(), t.size() + 1);
	}

	static void cpuTimer(double secs)
	{
		struct itimerval it;
		memset(&it, 0, sizeof(it));
		it.it_value.tv_sec = static_cast<long>(secs);
		setitimer(ITIMER_PROF, &it, nullptr);
	}

	// runs one case in this process.  returns 0 pass, 1 fail, 4 discard
	static int runCase(const Sub& sub, Ctx& c, Slot* slot)
	{
		slot->n     = 0;
		slot->start = now();
		slot->state = 1;
		int rc      = 0;
		cpuTimer(sub.cpuLimit);
		try {
			sub.fn(c);
		} catch (const Discard&) {
			rc = 4;
		} catch (const Fail& f) {
			setMsg(slot, f.msg);
			rc = 1;
		} catch (const std::exception& e) {
			setMsg(slot, std::string("unexpected exception: ") + e.what());
			rc = 1;
		} catch (const char* e) {
			setMsg(slot, std::string("unexpected exception (const char*): ") + e);
			rc = 1;
		} catch (...) {
			setMsg(slot, "unexpected exception of unknown type");
			rc = 1;
		}
		cpuTimer(0);
		return rc;
	}

	static void redirect(const std::string& errFile)
	{
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1);
		int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
		dup2(fd < 0 ? dn : fd, 2);
	}

	static std::string tail(const std::string& f, size_t n = 1500)
	{
		std::ifstream     in(f.c_str());
		std::stringstream ss;
		ss << in.rdbuf();
		std::string s = ss.str();
		// prefer the first sanitizer / assertion line
		size_t p = s.find("ERROR: AddressSanitizer");
		if (p == std::string::npos)
			p = s.find("runtime error:");
		if (p == std::string::npos)
			p = s.find("WARNING: ThreadSanitizer");
		if (p == std::string::npos)
			p = s.find("Assertion");
		if (p != std::string::npos) {
			size_t b = s.rfind('\n', p);
			s        = s.substr(b == std::string::npos ? 0 : b + 1);
			return s.substr(0, n);
		}
		return s.size() > n ? s.substr(s.size() - n) : s;
	}

	unsigned pickSub(uint64_t idx)
	{
		if (schedule_.empty()) {
			// interleave subs proportionally to weight
			std::vector<double> acc(subs().size(), 0);
			unsigned            total = 0;
			for (auto& s : subs())
				total += s.weight;
			for (unsigned t = 0; t < total; ++t) {
				unsigned best = 0;
				for (unsigned i = 0; i < subs().size(); ++i) {
					acc[i] += subs()[i].weight;
					if (acc[i] > acc[best])
						best = i;
				}
				acc[best] -= total;
				schedule_.push_back(best);
			}
		}
		return schedule_[idx % schedule_.size()];
	}

	uint64_t caseSeed(uint64_t idx, unsigned sub)
	{
		return mix(mix(seed_ * 0x2545F4914F6CDD1DULL + 77) ^ hashStr(subs()[sub].name)
		           ^ mix(idx + 1));
	}

	void recordLabel(const std::string& full)
	{
		static std::map<std::string, LabelEntry*> cache;
		auto it = cache.find(full);
		if (it == cache.end()) {
			while (shared_->labelLock.exchange(1)) { }
			LabelEntry* e = nullptr;
			for (unsigned i = 0; i < NLABELS; ++i) {
				if (!shared_->labels[i].name[0]) {
					strncpy(shared_->labels[i].name, full.c_str(), 55);
					e = &shared_->labels[i];
					break;
				}
				if (full.substr(0, 55) == shared_->labels[i].name) {
					e = &shared_->labels[i];
					break;
				}
			}
			shared_->labelLock = 0;
			it = cache.insert({ full, e }).first;
		}
		if (it->second)
			it->second->count++;
	}

	void accountCase(unsigned sub, const Ctx& c, int rc)
	{
		if (rc == 4) {
			shared_->discarded++;
			return;
		}
		shared_->evaluations++;
		shared_->perSub[sub]++;
		for (auto& l : c.labels())
			recordLabel(subs()[sub].name + ":" + l);
		if (!c.isNontrivial())
			return;
		shared_->nontrivial++;
		shared_->perSubNontrivial[sub]++;
		uint64_t h = c.hash(hashStr(subs()[sub].name));
		for (uint64_t i = 0; i < 64; ++i) {
			auto&    cell = shared_->hashes[(h + i) & (HASHCAP - 1)];
			uint64_t e    = 0;
			if (cell.compare_exchange_strong(e, h)) {
				shared_->distinct++;
				break;
			}
			if (e == h)
				break;
		}
		if (c.describing && !c.log.str().empty()) {
			int k = shared_->sampleClaim[sub]++;
			if (k < static_cast<int>(NSAMPLES)) {
				std::string s = c.log.str().substr(0, SAMPLELEN - 1);
				memcpy(shared_->samples[sub][k], s.c_str(), s.size() + 1);
			}
		}
	}

	// the worker loop.  from < to restricts to a prefix (used to confirm history dependent failures)
	void workerLoop(unsigned w, Slot* slot, uint64_t to, bool account, double deadline)
	{
		for (uint64_t idx = w; idx < to; idx += nworkers_) {
			if (shared_->stop || now() > deadline)
				break;
			unsigned sub  = pickSub(idx);
			slot->caseIdx = idx;
			slot->sub     = sub;
			if (lseek(2, 0, SEEK_CUR) > 0) {
				if (ftruncate(2, 0)) { }
				lseek(2, 0, SEEK_SET);
			}
			Ctx c(caseSeed(idx, sub), slot);
			c.describing = account && shared_->sampleClaim[sub] < static_cast<int>(NSAMPLES);
			int rc       = runCase(subs()[sub], c, slot);
			if (rc == 1) {
				slot->state = 2;
				fflush(nullptr);
				PBT_DUMP;
				_exit(3);
			}
			if (account)
				accountCase(sub, c, rc);
		}
		slot->state = 3;
		fflush(nullptr);
		PBT_DUMP;
		_exit(0);
	}

	pid_t forkWorker(unsigned w, Slot* slot, uint64_t to, bool account, double deadline)
	{
		slot->state = 0;
		slot->start = now();
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			redirect(scratchRoot() + "/err" + std::to_string(w));
			workerLoop(w, slot, to, account, deadline);
		}
		return pid;
	}

	// run a choice sequence in a fresh process
	Outcome runIsolated(unsigned sub, const std::vector<uint64_t>& choices, bool wantDesc)
	{
		Slot* slot = extraSlot_;
		slot->state = 0;
		slot->msg[0] = 0;
		std::string errf  = scratchRoot() + "/erriso";
		std::string descf = scratchRoot() + "/desc";
		fflush(nullptr);
		double t0  = now();
		pid_t  pid = fork();
		if (pid == 0) {
			redirect(errf);
			Ctx c(choices, slot);
			c.describing = wantDesc;
			int rc       = runCase(subs()[sub], c, slot);
			if (wantDesc) {
				std::ofstream f(descf.c_str());
				f << c.log.str();
			}
			slot->state = (rc == 1) ? 2 : 3;
			fflush(nullptr);
			PBT_DUMP;
			_exit(rc == 1 ? 3 : (rc == 4 ? 4 : 0));
		}
		int    st   = 0;
		bool   hang = false;
		double wall = 6 * subs()[sub].cpuLimit;
		while (true) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid)
				break;
			if (now() - t0 > wall) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				hang = true;
				break;
			}
			usleep(now() - t0 < 0.02 ? 200 : 2000);
		}
		Outcome o;
		uint32_t n = slot->n;
		o.used.assign(slot->choices, slot->choices + n);
		if (hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)) {
			o.kind = 3;
			o.msg  = "no answer within the limit (hang)";
		} else if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && slot->state == 2) {
			o.kind = 1;
			o.msg  = slot->msg;
		} else if (WIFEXITED(st) && WEXITSTATUS(st) == 4 && slot->state == 3) {
			o.kind = 4;
		} else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 3) {
			o.kind = 0;
		} else {
			o.kind = 2;
			std::ostringstream m;
			if (WIFSIGNALED(st))
				m << "killed by signal " << WTERMSIG(st);
			else
				m << "process exited with status " << WEXITSTATUS(st);
			m << ": " << tail(errf);
			o.msg = m.str();
		}
		if (wantDesc && o.kind != 2 && o.kind != 3) {
			std::ifstream     in(descf.c_str());
			std::stringstream ss;
			ss << in.rdbuf();
			o.desc = ss.str();
		}
		return o;
	}

	static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
	{
		if (a.size() != b.size())
			return a.size() < b.size();
		return a < b;
	}

	std::vector<uint64_t> shrink(unsigned sub, std::vector<uint64_t> best, int kind, double budget)
	{
		const double end   = now() + budget;
		unsigned     tries = 0;
		auto         attempt = [&](const std::vector<uint64_t>& cand) -> bool {
                        if (now() > end || tries > 4000)
                                return false;
                        ++tries;
                        Outcome o = runIsolated(sub, cand, false);
                        if (o.kind != kind)
                                return false;
                        std::vector<uint64_t> u = o.used;
                        while (!u.empty() && u.back() == 0)
                                u.pop_back();
                        if (kind == 2 || kind == 3) {
                                // trailing draws may be missing after a crash: keep the candidate itself
                                u = cand;
                        }
                        if (simpler(u, best)) {
                                best = u;
                                return true;
                        }
                        return false;
		};
		bool improved = true;
		while (improved && now() < end) {
			improved = false;
			// delete blocks
			for (size_t len : { 64, 16, 8, 4, 3, 2, 1 }) {
				for (long i = static_cast<long>(best.size()) - static_cast<long>(len); i >= 0;
				     i -= (len > 4 ? static_cast<long>(len) / 2 : 1)) {
					if (i + len > best.size())
						continue;
					std::vector<uint64_t> c(best);
					c.erase(c.begin() + i, c.begin() + i + len);
					if (attempt(c))
						improved = true;
					if (now() > end)
						break;
				}
			}
			// delete one and decrement an earlier one (lists with a length prefix)
			for (size_t i = 0; i < best.size() && i < 40 && now() < end; ++i) {
				if (best[i] == 0)
					continue;
				for (size_t len : { 1, 2, 3, 4 }) {
					bool done = false;
					for (size_t j = i + 1; j + len <= best.size() && j < i + 60; ++j) {
						std::vector<uint64_t> c(best);
						c[i]--;
						c.erase(c.begin() + j, c.begin() + j + len);
						if (attempt(c)) {
							improved = true;
							done     = true;
							break;
						}
						if (now() > end)
							break;
					}
					if (done)
						break;
				}
			}
			// zero blocks, then minimise values
			for (size_t len : { 8, 4, 2, 1 }) {
				for (size_t i = 0; i + len <= best.size() && now() < end; ++i) {
					bool                  any = false;
					std::vector<uint64_t> c(best);
					for (size_t k = i; k < i + len; ++k) {
						any |= c[k] != 0;
						c[k] = 0;
					}
					if (any && attempt(c))
						improved = true;
				}
			}
			for (size_t i = 0; i < best.size() && now() < end; ++i) {
				uint64_t lo = 0, hi = best[i];
				while (lo < hi && now() < end) {
					uint64_t              mid = lo + (hi - lo) / 2;
					std::vector<uint64_t> c(best);
					if (i >= c.size())
						break;
					c[i] = mid;
					if (attempt(c)) {
						improved = true;
						hi       = mid;
						if (i >= best.size())
							break;
					} else
						lo = mid + 1;
				}
			}
		}
		return best;
	}

	static void writeReplay(const std::string& file,
	                        const std::string& subName,
	                        const std::vector<uint64_t>& ch,
	                        const std::string& extra)
	{
		std::ofstream f(file.c_str());
		f << "sub " << subName << "\nchoices";
		for (auto x : ch)
			f << " " << x;
		f << "\n";
		std::istringstream in(extra);
		std::string        line;
		while (std::getline(in, line))
			f << "# " << line << "\n";
	}

	static std::string js(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char ch : s) {
			char buf[8];
			if (ch == '"' || ch == '\\') {
				r += '\\';
				r += static_cast<char>(ch);
			} else if (ch == '\n')
				r += "\\n";
			else if (ch < 32 || ch > 126) {
				snprintf(buf, sizeof(buf), "\\u%04x", ch);
				r += buf;
			} else
				r += static_cast<char>(ch);
		}
		return r + "\"";
	}

	void writeStats(const std::string& file, const std::vector<std::pair<std::string, std::string>>& pins, const std::string& failure)
	{
		std::ofstream f(file.c_str());
		f << "{\"evaluations\":" << shared_->evaluations << ",\"discarded\":" << shared_->discarded
		  << ",\"nontrivial\":" << shared_->nontrivial
		  << ",\"distinct_nontrivial\":" << shared_->distinct << ",\"per_sub\":{";
		for (unsigned i = 0; i < subs().size(); ++i)
			f << (i ? "," : "") << js(subs()[i].name) << ":[" << shared_->perSub[i] << ","
			  << shared_->perSubNontrivial[i] << "]";
		f << "},\"classes\":{";
		bool first = true;
		for (unsigned i = 0; i < NLABELS && shared_->labels[i].name[0]; ++i) {
			f << (first ? "" : ",") << js(shared_->labels[i].name) << ":" << shared_->labels[i].count;
			first = false;
		}
		f << "},\"samples\":[";
		first = true;
		for (unsigned k = 0; k < NSAMPLES; ++k)
			for (unsigned i = 0; i < subs().size(); ++i)
				if (shared_->samples[i][k][0]) {
					f << (first ? "" : ",") << js(subs()[i].name + ": " + shared_->samples[i][k]);
					first = false;
				}
		f << "],\"pinned\":{";
		first = true;
		for (auto& p : pins) {
			f << (first ? "" : ",") << js(p.first) << ":" << js(p.second);
			first = false;
		}
		f << "},\"failure\":" << (failure.empty() ? "null" : failure) << "}\n";
	}

	std::string runPinned(const Pinned& p) // "" pass
	{
		Slot* slot   = extraSlot_;
		slot->state  = 0;
		slot->msg[0] = 0;
		slot->sub    = 0;
		std::string errf = scratchRoot() + "/errpin";
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			redirect(errf);
			Sub s { p.name, 1, [&](Ctx&) { p.fn(); }, 20 };
			Ctx c(std::vector<uint64_t>(), slot);
			int rc      = runCase(s, c, slot);
			slot->state = (rc == 1) ? 2 : 3;
			fflush(nullptr);
			PBT_DUMP;
			_exit(rc == 1 ? 3 : 0);
		}
		int    st = 0;
		double t0 = now();
		while (waitpid(pid, &st, WNOHANG) != pid) {
			if (now() - t0 > 100) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
			usleep(500);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 3)
			return "";
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && slot->state == 2)
			return std::string("failed: ") + slot->msg;
		return "crashed or hung: " + tail(errf, 500);
	}

	int replayMode()
	{
		extraSlot_ = static_cast<Slot*>(shmem(sizeof(Slot)));
		std::ifstream in(get("file", "").c_str());
		std::string   word, subName, line;
		std::vector<uint64_t> ch;
		uint64_t shard = 0, to = 0, nw = 0, sd = 0;
		std::string pin;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			ls >> word;
			if (word == "sub")
				ls >> subName;
			else if (word == "pinned")
				ls >> pin;
			else if (word == "shard")
				ls >> shard >> to >> nw >> sd;
			else if (word == "choices") {
				uint64_t x;
				while (ls >> x)
					ch.push_back(x);
			}
		}
		if (!pin.empty()) {
			for (auto& p : pinned())
				if (p.name == pin) {
					std::string r = runPinned(p);
					std::cout << (r.empty() ? "PASS" : "FAIL: " + r) << "\n";
					return r.empty() ? 0 : 1;
				}
			return 2;
		}
		if (nw) {
			nworkers_ = nw;
			seed_     = sd;
			Slot* s   = extraSlot_;
			pid_t pid = forkWorker(shard, s, to + 1, false, now() + 600);
			int   st  = 0;
			waitpid(pid, &st, 0);
			bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == 3;
			std::cout << (ok ? "PASS" : std::string("FAIL: ") + s->msg) << "\n";
			return ok ? 0 : 1;
		}
		for (unsigned i = 0; i < subs().size(); ++i)
			if (subs()[i].name == subName) {
				Outcome o = runIsolated(i, ch, true);
				std::cout << (o.kind == 0 ? "PASS" : (o.kind == 4 ? "DISCARD" : "FAIL: " + o.msg))
				          << "\n"
				          << o.desc << "\n";
				return (o.kind == 0 || o.kind == 4) ? 0 : 1;
			}
		std::cerr << "unknown sub " << subName << "\n";
		return 2;
	}

	int runMode()
	{
		seed_            = std::stoull(get("seed", "1"));
		const uint64_t N = std::stoull(get("cases", "1000"));
		nworkers_        = std::stoul(get("workers", "8"));
		const double T   = std::stod(get("time", "60"));
		std::string only = get("only", "");
		if (!only.empty())
			for (auto& s : subs())
				if (s.name != only)
					s.weight = 0;
		std::string replayDir = get("replays", ".");
		std::string prop      = get("prop", "X");
		extraSlot_            = static_cast<Slot*>(shmem(sizeof(Slot)));

		std::vector<std::pair<std::string, std::string>> pins;
		for (auto& p : pinned())
			pins.push_back({ p.name, runPinned(p) });

		std::vector<Slot*> slots;
		std::vector<pid_t> pids;
		const double       deadline = now() + T;
		for (unsigned w = 0; w < nworkers_; ++w) {
			slots.push_back(static_cast<Slot*>(shmem(sizeof(Slot))));
			pids.push_back(forkWorker(w, slots[w], N, true, deadline));
		}
		std::vector<int> kind(nworkers_, -1); // -1 running, 0 ok, 1.. failing
		unsigned         live = nworkers_;
		while (live) {
			bool moved = false;
			for (unsigned w = 0; w < nworkers_; ++w) {
				if (kind[w] != -1)
					continue;
				int   st = 0;
				pid_t r  = waitpid(pids[w], &st, WNOHANG);
				if (r == pids[w]) {
					moved = true;
					--live;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->state == 3)
						kind[w] = 0;
					else if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && slots[w]->state == 2)
						kind[w] = 1;
					else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
						kind[w] = 3;
					else
						kind[w] = 2;
					if (kind[w])
						shared_->stop = 1;
				} else if (slots[w]->state == 1
				           && now() - slots[w]->start
				               > 6 * subs()[slots[w]->sub].cpuLimit) {
					kill(pids[w], SIGKILL);
					waitpid(pids[w], &st, 0);
					kind[w] = 3;
					--live;
					shared_->stop = 1;
				}
			}
			if (!moved)
				usleep(2000);
		}
		// failures, lowest case first
		std::vector<std::pair<uint64_t, unsigned>> fails;
		for (unsigned w = 0; w < nworkers_; ++w)
			if (kind[w] > 0)
				fails.push_back({ slots[w]->caseIdx, w });
		std::sort(fails.begin(), fails.end());
		std::string failure;
		std::string unconfirmed;
		for (auto& fl : fails) {
			unsigned w   = fl.second;
			unsigned sub = slots[w]->sub;
			uint32_t n   = slots[w]->n;
			std::vector<uint64_t> ch(slots[w]->choices, slots[w]->choices + n);
			std::string           firstMsg = kind[w] == 1 ? slots[w]->msg : tail(scratchRoot() + "/err" + std::to_string(w));
			std::string file = replayDir + "/" + prop + "_" + subs()[sub].name + ".replay";
			// reproduce in isolation; schedule dependent subs may need several attempts
			const unsigned attempts = std::stoul(get("attempts", "3"));
			Outcome        o;
			unsigned       hits = 0;
			for (unsigned t = 0; t < attempts; ++t) {
				Outcome p = runIsolated(sub, ch, false);
				if (p.kind != 0 && p.kind != 4) {
					++hits;
					o = p;
					if (attempts > 3)
						break;
				}
			}
			if (hits == 0) {
				// depends on earlier cases in the same process: replay the shard
				unsigned again = 0;
				for (unsigned t = 0; t < 3; ++t) {
					shared_->stop = 0;
					Slot* s   = extraSlot_;
					pid_t pid = forkWorker(w, s, fl.first + 1, false, now() + 150);
					int   st  = 0;
					waitpid(pid, &st, 0);
					if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == 3)
					    && s->caseIdx == fl.first)
						++again;
					else
						break;
				}
				if (again == 3) {
					std::ofstream f(file.c_str());
					f << "shard " << w << " " << fl.first << " " << nworkers_ << " " << seed_
					  << "\n# fails only after the earlier cases of its shard ran in the same "
					     "process\n# "
					  << firstMsg << "\n";
					failure = "{\"sub\":" + js(subs()[sub].name) + ",\"replay\":" + js(file)
					    + ",\"msg\":" + js(firstMsg) + "}";
					break;
				}
				unconfirmed += subs()[sub].name + " case " + std::to_string(fl.first) + ": "
				    + firstMsg + "\n";
				continue;
			}
			if (attempts <= 3 && hits < attempts) {
				unconfirmed += subs()[sub].name + " case " + std::to_string(fl.first)
				    + " (reproduced only " + std::to_string(hits) + " times): " + firstMsg + "\n";
				continue;
			}
			std::vector<uint64_t> best = ch;
			if (attempts <= 3)
				best = shrink(sub, ch, o.kind, o.kind == 3 ? 45 : 40);
			Outcome last;
			unsigned ok = 0;
			for (unsigned t = 0; t < attempts; ++t) {
				Outcome p = runIsolated(sub, best, true);
				if (p.kind == o.kind) {
					++ok;
					last = p;
					if (attempts > 3)
						break;
				}
			}
			if (ok < (attempts > 3 ? 1 : 3)) {
				best = ch;
				last = o;
			}
			writeReplay(file,
			            subs()[sub].name,
			            best,
			            std::string("seed ") + std::to_string(seed_) + " case "
			                + std::to_string(fl.first) + "\n" + last.msg + "\n" + last.desc);
			failure = "{\"sub\":" + js(subs()[sub].name) + ",\"replay\":" + js(file)
			    + ",\"msg\":" + js(last.msg) + ",\"input\":" + js(last.desc) + "}";
			break;
		}
		if (failure.empty() && !unconfirmed.empty())
			std::cerr << "UNCONFIRMED: " << unconfirmed << "\n";
		writeStats(get("out", "stats.json"), pins, failure);
		if (!failure.empty())
			return 1;
		return unconfirmed.empty() ? 0 : 4;
	}

	std::map<std::string, std::string> opt_;
	Shared*                            shared_    = nullptr;
	Slot*                              extraSlot_ = nullptr;
	uint64_t                           seed_      = 1;
	unsigned                           nworkers_  = 8;
	std::vector<unsigned>              schedule_;
};

// ---------------------------------------------------------------- helpers for harnesses
template <typename F> bool throws(F f)
{
	try {
		f();
	} catch (const Discard&) {
		throw;
	} catch (const Fail&) {
		throw;
	} catch (...) {
		return true;
	}
	return false;
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, weight) { body using Ctx& c }
#define PROP(name, weight)                                                                          \
	static void              prop_##name(pbt::Ctx& c);                                          \
	static pbt::RegisterSub reg_##name(#name, weight, prop_##name);                             \
	static void              prop_##name([[maybe_unused]] pbt::Ctx& c)
#define PROP_T(name, weight, cpu)                                                                   \
	static void              prop_##name(pbt::Ctx& c);                                          \
	static pbt::RegisterSub reg_##name(#name, weight, prop_##name, cpu);                        \
	static void              prop_##name([[maybe_unused]] pbt::Ctx& c)
#define PINNED(name)                                                                                \
	static void                 pin_##name();                                                   \
	static pbt::RegisterPinned regp_##name(#name, pin_##name);                                  \
	static void                 pin_##name()
#define FAIL(stuff)                                                                                 \
	do {                                                                                        \
		std::ostringstream pbt_os;                                                          \
		pbt_os << std::setprecision(17) << stuff;                                           \
		throw pbt::Fail { pbt_os.str() };                                                   \
	} while (0)
#define CHECK(cond, stuff)                                                                          \
	do {                                                                                        \
		if (!(cond))                                                                        \
			FAIL("[" << __LINE__ << "] " << stuff);                                     \
	} while (0)
#define DESC(stuff)                                                                                 \
	do {                                                                                        \
		if (c.describing)                                                                   \
			c.log << std::setprecision(17) << stuff;                                    \
	} while (0)
#define PBT_MAIN                                                                                    \
	int main(int argc, char** argv)                                                             \
	{                                                                                           \
		pbt::Runner r(argc, argv);                                                          \
		return r.main();                                                                    \
	}
