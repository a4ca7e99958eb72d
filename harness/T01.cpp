// PBT-SOURCES: Concurrency.cpp Mpi.cpp PsimagLite.cpp
// PBT-SAN: tsan
// PBT-DEFS: -fopenmp
// PBT-LIBS: gomp
// PBT-ATTEMPTS: 40
// PBT-QUICK: 12000
// PBT-THOROUGH: 400000
// PBT-RULE: a case runs one to three parallel loops through one of ten loop drivers with generated task counts, thread counts, weights, balancers, stack sizes and per-task delays under the thread sanitizer,
// PBT-RULE: counting executions per task with unsynchronized counters; non-trivial = at least two threads and two tasks, or a loop during which the creation of a thread fails
#define _GNU_SOURCE 1
#include <errno.h>
#include <pthread.h>
// creating a thread fails when the test says so
static int createsLeft = -1;
static int createThread(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
	if (createsLeft == 0)
		return EAGAIN;
	if (createsLeft > 0)
		--createsLeft;
	return pthread_create(t, a, f, x);
}
#define pthread_create createThread
#include "Concurrency.h"
#include "InterNode.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
#include "NoPthreadsNg.h"
#include "Parallelizer.h"
#include "Parallelizer2Pthread.h"
#include "pbt.h"
#include <atomic>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <set>
#define Parallelizer2 Parallelizer2SerialForm
#include "Parallelizer2Serial.h"
#undef Parallelizer2
#define Parallelizer2 Parallelizer2OpenMPForm
#include "Parallelizer2OpenMP.h"
#undef Parallelizer2
#define PthreadFunctionStruct PthreadFunctionStructOld
#define thread_function_wrapper thread_function_wrapper_old
#include "PthreadsAndMpi.h"
#undef PthreadFunctionStruct
#undef thread_function_wrapper
using namespace PsimagLite;

// the OpenMP runtime is not built with the thread sanitizer, which therefore does not see its fork and join
extern "C" const char* __tsan_default_suppressions() { return "race:_omp_fn\nrace:OpenMPForm\n"; }

typedef std::vector<SizeType> VS;

struct Record {
	std::vector<int>               hits;   // unsynchronized on purpose, one slot per task
	std::vector<long>              thread; // who ran the task
	std::vector<double>            sum;    // one slot per thread
	std::unique_ptr<std::atomic<int>[]> busy;
	std::vector<int>               delay;
	std::vector<std::vector<int>>  cpus;   // per thread: CPUs it may run on
	std::vector<size_t>            stack;  // per thread: stack size seen
	std::atomic<int>               bad { 0 };
	std::atomic<int>               running { 0 };
	long                           locked = 0;
	Concurrency::MutexType         mutex;
	size_t                         nthreads;
	bool                           openmp = false;
	SizeType                       start = 0;

	Record(size_t ntasks, size_t nth)
	    : hits(ntasks, 0)
	    , thread(ntasks, -1)
	    , sum(nth, 0)
	    , busy(new std::atomic<int>[nth])
	    , delay(ntasks, 0)
	    , cpus(nth)
	    , stack(nth, 0)
	    , nthreads(nth)
	{
		for (size_t i = 0; i < nth; ++i)
			busy[i] = 0;
		Concurrency::mutexInit(&mutex);
	}
	~Record() { Concurrency::mutexDestroy(&mutex); }

	void run(size_t task, size_t th)
	{
		++running;
		if (task < start || task - start >= hits.size()) {
			bad = 1;
			return;
		}
		task -= start;
		if (th >= nthreads) {
			bad = 2;
			return;
		}
		if (busy[th].fetch_add(1) != 0)
			bad = 3;
		switch (delay[task]) {
		case 1: sched_yield(); break;
		case 2: usleep(50); break;
		case 3: usleep(400); break;
		default: break;
		}
		hits[task]++;
		thread[task] = th;
		sum[th] += value(task);
		Concurrency::mutexLock(&mutex);
		locked += task + 1;
		Concurrency::mutexUnlock(&mutex);
		if (stack[th] == 0) {
			pthread_attr_t a;
			if (pthread_getattr_np(pthread_self(), &a) == 0) {
				size_t sz = 0;
				pthread_attr_getstacksize(&a, &sz);
				stack[th] = sz;
				cpu_set_t set;
				if (pthread_getaffinity_np(pthread_self(), sizeof(set), &set) == 0)
					for (int i = 0; i < 1024; ++i)
						if (CPU_ISSET(i, &set))
							cpus[th].push_back(i);
				pthread_attr_destroy(&a);
			}
		}
		busy[th].fetch_sub(1);
		--running;
	}

	static double value(size_t task) { return (task * 37 % 101) + 0.5; }

	void check(const char* what)
	{
		CHECK(running == 0, what << ": a task was still running when the loop returned");
		CHECK(bad != 1, what << ": a task number outside the range was executed");
		CHECK(bad != 2, what << ": a thread number not below " << nthreads << " was used");
		CHECK(bad != 3, what << ": two tasks ran at the same time under one thread number");
		double total = 0, want = 0;
		long   lk = 0;
		for (size_t i = 0; i < hits.size(); ++i) {
			CHECK(hits[i] == 1, what << ": task " << i << " of " << hits.size() << " ran " << hits[i] << " times");
			want += value(i);
			lk += i + 1;
		}
		for (double s : sum)
			total += s;
		CHECK(total == want, what << ": per-thread sums give " << total << " instead of " << want);
		CHECK(locked == lk, what << ": the sum under the lock is " << locked << " instead of " << lk);
	}
};

static void genDelays(pbt::Ctx& c, Record& r)
{
	unsigned style = c.below(4);
	if (r.delay.size() > 200)
		return;
	for (auto& d : r.delay)
		d = style == 0 ? 0 : (style == 1 ? (c.chance(1, 6) ? 3 : 0) : (style == 2 ? c.below(3) : (&d == &r.delay.back() ? 3 : 0)));
}

// the shape of helper the drivers ask for
struct Helper {
	Record& r;
	size_t  n;
	explicit Helper(Record& r_)
	    : r(r_)
	    , n(r_.hits.size())
	{ }
	SizeType tasks() const { return n; }
	void     doTask(SizeType task, SizeType th) { r.run(task, th); }
	void     thread_function_(SizeType th, SizeType block, SizeType total, pthread_mutex_t*)
	{
		for (SizeType p = 0; p < block; ++p) {
			SizeType t = th * block + p;
			if (t >= total)
				break;
			r.run(t, th);
		}
	}
};

// a caller's own balancer: any assignment of the tasks to the threads that will exist
struct ListBalancer {
	std::vector<VS> lists;
	ListBalancer(SizeType ntasks, SizeType nthreads)
	    : lists(nthreads)
	{
		for (SizeType i = 0; i < ntasks; ++i)
			lists[i % std::min(ntasks, nthreads)].push_back(i);
	}
	SizeType blockSize(SizeType th) const { return lists.at(th).size(); }
	SizeType taskNumber(SizeType th, SizeType p) const { return lists.at(th).at(p); }
};

struct Shape {
	size_t ntasks, nth, stack;
	bool   pin;
};

static Shape genShape(pbt::Ctx& c)
{
	Shape s;
	s.nth    = c.range(1, 8);
	if (c.chance(1, 24)) {
		s.nth = c.range(9, 40);
		c.label("more than eight threads");
	}
	s.ntasks = c.chance(1, 3) ? c.range(0, s.nth + 1) : c.skew(0, 40);
	if (c.chance(1, 300)) {
		s.ntasks = 65500 + c.below(3000);
		c.label("more than 65500 tasks");
	} else if (c.chance(1, 30)) {
		s.ntasks = c.skew(41, 1500);
		c.label("more than forty tasks");
	}
	s.stack  = c.chance(1, 3) ? c.pickOf({ 3u, 1u, 2u, 16u, 24u }) * 1024u * 1024u : 0;
	s.pin = c.chance(1, 6);
	return s;
}

static VS genWeights(pbt::Ctx& c, size_t n)
{
	VS       w(n);
	unsigned top = c.pickOf({ 1u, 3u, 50u });
	for (size_t i = 0; i < n; ++i) // the weights of a long list repeat
		w[i] = i < 200 ? c.below(top + 1) : w[i - 200];
	return w;
}

static ListBalancer genList(pbt::Ctx& c, size_t ntasks, size_t nth)
{
	ListBalancer b(0, nth);
	size_t       m = std::min(ntasks, nth);
	SizeType     far = ntasks > 1500 ? ntasks - 200 : 0; // only the last tasks of a long list are placed at random
	for (SizeType i = 0; i < far; ++i)
		b.lists[i % m].push_back(i);
	for (SizeType i = far; i < ntasks; ++i) {
		VS& l = b.lists[c.below(m)];
		l.insert(l.begin() + c.below(l.size() + 1), i);
	}
	return b;
}

static void checkThreads(const Shape& s, Record& r, bool ours)
{
	if (!ours)
		return;
	std::set<int> used;
	size_t        live = 0;
	cpu_set_t     me;
	sched_getaffinity(0, sizeof(me), &me);
	for (size_t i = 0; i < r.nthreads; ++i) {
		if (r.stack[i] == 0)
			continue;
		++live;
		if (s.stack)
			CHECK(r.stack[i] >= s.stack, "thread " << i << " has a stack of " << r.stack[i] << " bytes, asked for " << s.stack);
		if (!s.pin)
			continue;
		if (int(i) < CPU_COUNT(&me)) {
			CHECK(r.cpus[i].size() == 1, "thread " << i << " may run on " << r.cpus[i].size() << " processors");
			CHECK(used.insert(r.cpus[i][0]).second, "two threads are bound to processor " << r.cpus[i][0]);
		}
	}
}

static void describe(pbt::Ctx& c, const std::string& what, const Shape& s)
{
	DESC(what << " tasks " << s.ntasks << " threads " << s.nth << " stack " << s.stack << " pinned " << s.pin);
}

PROP(pthreads_ng, 5)
{
	size_t loops = c.range(1, 3);
	for (size_t l = 0; l < loops; ++l) {
		Shape             s = genShape(c);
		CodeSectionParams cs(s.nth, 1, s.pin, s.stack);
		Record            r(s.ntasks, s.nth);
		genDelays(c, r);
		Helper   h(r);
		unsigned kind = c.below(7);
		describe(c, ("PthreadsNg form " + std::to_string(kind)), s);
		if (s.nth >= 2 && s.ntasks >= 2)
			c.nontrivial();
		c.labelIf(s.ntasks < s.nth, "fewer tasks than threads");
		switch (kind) {
		case 0: {
			Parallelizer<Helper> p(cs);
			CHECK(p.stackSize() == s.stack && p.affinities() == s.pin, "parameters not kept");
			p.loopCreate(h);
			if (c.flip()) { // the same driver again
				r.check("first of two loops");
				std::fill(r.hits.begin(), r.hits.end(), 0);
				std::fill(r.sum.begin(), r.sum.end(), 0);
				r.locked = 0;
				p.loopCreate(h);
			}
			break;
		}
		case 1: {
			Parallelizer<Helper, LoadBalancerWeights> p(cs);
			p.loopCreate(h, genWeights(c, s.ntasks));
			break;
		}
		case 2: {
			Parallelizer<Helper, LoadBalancerWeights> p(cs);
			p.loopCreate(h);
			break;
		}
		case 3: {
			PthreadsNg<Helper, LoadBalancerDefault> p(cs);
			LoadBalancerDefault                     b(s.ntasks, s.nth);
			p.loopCreate(h, b);
			break;
		}
		case 4: {
			PthreadsNg<Helper, ListBalancer> p(cs);
			p.loopCreate(h, genList(c, s.ntasks, s.nth));
			break;
		}
		case 5: {
			PthreadsNg<Helper, ListBalancer> p(cs);
			p.loopCreate(h);
			break;
		}
		default: {
			PthreadsNg<Helper, LoadBalancerMpi> p(cs);
			p.setAffinities(s.pin);
			p.loopCreate(h);
			break;
		}
		}
		r.check("PthreadsNg");
		checkThreads(s, r, true);
	}
}

PROP(parallelizer2, 4)
{
	size_t loops = c.range(1, 3);
	for (size_t l = 0; l < loops; ++l) {
		Shape             s = genShape(c);
		s.pin = false;
		CodeSectionParams cs(s.nth, 1, false, s.stack);
		Record            r(s.ntasks, s.nth);
		genDelays(c, r);
		r.start       = c.flip() ? 0 : c.range(1, 50);
		unsigned kind = c.below(4);
		describe(c, ("Parallelizer2 form " + std::to_string(kind) + " from " + std::to_string(r.start)), s);
		if (s.nth >= 2 && s.ntasks >= 2)
			c.nontrivial();
		c.labelIf(s.ntasks < s.nth, "fewer tasks than threads");
		auto     f   = [&r](SizeType task, SizeType th) { r.run(task, th); };
		SizeType end = r.start + s.ntasks;
		switch (kind) {
		case 0: {
			Parallelizer2<> p(cs);
			CHECK(p.numberOfThreads() == s.nth, "threads " << p.numberOfThreads());
			p.parallelFor(r.start, end, f);
			break;
		}
		case 1: {
			Parallelizer2<LoadBalancerWeights> p(cs);
			p.parallelFor(r.start, end, f);
			break;
		}
		case 2: {
			Parallelizer2<LoadBalancerWeights> p(cs);
			LoadBalancerWeights                b(genWeights(c, s.ntasks), s.nth);
			p.parallelFor(r.start, end, f, b);
			break;
		}
		default: {
			Parallelizer2<ListBalancer> p(cs);
			ListBalancer                b = genList(c, s.ntasks, s.nth);
			p.parallelFor(r.start, end, f, b);
			break;
		}
		}
		r.check("Parallelizer2");
		checkThreads(s, r, true);
	}
}

PROP(old_pthreads, 1)
{
	Shape  s = genShape(c);
	Record r(s.ntasks, s.nth);
	genDelays(c, r);
	Helper h(r);
	describe(c, "Pthreads", s);
	if (s.nth >= 2 && s.ntasks >= 2)
		c.nontrivial();
	if (c.flip()) {
		Pthreads<Helper> p(s.nth);
		CHECK(p.threads() == s.nth, "threads " << p.threads());
		p.loopCreate(s.ntasks, h);
	} else {
		PthreadsAndMpi<Helper> p(s.nth);
		CHECK(p.threads() == s.nth && p.mpiProcs() == 1, "threads " << p.threads());
		p.loopCreate(s.ntasks, h);
	}
	r.check("Pthreads");
}

// the system has no more threads: the loop says so, or does every task all the same
PROP(no_more_threads, 1)
{
	Shape s = genShape(c);
	if (s.ntasks > 1500)
		s.ntasks = 1500;
	s.pin = c.chance(1, 4);
	CodeSectionParams cs(s.nth, 1, s.pin, s.stack);
	Record            r(s.ntasks, s.nth);
	genDelays(c, r);
	Helper   h(r);
	unsigned kind = c.below(5);
	int      left = c.below(s.nth);
	describe(c, "threads left " + std::to_string(left) + " form " + std::to_string(kind), s);
	if (s.nth >= 2 && s.ntasks >= 2)
		c.nontrivial();
	auto f    = [&r](SizeType task, SizeType th) { r.run(task, th); };
	auto loop = [&] {
		switch (kind) {
		case 0:
			Parallelizer<Helper>(cs).loopCreate(h);
			break;
		case 1:
			Parallelizer<Helper, LoadBalancerWeights>(cs).loopCreate(h);
			break;
		case 2:
			Parallelizer2<>(cs).parallelFor(0, s.ntasks, f);
			break;
		case 3:
			Parallelizer2<LoadBalancerWeights>(cs).parallelFor(0, s.ntasks, f);
			break;
		default:
			Pthreads<Helper>(s.nth).loopCreate(s.ntasks, h);
			break;
		}
	};
	createsLeft = left;
	bool failed = pbt::throws(loop);
	createsLeft = -1;
	c.label(failed ? "loop failed" : "loop done");
	if (failed) {
		CHECK(r.running == 0, "a task was still running when the loop failed");
		for (size_t i = 0; i < r.hits.size(); ++i)
			CHECK(r.hits[i] <= 1, "task " << i << " ran " << r.hits[i] << " times");
		std::fill(r.hits.begin(), r.hits.end(), 0);
		std::fill(r.sum.begin(), r.sum.end(), 0);
		r.locked = 0;
		loop(); // threads are back
	}
	r.check("loop");
}

PROP(serial_forms, 2)
{
	Shape s = genShape(c);
	s.nth   = 1;
	Record r(s.ntasks, 1);
	Helper h(r);
	describe(c, "serial", s);
	if (s.ntasks >= 2)
		c.nontrivial();
	CodeSectionParams cs(1);
	auto              f = [&r](SizeType task, SizeType th) { r.run(task, th); };
	switch (c.below(5)) {
	case 0: {
		NoPthreadsNg<Helper> p(cs);
		CHECK(p.threads() == 1, "threads");
		p.loopCreate(h);
		break;
	}
	case 1: {
		NoPthreadsNg<Helper, LoadBalancerWeights> p(cs);
		p.loopCreate(h, genWeights(c, s.ntasks));
		break;
	}
	case 2: {
		Parallelizer2SerialForm<> p(cs);
		r.start = c.below(30);
		CHECK(p.numberOfThreads() == 1, "threads");
		p.parallelFor(r.start, r.start + s.ntasks, f);
		break;
	}
	case 3: {
		InterNode<> p(MPI::COMM_WORLD);
		r.start = c.below(30);
		CHECK(p.size() == 1, "size");
		p.parallelFor(r.start, r.start + s.ntasks, f);
		break;
	}
	default: {
		CodeSectionParams two(c.range(2, 5));
		CHECK(pbt::throws([&] { NoPthreadsNg<Helper> p(two); }), "the serial driver accepted several threads");
		CHECK(pbt::throws([&] { Parallelizer2SerialForm<> p(two); }), "the serial driver accepted several threads");
		NoPthreadsNg<Helper> p(cs);
		p.loopCreate(h);
		break;
	}
	}
	r.check("serial");
	for (size_t i = 1; i < s.ntasks; ++i)
		CHECK(r.thread[i] == 0, "thread number " << r.thread[i]);
}

PROP(openmp, 2)
{
	Shape  s = genShape(c);
	Record r(s.ntasks, s.nth);
	genDelays(c, r);
	r.start = c.flip() ? 0 : c.range(1, 50);
	describe(c, "OpenMP", s);
	if (s.nth >= 2 && s.ntasks >= 2)
		c.nontrivial();
	CodeSectionParams          cs(s.nth);
	Parallelizer2OpenMPForm<>  p(cs);
	CHECK(p.numberOfThreads() == s.nth, "announced " << p.numberOfThreads() << " threads instead of " << s.nth);
	auto f = [&r](SizeType task, SizeType th) { r.run(task, th); };
	p.parallelFor(r.start, r.start + s.ntasks, f);
	r.check("OpenMP");
}

// a loop inside the tasks of another
struct Outer {
	std::vector<std::unique_ptr<Record>>& inner;
	size_t                                nin;
	int                                   form;
	Record&                               r;
	SizeType                              tasks() const { return inner.size(); }
	void                                  doTask(SizeType task, SizeType th)
	{
		CodeSectionParams cs(nin);
		Record&           in = *inner[task];
		if (form == 0) {
			Helper               h(in);
			Parallelizer<Helper> p(cs);
			p.loopCreate(h);
		} else if (form == 1) {
			Parallelizer2<> p(cs);
			p.parallelFor(0, in.hits.size(), [&in](SizeType t, SizeType k) { in.run(t, k); });
		} else {
			Helper                                    h(in);
			Parallelizer<Helper, LoadBalancerWeights> p(cs);
			p.loopCreate(h, VS(in.hits.size(), 2));
		}
		r.run(task, th);
	}
};

PROP(nested, 2)
{
	size_t nout = c.range(1, 4), nin = c.range(1, 4), tasks = c.below(8);
	Record r(tasks, nout);
	genDelays(c, r);
	std::vector<std::unique_ptr<Record>> inner;
	for (size_t i = 0; i < tasks; ++i) {
		inner.emplace_back(new Record(c.below(8), nin));
		genDelays(c, *inner.back());
	}
	int form = c.below(3);
	DESC("nested " << tasks << " tasks on " << nout << " threads, " << nin << " inner threads, form " << form);
	if (tasks >= 2 && nout >= 2 && nin >= 2)
		c.nontrivial();
	Outer             o { inner, nin, form, r };
	CodeSectionParams cs(nout);
	Parallelizer<Outer> p(cs);
	p.loopCreate(o);
	r.check("outer loop");
	for (auto& x : inner)
		x->check("inner loop");
}

PROP(storage, 1)
{
	size_t n = c.range(1, 8), k = c.below(n);
	c.nontrivial();
	SizeType saved    = Concurrency::mode;
	Concurrency::mode = Concurrency::PTHREADS;
	DESC("storage for " << n << " threads, thread " << k);
	CHECK(Concurrency::storageSize(n) == n, "storage for " << n << " threads is " << Concurrency::storageSize(n));
	CHECK(Concurrency::storageIndex(k) == k, "slot of thread " << k << " is " << Concurrency::storageIndex(k));
	CHECK(Concurrency::hasPthreads() && !Concurrency::hasMpi(), "mode");
	Concurrency::mode = Concurrency::PTHREADS_AND_MPI;
	CHECK(Concurrency::storageSize(n) == n && Concurrency::storageIndex(k) == k, "storage with both kinds of parallelism");
	Concurrency::mode = Concurrency::SERIAL;
	CHECK(Concurrency::storageSize(1) == 1 && Concurrency::storageIndex(0) == 0, "storage without parallelism");
	Concurrency::mode = saved;
	CHECK(Concurrency::root() && Concurrency::nprocs() == 1 && Concurrency::rank() == 0, "one process");
}

PBT_MAIN
