// Simulated threads and memory for code compiled with clang -fsanitize=thread and linked against wm.cc
// instead of the ThreadSanitizer runtime: every atomic operation, and every plain access to a tracked
// object, of the real code becomes a scheduling point and goes through a view-based weak memory model.
#pragma once
#include "core.hh"

namespace sim::wm
{
constexpr int MAXT = 5;	 // main + 4
constexpr int MAXLOC = 40;

struct View {
	u32 clk[MAXT]; // happens-before clock
	u32 pos[MAXLOC]; // oldest visible store of each location
};

struct Config {
	bool weak = true;		  // loads may return older stores that coherence and happens-before allow
	bool races = true;		  // unordered conflicting plain accesses are violations
	u64 race_props = ~0ull;	  // of these properties
	u32 isr_mask = 0;		  // threads that, once running, run to the end of their operation
	u32 mean_gap = 8;		  // mean number of accesses between two switches
	u32 stale_num = 1, stale_den = 4; // how often an older store is returned
	u32 spurious_num = 0, spurious_den = 1; // weak compare-and-swap failing for no reason
	// indices into the statistics arrays (-1: not counted)
	int f_preempt = -1, f_isr = -1, f_stale = -1, f_spurious = -1, f_alloc = -1;
};

void begin(Config const &c);
void blame_races(u64 props); // from here on
// draws a scheduling and memory policy from the current stream ("swarm")
void draw_policy(Config &c, bool allow_weak, u32 isr_candidates);
void end();

void *alloc(size_t size, size_t align); // a tracked object
void release(void *p);
template<class T, class... A>
T *make(A &&...a) {
	return new (alloc(sizeof(T), alignof(T) < 16 ? 16 : alignof(T))) T(std::forward<A>(a)...);
}

// heap of the code under test: while on, operator new allocates tracked blocks
struct HeapScope {
	bool old;
	HeapScope();
	~HeapScope();
};
extern long alloc_fail_in; // >0: the n-th allocation from now in a HeapScope fails
extern long alloc_count, alloc_live;
// false: the address is inside a freed or never allocated part of the tracked heap
u64 props_for_memory(u64 mask); // properties violated by an out-of-bounds access; returns the old mask

void parallel(std::initializer_list<std::function<void()>> fns);
int self();
u64 time(); // global step counter: real time of the simulated machine
void op_boundary(); // between two operations of the workload
struct Sync { // an ordinary synchronising message outside the code under test
	View v{};
	bool set = false;
};
void publish(Sync &s);
void consume(Sync &s);
bool in_isr();

// The compiler does not tell the instrumentation which compare-and-swaps are weak: mark them in the source
void weak_begin();
bool weak_end(); // true: the marked operation failed for no reason
template<class T>
struct WeakArg {
	T &e;
	T copy;
	__attribute__((no_sanitize("thread"))) WeakArg(T &x)
		: e{x}
		, copy{x} {
		weak_begin();
	}
	__attribute__((no_sanitize("thread"))) ~WeakArg() {
		if (!weak_end())
			e = copy;
	}
	T &ref() {
		return copy;
	}
};
} // namespace sim::wm
#define compare_exchange_weak(e, ...) compare_exchange_strong(::sim::wm::WeakArg(e).ref(), __VA_ARGS__)
