#include "wm.hh"
#include <sys/mman.h>

namespace sim::wm
{
namespace
{
constexpr size_t ARENA = 1 << 20;
constexpr size_t GAP = 128;
constexpr size_t STACK = 256 << 10;

struct ShadowByte {
	u32 run;
	u8 live, wtid;
	u32 wclk;
	u32 rclk[MAXT];
};

u8 *arena;
ShadowByte *shadow;
size_t arena_top;
u32 run_id = 0;
bool active = false;
bool heap_on = false;
u64 mem_props = ~0ull;
Config cfg;

struct Store {
	u64 val;
	View msg;
	bool release_seq;
};
// The simulator's own memory must not come from the heap it simulates
template<class T>
struct OwnAlloc {
	using value_type = T;
	OwnAlloc() = default;
	template<class U>
	OwnAlloc(OwnAlloc<U> const &) {
	}
	T *allocate(size_t n) {
		return static_cast<T *>(malloc(n * sizeof(T)));
	}
	void deallocate(T *p, size_t) {
		free(p);
	}
	bool operator==(OwnAlloc const &) const {
		return true;
	}
};
struct Loc {
	uintptr_t addr;
	u32 size;
	std::vector<Store, OwnAlloc<Store>> st;
	u32 base = 0; // index of st[0]
	u32 sc = 0;	  // latest seq_cst store
};
std::vector<Loc, OwnAlloc<Loc>> locs;
size_t nlocs;

struct Thread {
	View cur, acq, rel;
	u32 stale_run[MAXLOC];
	u32 stale_ts[MAXLOC];
	void *sp = nullptr;
	void *stack = nullptr;
	bool done = true;
	std::function<void()> *fn = nullptr;
	bool aborted = false;
	bool weak_cas = false, weak_spurious = false;
};
Thread th[MAXT];
View sc_view, untracked_view;
int cur = 0, nth = 0;
bool fibers = false;
void *main_sp;
u64 gap;
u64 tick;
bool abort_flag;
int interrupted = -1;

void join(View &a, View const &b) {
	for (int i = 0; i < MAXT; i++)
		a.clk[i] = std::max(a.clk[i], b.clk[i]);
	for (size_t i = 0; i < nlocs && i < MAXLOC; i++)
		a.pos[i] = std::max(a.pos[i], b.pos[i]);
}

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

void switch_to(int t) {
	int me = cur;
	cur = t;
	cur_stream = S_T1 + t - 1;
	stats->switches++;
	sim_switch(&th[me].sp, th[t].sp);
}

u64 draw_gap() {
	u64 n = cfg.mean_gap * 8 + 2;
	return draw(S_SCHED, n, [&]() -> u64 {
		u64 r = rng();
		if (r % 97 == 0)
			return 0; // until it ends
		if (r % 8 == 1)
			return 1 + (r >> 8) % 3;
		double u = double((r >> 11) + 1) / double(1ull << 53);
		return 1 + std::min<u64>(u64(-std::log(u) * cfg.mean_gap), n - 2);
	});
}

// Gives another thread the processor
void reschedule(bool at_boundary) {
	int cand[MAXT], n = 0;
	for (int i = 1; i <= nth; i++)
		if (i != cur && !th[i].done)
			cand[n++] = i;
	if (n == 0) {
		gap = 0;
		return;
	}
	int t = cand[choose_on(S_SCHED, n)];
	if (!at_boundary && cfg.f_preempt >= 0)
		fault(cfg.f_preempt);
	if (cfg.isr_mask >> t & 1) {
		interrupted = cur;
		gap = 0; // an interrupt handler runs to the end of its operation
		if (cfg.f_isr >= 0)
			fault(cfg.f_isr);
	} else
		gap = draw_gap();
	hash_in(0x51 + t);
	if (tracing && !at_boundary)
		ev_print("      -- switch: task %d is interrupted, task %d runs", cur, t);
	switch_to(t);
}

void pre() {
	tick++;
	if (!fibers)
		return;
	step();
	if (cfg.isr_mask >> cur & 1)
		return;
	if (gap && --gap == 0)
		reschedule(false);
}

void leave_aborted() {
	abort_flag = true;
	void *dummy;
	fibers = false;
	sim_switch(&dummy, main_sp);
	__builtin_trap();
}

void fiber_main() {
	int me = cur;
	try {
		(*th[me].fn)();
	} catch (Stop &) {
		abort_flag = true;
	} catch (std::exception &e) {
		// records, then leaves through fiber_abort
		fail(ALL, "unexpected-exception", "an exception escaped: %s", e.what());
	}
	th[me].done = true;
	int cand[MAXT], n = 0;
	for (int i = 1; i <= nth; i++)
		if (!th[i].done)
			cand[n++] = i;
	void *dummy;
	if (n == 0 || abort_flag) {
		sim_switch(&dummy, main_sp);
		__builtin_trap();
	}
	int t = cand[choose_on(S_SCHED, n)];
	hash_in(0x91 + t);
	gap = cfg.isr_mask >> t & 1 ? 0 : draw_gap();
	switch_to(t);
	__builtin_trap();
}

void *fresh_stack(Thread &t) {
	if (!t.stack) {
		t.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (t.stack == MAP_FAILED)
			abort();
	}
	u64 *sp = reinterpret_cast<u64 *>((char *)t.stack + STACK);
	*--sp = 0; // return address slot: keeps the stack aligned as after a call
	*--sp = reinterpret_cast<u64>(&fiber_main);
	for (int i = 0; i < 6; i++)
		*--sp = 0;
	return sp;
}

inline bool in_arena(uintptr_t a) {
	return a - reinterpret_cast<uintptr_t>(arena) < ARENA;
}
// The unused pages around the arena: a moderately wild access lands there
inline bool in_margin(uintptr_t a) {
	return a + (1 << 20) - reinterpret_cast<uintptr_t>(arena) < ARENA + (2 << 20);
}

ShadowByte &sb(uintptr_t a) {
	auto &s = shadow[a - reinterpret_cast<uintptr_t>(arena)];
	if (s.run != run_id)
		s = ShadowByte{run_id, 0, 0, 0, {}};
	return s;
}

void forget(Loc &l) {
	l.base += l.st.size();
	l.st.clear();
}
Loc *find_loc(uintptr_t a) {
	for (size_t i = 0; i < nlocs; i++)
		if (locs[i].addr == a)
			return &locs[i];
	return nullptr;
}

void plain(uintptr_t a, size_t n, bool write) {
	if (!active || !in_margin(a))
		return;
	pre();
	for (size_t i = 0; i < n; i++) {
		if (!in_arena(a + i) || !sb(a + i).live) {
			fail(mem_props, "bad-memory-access", "task %d %s %zu bytes outside every live object of the code under test", cur, write ? "writes" : "reads", n);
			return;
		}
	}
	auto &t = th[cur];
	const bool races = cfg.weak && cfg.races;
	for (size_t i = 0; i < n; i++) {
		auto &s = sb(a + i);
		if (races && s.wclk && s.wtid != cur && s.wclk > t.cur.clk[s.wtid]) {
			fail(cfg.race_props, "data-race", "task %d %s an element while task %d's write to it is not ordered before (torn or stale contents)", cur, write ? "writes" : "reads", s.wtid);
			break;
		}
		if (write) {
			if (races)
				for (int u = 0; u < MAXT; u++)
					if (u != cur && s.rclk[u] > t.cur.clk[u]) {
						fail(cfg.race_props, "data-race", "task %d overwrites an element while task %d's read of it is not ordered before", cur, u);
						goto out;
					}
			s.wtid = cur;
			s.wclk = t.cur.clk[cur];
		} else
			s.rclk[cur] = t.cur.clk[cur];
	}
out:
	if (write && nlocs)
		for (size_t i = 0; i < nlocs; i++)
			if (locs[i].addr < a + n && a < locs[i].addr + locs[i].size) {
				// plain (re)initialisation of an atomic object: start a new history from memory
				forget(locs[i]);
			}
}

u64 load_mem(uintptr_t a, u32 n) {
	u64 v = 0;
	memcpy(&v, reinterpret_cast<void *>(a), n);
	return v;
}
void store_mem(uintptr_t a, u32 n, u64 v) {
	memcpy(reinterpret_cast<void *>(a), &v, n);
}

Loc *loc_of(uintptr_t a, u32 n) {
	Loc *l = find_loc(a);
	if (!l) {
		if (nlocs >= MAXLOC) {
			// too many atomic objects to track: accesses to the others take effect at once and order everything
			auto &t = th[cur];
			join(t.cur, untracked_view);
			join(t.acq, t.cur);
			join(untracked_view, t.cur);
			t.cur.clk[cur]++;
			return nullptr;
		}
		if (locs.size() <= nlocs)
			locs.emplace_back();
		l = &locs[nlocs++];
		l->addr = a;
		l->size = n;
		l->st.clear();
		l->base = 1;
		l->sc = 0;
		for (auto &t : th)
			t.cur.pos[nlocs - 1] = t.acq.pos[nlocs - 1] = t.rel.pos[nlocs - 1] = 0, t.stale_run[nlocs - 1] = 0;
		sc_view.pos[nlocs - 1] = untracked_view.pos[nlocs - 1] = 0;
	}
	if (l->st.empty()) {
		Store s{};
		s.val = load_mem(a, n);
		l->st.push_back(s);
		// a fresh history: everyone sees the initial value
		size_t i = l - &locs[0];
		u32 ts = l->base;
		for (auto &t : th)
			t.cur.pos[i] = std::max(t.cur.pos[i], ts);
		l->sc = std::max(l->sc, ts);
	}
	return l;
}
u32 latest(Loc *l) {
	return l->base + l->st.size() - 1;
}

bool is_acq(int mo) {
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
bool is_rel(int mo) {
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
u32 pos_name(Loc *l) {
	return l - &locs[0];
}

bool check_live(uintptr_t a, u32 n) {
	for (u32 i = 0; i < n; i++)
		if (!in_arena(a + i) || !sb(a + i).live) {
			fail(mem_props, "bad-memory-access", "atomic access outside every live object of the code under test");
			return false;
		}
	return true;
}

void read_from(Loc *l, u32 ts, int mo) {
	auto &t = th[cur];
	auto &s = l->st[ts - l->base];
	u32 i = pos_name(l);
	t.cur.pos[i] = std::max(t.cur.pos[i], ts);
	join(t.acq, s.msg);
	if (is_acq(mo))
		join(t.cur, s.msg);
	join(t.acq, t.cur);
}

u64 do_load(uintptr_t a, u32 n, int mo) {
	pre();
	if (!check_live(a, n))
		return load_mem(a, n);
	Loc *l = loc_of(a, n);
	if (!l)
		return load_mem(a, n);
	auto &t = th[cur];
	u32 i = pos_name(l);
	u32 hi = latest(l);
	u32 lo = std::max(t.cur.pos[i], l->base);
	if (mo == __ATOMIC_SEQ_CST)
		lo = std::max({lo, l->sc, sc_view.pos[i]});
	u32 ts = hi;
	if (cfg.weak && fibers && hi > lo) {
		u32 k = std::min(hi - lo + 1, 8u);
		u64 back = draw(S_MEM, k, [&]() -> u64 {
			u64 r = rng();
			if (r % cfg.stale_den >= cfg.stale_num)
				return 0;
			return (r >> 20) & 1 ? k - 1 : (r >> 21) % k;
		});
		if (back) {
			// eventually every store becomes visible
			if (t.stale_ts[i] == hi - back && ++t.stale_run[i] > 12)
				back = 0;
			else {
				if (t.stale_ts[i] != hi - back)
					t.stale_run[i] = 0;
				t.stale_ts[i] = hi - back;
			}
		}
		if (back) {
			if (cfg.f_stale >= 0)
				fault(cfg.f_stale);
			if (tracing)
				ev_print("      -- task %d's load returns a value %llu store(s) old", cur, (unsigned long long)back);
		}
		ts = hi - back;
		hash_in(back);
	}
	u64 v = l->st[ts - l->base].val;
	read_from(l, ts, mo);
	return v;
}

void append(Loc *l, u64 v, int mo, View const *rmw_msg) {
	auto &t = th[cur];
	u32 i = pos_name(l);
	// keep histories short: nobody ever needs more than the last 64 stores
	if (l->st.size() > 64) {
		l->st.erase(l->st.begin(), l->st.begin() + 32);
		l->base += 32;
	}
	u32 ts = latest(l) + 1;
	t.cur.pos[i] = ts;
	Store s{};
	s.val = v;
	if (is_rel(mo))
		s.msg = t.cur;
	else {
		s.msg = t.rel;
		s.msg.pos[i] = ts;
	}
	if (rmw_msg)
		join(s.msg, *rmw_msg);
	l->st.push_back(s);
	if (mo == __ATOMIC_SEQ_CST)
		l->sc = ts;
	join(t.acq, t.cur);
	store_mem(l->addr, l->size, v);
	if (is_rel(mo))
		t.cur.clk[cur]++;
}

void do_store(uintptr_t a, u32 n, u64 v, int mo) {
	pre();
	if (!check_live(a, n))
		return;
	Loc *l = loc_of(a, n);
	if (!l) {
		store_mem(a, n, v);
		return;
	}
	append(l, v, mo, nullptr);
}

template<class F>
u64 do_rmw(uintptr_t a, u32 n, int mo, F f) {
	pre();
	if (!check_live(a, n))
		return 0;
	Loc *l = loc_of(a, n);
	if (!l) {
		u64 o = load_mem(a, n);
		store_mem(a, n, f(o));
		return o;
	}
	u32 ts = latest(l);
	u64 o = l->st[ts - l->base].val;
	read_from(l, ts, mo);
	View m = l->st[ts - l->base].msg;
	append(l, f(o), mo, &m);
	return o;
}

u64 trunc_to(u64 v, u32 n) {
	return n == 8 ? v : v & ((1ull << (8 * n)) - 1);
}

bool do_cas(uintptr_t a, u32 n, u64 *exp, u64 des, int mo, int fmo, bool weak) {
	pre();
	if (!check_live(a, n))
		return false;
	Loc *l = loc_of(a, n);
	u64 o = l ? l->st.back().val : load_mem(a, n);
	bool spurious = false;
	if (weak && o == *exp && fibers && cfg.spurious_num)
		spurious = draw(S_MEM, 2, [&]() -> u64 { return rng() % cfg.spurious_den < cfg.spurious_num; });
	if (spurious) {
		if (cfg.f_spurious >= 0)
			fault(cfg.f_spurious);
		if (tracing)
			ev_print("      -- task %d's weak compare-and-swap fails spuriously", cur);
	}
	if (o != *exp || spurious) {
		if (l)
			read_from(l, latest(l), fmo);
		// compiled code judges success by the value: a value other than the expected one says "failed"
		th[cur].weak_spurious = spurious;
		*exp = spurious ? trunc_to(~o, n) : o;
		return false;
	}
	if (!l) {
		store_mem(a, n, des);
		return true;
	}
	read_from(l, latest(l), mo);
	View m = l->st.back().msg;
	append(l, des, mo, &m);
	return true;
}

bool tracked(const volatile void *p) {
	return active && in_margin(reinterpret_cast<uintptr_t>(p));
}
} // namespace

void begin(Config const &c) {
	if (!arena) {
		// room on both sides so that a moderately wild access does not crash before it is reported
		auto *m = static_cast<u8 *>(mmap(nullptr, ARENA + (2 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		arena = m + (1 << 20);
		shadow = static_cast<ShadowByte *>(mmap(nullptr, sizeof(ShadowByte) * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	}
	cfg = c;
	run_id++;
	arena_top = GAP;
	nlocs = 0;
	for (auto &t : th) {
		memset(&t.cur, 0, sizeof(View));
		memset(&t.acq, 0, sizeof(View));
		memset(&t.rel, 0, sizeof(View));
		memset(t.stale_run, 0, sizeof t.stale_run);
		memset(t.stale_ts, 0, sizeof t.stale_ts);
		t.done = true;
		t.weak_cas = t.weak_spurious = false;
	}
	for (int i = 0; i < MAXT; i++)
		th[i].cur.clk[i] = 1;
	memset(&sc_view, 0, sizeof sc_view);
	memset(&untracked_view, 0, sizeof untracked_view);
	cur = 0;
	nth = 0;
	fibers = false;
	tick = 0;
	heap_on = false;
	alloc_fail_in = 0;
	alloc_count = alloc_live = 0;
	mem_props = ~0ull;
	active = true;
}
void blame_races(u64 props) {
	cfg.race_props = props;
}
void end() {
	active = false;
}

void draw_policy(Config &c, bool allow_weak, u32 isr_candidates) {
	static const u32 gaps[] = {2, 3, 4, 6, 8, 12, 20, 40, 80};
	u64 mode = choose(isr_candidates ? 4 : allow_weak ? 3 : 1); // 0,1,2: two cores; 3: interrupt
	if (isr_candidates && mode == 3) {
		c.weak = false;
		std::vector<u32> ts;
		for (u32 i = 1; i < MAXT; i++)
			if (isr_candidates >> i & 1)
				ts.push_back(i);
		c.isr_mask = 1u << ts[choose(ts.size())];
	} else {
		c.weak = allow_weak && mode != 0;
		c.isr_mask = 0;
	}
	c.mean_gap = gaps[choose(std::size(gaps))];
	static const u32 den[] = {2, 3, 4, 8, 16};
	c.stale_num = 1;
	c.stale_den = den[choose(std::size(den))];
}

long alloc_fail_in, alloc_count, alloc_live;

void *alloc(size_t size, size_t align) {
	size_t o = (arena_top + align - 1) / align * align;
	if (o + size + GAP > ARENA)
		return nullptr;
	arena_top = o + size + GAP;
	// stale contents of earlier runs must not leak into this one
	memset(arena + o, 0xA5, size);
	for (size_t i = 0; i < size; i++) {
		auto &s = sb(reinterpret_cast<uintptr_t>(arena + o + i));
		s = ShadowByte{run_id, 1, 0, 0, {}};
	}
	// remember the size in front of the block
	*reinterpret_cast<u64 *>(arena + o - 16) = size;
	return arena + o;
}
void release(void *p) {
	auto a = reinterpret_cast<uintptr_t>(p);
	u64 size = *reinterpret_cast<u64 *>(a - 16);
	for (u64 i = 0; i < size; i++)
		sb(a + i).live = 0;
	for (size_t i = 0; i < nlocs; i++)
		if (locs[i].addr >= a && locs[i].addr < a + size)
			forget(locs[i]);
}

HeapScope::HeapScope()
	: old{heap_on} {
	heap_on = true;
}
HeapScope::~HeapScope() {
	heap_on = old;
}
u64 props_for_memory(u64 m) {
	return std::exchange(mem_props, m);
}

void parallel(std::initializer_list<std::function<void()>> fns) {
	std::vector<std::function<void()>> f(fns);
	nth = f.size();
	th[0].cur.clk[0]++;
	for (int i = 1; i <= nth; i++) {
		join(th[i].cur, th[0].cur);
		join(th[i].acq, th[i].cur);
		th[i].done = false;
		th[i].fn = &f[i - 1];
		th[i].sp = fresh_stack(th[i]);
	}
	th[0].cur.clk[0]++;
	abort_flag = false;
	fibers = true;
	fiber_abort = &leave_aborted;
	int old = cur_stream;
	int t = 1 + choose_on(S_SCHED, nth);
	gap = cfg.isr_mask >> t & 1 ? 0 : draw_gap();
	cur = t;
	cur_stream = S_T1 + t - 1;
	sim_switch(&main_sp, th[t].sp);
	fibers = false;
	fiber_abort = nullptr;
	cur = 0;
	cur_stream = old;
	heap_on = false;
	if (abort_flag)
		throw Stop{};
	for (int i = 1; i <= nth; i++)
		join(th[0].cur, th[i].cur);
	for (int i = 1; i <= nth; i++)
		th[i].cur.clk[i]++;
}

int self() {
	return cur;
}
u64 time() {
	return tick;
}
void op_boundary() {
	if (!fibers)
		return;
	tick++;
	step();
	if (cfg.isr_mask >> cur & 1) {
		// the handler returns to what it interrupted
		int cand[MAXT], n = 0;
		for (int i = 1; i <= nth; i++)
			if (i != cur && !th[i].done)
				cand[n++] = i;
		if (n) {
			int t = cand[choose_on(S_SCHED, n)];
			gap = draw_gap();
			switch_to(t);
		}
		return;
	}
	if (gap && --gap == 0)
		reschedule(true);
}
bool in_isr() {
	return cfg.isr_mask >> cur & 1;
}
void weak_begin() {
	th[cur].weak_cas = true;
	th[cur].weak_spurious = false;
}
bool weak_end() {
	th[cur].weak_cas = false;
	return std::exchange(th[cur].weak_spurious, false);
}
void publish(Sync &s) {
	auto &t = th[cur];
	join(s.v, t.cur);
	s.set = true;
	t.cur.clk[cur]++;
}
void consume(Sync &s) {
	if (s.set) {
		join(th[cur].cur, s.v);
		join(th[cur].acq, th[cur].cur);
	}
}
} // namespace sim::wm

// ---------------------------------------------------------------- heap of the code under test
using namespace sim;
using namespace sim::wm;

static void *heap_new(size_t n, size_t align) {
	if (active && heap_on) {
		alloc_count++;
		if (alloc_fail_in > 0 && --alloc_fail_in == 0) {
			if (cfg.f_alloc >= 0)
				fault(cfg.f_alloc);
			if (tracing)
				ev_print("      -- allocation of %zu bytes fails", n);
			throw std::bad_alloc{};
		}
		void *p = wm::alloc(n ? n : 1, std::max<size_t>(align, 16));
		if (!p)
			throw std::bad_alloc{};
		alloc_live++;
		return p;
	}
	void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc{};
	return p;
}
static void heap_del(void *p) {
	if (!p)
		return;
	if (arena && in_arena(reinterpret_cast<uintptr_t>(p))) {
		if (active) {
			if (!sb(reinterpret_cast<uintptr_t>(p)).live)
				fail(mem_props, "bad-memory-access", "a block is freed twice");
			wm::release(p);
			alloc_live--;
		}
		return;
	}
	free(p);
}
void *operator new(size_t n) {
	return heap_new(n, 16);
}
void *operator new[](size_t n) {
	return heap_new(n, 16);
}
void *operator new(size_t n, std::align_val_t a) {
	return heap_new(n, size_t(a));
}
void operator delete(void *p) noexcept {
	heap_del(p);
}
void operator delete[](void *p) noexcept {
	heap_del(p);
}
void operator delete(void *p, size_t) noexcept {
	heap_del(p);
}
void operator delete[](void *p, size_t) noexcept {
	heap_del(p);
}
void operator delete(void *p, std::align_val_t) noexcept {
	heap_del(p);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept {
	heap_del(p);
}

// ---------------------------------------------------------------- instrumentation entry points
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void *) {
}
void __tsan_func_exit() {
}
void __tsan_vptr_update(void **, void *) {
}
void __tsan_vptr_read(void **) {
}
#define RW(n)                                                                                                          \
	void __tsan_read##n(void *p) {                                                                                     \
		plain(A(p), n, false);                                                                                         \
	}                                                                                                                  \
	void __tsan_write##n(void *p) {                                                                                    \
		plain(A(p), n, true);                                                                                          \
	}                                                                                                                  \
	void __tsan_read_write##n(void *p) {                                                                               \
		plain(A(p), n, false);                                                                                         \
		plain(A(p), n, true);                                                                                          \
	}                                                                                                                  \
	void __tsan_unaligned_read##n(void *p) {                                                                           \
		plain(A(p), n, false);                                                                                         \
	}                                                                                                                  \
	void __tsan_unaligned_write##n(void *p) {                                                                          \
		plain(A(p), n, true);                                                                                          \
	}                                                                                                                  \
	void __tsan_unaligned_read_write##n(void *p) {                                                                     \
		plain(A(p), n, false);                                                                                         \
		plain(A(p), n, true);                                                                                          \
	}                                                                                                                  \
	void __tsan_volatile_read##n(void *p) {                                                                            \
		plain(A(p), n, false);                                                                                         \
	}                                                                                                                  \
	void __tsan_volatile_write##n(void *p) {                                                                           \
		plain(A(p), n, true);                                                                                          \
	}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
	plain(A(p), n, false);
}
void __tsan_write_range(void *p, size_t n) {
	plain(A(p), n, true);
}

// Block copies proceed word by word, so that they can be interrupted in the middle
void *__tsan_memcpy(void *d, const void *s, size_t n) {
	if (!tracked(d) && !tracked(s))
		return memcpy(d, s, n);
	for (size_t i = 0; i < n;) {
		size_t k = std::min<size_t>(8, n - i);
		plain(A(s) + i, k, false);
		plain(A(d) + i, k, true);
		memcpy((char *)d + i, (const char *)s + i, k);
		i += k;
	}
	return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
	if (!tracked(d) && !tracked(s))
		return memmove(d, s, n);
	plain(A(s), n, false);
	plain(A(d), n, true);
	return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
	if (!tracked(d))
		return memset(d, c, n);
	for (size_t i = 0; i < n;) {
		size_t k = std::min<size_t>(8, n - i);
		plain(A(d) + i, k, true);
		memset((char *)d + i, c, k);
		i += k;
	}
	return d;
}

#define ATOMIC(bits, T)                                                                                                \
	T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                                                        \
		if (!tracked(p))                                                                                               \
			return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                               \
		return T(do_load(A(p), bits / 8, mo));                                                                         \
	}                                                                                                                  \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                                                     \
		if (!tracked(p))                                                                                               \
			return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                           \
		do_store(A(p), bits / 8, trunc_to(u64(v), bits / 8), mo);                                                      \
	}                                                                                                                  \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) {                                                     \
		if (!tracked(p))                                                                                               \
			return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                        \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64) { return trunc_to(u64(v), bits / 8); }));                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) {                                                    \
		if (!tracked(p))                                                                                               \
			return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                         \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64 o) { return trunc_to(o + u64(v), bits / 8); }));                   \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) {                                                    \
		if (!tracked(p))                                                                                               \
			return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                         \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64 o) { return trunc_to(o - u64(v), bits / 8); }));                   \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) {                                                    \
		if (!tracked(p))                                                                                               \
			return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                         \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64 o) { return o & trunc_to(u64(v), bits / 8); }));                   \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) {                                                     \
		if (!tracked(p))                                                                                               \
			return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                          \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64 o) { return o | trunc_to(u64(v), bits / 8); }));                   \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) {                                                    \
		if (!tracked(p))                                                                                               \
			return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                         \
		return T(do_rmw(A(p), bits / 8, mo, [&](u64 o) { return o ^ trunc_to(u64(v), bits / 8); }));                   \
	}                                                                                                                  \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int fmo) {                     \
		if (!tracked(p))                                                                                               \
			return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
		u64 x = trunc_to(u64(*e), bits / 8);                                                                           \
		bool r = do_cas(A(p), bits / 8, &x, trunc_to(u64(d), bits / 8), mo, fmo, false);                               \
		*e = T(x);                                                                                                     \
		return r;                                                                                                      \
	}                                                                                                                  \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int fmo) {                       \
		if (!tracked(p))                                                                                               \
			return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
		u64 x = trunc_to(u64(*e), bits / 8);                                                                           \
		bool r = do_cas(A(p), bits / 8, &x, trunc_to(u64(d), bits / 8), mo, fmo, true);                                \
		*e = T(x);                                                                                                     \
		return r;                                                                                                      \
	}                                                                                                                  \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T d, int mo, int fmo) {                           \
		if (!tracked(p)) {                                                                                             \
			__atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
			return e;                                                                                                  \
		}                                                                                                              \
		u64 x = trunc_to(u64(e), bits / 8);                                                                            \
		do_cas(A(p), bits / 8, &x, trunc_to(u64(d), bits / 8), mo, fmo, th[cur].weak_cas);                               \
		return T(x);                                                                                                   \
	}
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)

void __tsan_atomic_thread_fence(int mo) {
	if (!active)
		return;
	pre();
	auto &t = th[cur];
	if (is_acq(mo))
		join(t.cur, t.acq);
	if (mo == __ATOMIC_SEQ_CST) {
		join(t.cur, sc_view);
		join(sc_view, t.cur);
	}
	if (is_rel(mo)) {
		t.rel = t.cur;
		t.cur.clk[cur]++;
	}
	join(t.acq, t.cur);
}
void __tsan_atomic_signal_fence(int) {
}
}
