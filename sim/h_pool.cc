// P01, P02: ThreadSafePool under simulated schedules and weak memory; Pool by its reference model
#include "wm.hh"
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"

using namespace sim;
namespace
{
enum { P01, P02 };
enum F { F_PREEMPT, F_ISR, F_STALE, F_SPURIOUS };
enum PR {
	P_REFUSED, P_REUSED, P_RELEASE_RACE, P_RELEASE_NOT_OWNED, P_OUT_OF_RANGE, P_FILLED, P_CLEARED, P_CONTENDED, P_FOREIGN, P_SEQ, P_THREADED, P_HANDED_OVER, P_WATCHED
};

struct Rec {
	u64 a = 11, b = 22;
	u32 c = 33;
	void set(u64 n) {
		a = n;
		b = n * 3 + 1;
		c = u32(n * 7 + 2);
	}
	bool is(u64 n) const {
		return n ? a == n && b == n * 3 + 1 && c == u32(n * 7 + 2) : a == 11 && b == 22 && c == 33;
	}
};
struct One {
	u8 v = 5;
	void set(u64 n) {
		v = n * 5 + 1;
	}
	bool is(u64 n) const {
		return n ? v == u8(n * 5 + 1) : v == 5;
	}
};

// ---------------------------------------------------------------- concurrent pool
struct Slot {
	int owner = -1;		 // thread that holds it, -1: nobody
	u64 val = 0;		 // what the owner stored last
	bool val_known = false;
	u64 released_by_me[wm::MAXT]{}; // release count seen by each thread
	u64 releases = 0;
	bool free_at_start = true;
	u64 creates = 0; // hand-outs in this round
};
struct Hold {
	size_t slot;
	u64 b, e; // possible use: from the begin of the request to the end of the release
	int releaser;
};
struct Refusal {
	u64 b, e;
	int thread;
};

template<class T, size_t N>
struct Conc {
	using Pool = cpputil::ThreadSafePool<T, N>;
	Pool *pool;
	Slot s[N];
	std::vector<Hold> holds;
	std::vector<Refusal> refusals;
	u64 open[N]; // begin of the request of the current hold
	u64 next = 1;
	bool weak;
	int creating = 0;
	u64 created_total = 0;

	void create() {
		int me = wm::self();
		u64 b = wm::time();
		creating++;
		if (creating > 1)
			probe(P_CONTENDED);
		auto r = pool->create();
		creating--;
		u64 e = wm::time();
		if (!r) {
			EV("T%d create -> none", me);
			probe(P_REFUSED);
			refusals.push_back({b, e, me});
			return;
		}
		size_t i = *r;
		EV("T%d create -> %lu", me, i);
		CHECK(i < N, P(P01), "bad-slot", "handed out slot %lu of %lu", i, N);
		if (i >= N)
			return;
		CHECK(s[i].owner < 0, P(P01), "double-hand-out", "slot %lu handed out to T%d while T%d holds it", i, me, s[i].owner);
		if (s[i].owner >= 0)
			return;
		if (s[i].creates++ || !s[i].free_at_start)
			probe(P_REUSED);
		s[i].owner = me;
		open[i] = b;
		created_total++;
		T &d = (*pool)[i];
		if (s[i].val_known)
			CHECK(d.is(s[i].val), P(P01), "not-visible", "slot %lu does not hold what its previous owner stored last", i);
		d.set(next);
		s[i].val = next;
		s[i].val_known = true;
		next = next % 200 + 1;
	}
	int pick_own() {
		int me = wm::self();
		std::array<int, N> own;
		int n = 0;
		for (size_t i = 0; i < N; i++)
			if (s[i].owner == me)
				own[n++] = i;
		return n ? own[choose(n)] : -1;
	}
	void use(size_t i) {
		T &d = (*pool)[i];
		CHECK(d.is(s[i].val), P(P01), "disturbed", "slot %lu of T%d was changed by somebody else", i, wm::self());
		EV("T%d uses %lu", wm::self(), i);
		if (choose(2)) {
			d.set(next);
			s[i].val = next;
			next = next % 200 + 1;
		}
	}
	void destroy_own(size_t i) {
		int me = wm::self();
		u64 b = open[i];
		s[i].owner = -1; // from here on the slot may be handed out again
		s[i].releases++;
		s[i].released_by_me[me] = s[i].releases;
		bool ok = pool->destroy(i);
		EV("T%d destroy %lu -> %d", me, i, ok);
		holds.push_back({i, b, wm::time(), me});
		CHECK(ok, P(P01), "release-failed", "T%d could not release slot %lu, which it holds", me, i);
	}
	void is_used() {
		int me = wm::self();
		size_t i = choose(N);
		// unused is certain only if nobody can have begun another request since
		Slot before = s[i];
		bool certainly_free = before.owner < 0 && creating == 0 && (before.releases == 0 ? before.free_at_start && before.creates == 0 : before.released_by_me[me] == before.releases);
		u64 c0 = created_total;
		int cr0 = creating;
		bool u = pool->is_used(i);
		EV("T%d is_used %lu -> %d", me, i, u);
		if (s[i].owner == me)
			CHECK(u, P(P02), "used-flag-wrong", "slot %lu is held by T%d but reported unused", i, me);
		if (certainly_free && cr0 == 0 && creating == 0 && created_total == c0 && s[i].owner < 0)
			CHECK(!u, P(P02), "used-flag-wrong", "slot %lu was released by T%d, nobody asked for it since, but it is reported used", i, me);
	}
	void out_of_range() {
		size_t i = pick<size_t>({N, N + 1, 2 * N, ~size_t(0), size_t(1) << 32, N + 63});
		probe(P_OUT_OF_RANGE);
		bool d = pool->destroy(i);
		bool u = pool->is_used(i);
		EV("T%d destroy/is_used out of range -> %d %d", wm::self(), d, u);
		CHECK(!d, P(P01), "foreign-released", "releasing slot %lu of %lu was reported successful", i, N);
		CHECK(!u, P(P02), "used-flag-wrong", "slot %lu of %lu is reported used", i, N);
	}
	void worker(u64 avg) {
		while (more(avg)) {
			wm::op_boundary();
			switch (choose(8)) {
				case 0:
				case 1:
				case 2:
					create();
					break;
				case 3:
				case 4:
					if (int i = pick_own(); i >= 0)
						destroy_own(i);
					break;
				case 5:
					if (int i = pick_own(); i >= 0)
						use(i);
					break;
				case 6:
					is_used();
					break;
				case 7:
					out_of_range();
					break;
			}
		}
	}
	void start_round() {
		holds.clear();
		refusals.clear();
		for (size_t i = 0; i < N; i++) {
			s[i].free_at_start = s[i].owner < 0;
			s[i].creates = 0;
			s[i].releases = 0;
			memset(s[i].released_by_me, 0, sizeof s[i].released_by_me);
			if (s[i].owner >= 0)
				open[i] = 0;
		}
	}
	void check_refusals() {
		u64 t = wm::time();
		for (size_t i = 0; i < N; i++)
			if (s[i].owner >= 0)
				holds.push_back({i, open[i], t + 1, -1});
		for (auto &r : refusals)
			for (size_t i = 0; i < N; i++) {
				bool used = false;
				for (auto &h : holds)
					if (h.slot == i && h.b <= r.e && (h.e >= r.b || (weak && h.releaser != r.thread)))
						used = true;
				CHECK(used, P(P02), "refused-with-room", "T%d was refused a slot although slot %lu was free during the whole request", r.thread, i);
			}
	}
	// nobody else is active
	void idle_checks() {
		for (size_t i = 0; i < N; i++) {
			bool u = pool->is_used(i);
			CHECK(u == (s[i].owner >= 0), P(P02), "used-flag-wrong", "slot %lu is reported %s", i, u ? "used" : "unused");
			if (s[i].owner >= 0)
				CHECK((*pool)[i].is(s[i].val), P(P01), "disturbed", "slot %lu was changed by somebody else", i);
		}
		CHECK(pool->size() == N, P(P02), "wrong-size", "size() is %lu instead of %lu", pool->size(), N);
	}
	void round(int nth, u64 avg) {
		start_round();
		auto w = [&, avg] { worker(avg); };
		if (nth == 2)
			wm::parallel({w, w});
		else if (nth == 3)
			wm::parallel({w, w, w});
		else
			wm::parallel({w, w, w, w});
		check_refusals();
		idle_checks();
	}
	// everybody releases the same slots: one success each
	void release_race(int nth) {
		size_t ok[N]{};
		bool held[N];
		for (size_t i = 0; i < N; i++)
			held[i] = s[i].owner >= 0;
		auto w = [&] {
			for (size_t k = 0; k < N; k++) {
				size_t i = (k + 0) % N;
				if (!choose(2))
					continue;
				wm::op_boundary();
				bool r = pool->destroy(i);
				EV("T%d destroy %lu -> %d (race)", wm::self(), i, r);
				probe(held[i] ? P_RELEASE_RACE : P_RELEASE_NOT_OWNED);
				if (r)
					ok[i]++;
				else if (held[i])
					CHECK(pool->is_used(i) == false || weak, P(P02), "used-flag-wrong", "slot %lu could not be released because it is free, but it is reported used", i);
				tried[i]++;
			}
		};
		memset(tried, 0, sizeof tried);
		if (nth == 2)
			wm::parallel({w, w});
		else if (nth == 3)
			wm::parallel({w, w, w});
		else
			wm::parallel({w, w, w, w});
		for (size_t i = 0; i < N; i++) {
			size_t want = held[i] && tried[i];
			CHECK(ok[i] == want, P(P01), "release-count", "slot %lu: %lu of %lu releases succeeded, should be %lu", i, ok[i], tried[i], want);
			if (want)
				s[i].owner = -1;
		}
		idle_checks();
	}
	size_t tried[N];
	void fill() {
		size_t have = 0;
		for (size_t i = 0; i < N; i++)
			have += s[i].owner >= 0;
		for (;;) {
			auto r = pool->create();
			if (!r)
				break;
			size_t i = *r;
			EV("main create -> %lu", i);
			CHECK(i < N, P(P01), "bad-slot", "handed out slot %lu of %lu", i, N);
			if (i >= N)
				return;
			CHECK(s[i].owner < 0, P(P01), "double-hand-out", "slot %lu handed out while T%d holds it", i, s[i].owner);
			if (s[i].owner >= 0)
				return;
			if (s[i].val_known)
				CHECK((*pool)[i].is(s[i].val), P(P01), "not-visible", "slot %lu does not hold what its previous owner stored last", i);
			s[i].owner = 1 + choose(2);
			open[i] = 0;
			(*pool)[i].set(next);
			s[i].val = next;
			next = next % 200 + 1;
			s[i].val_known = true;
			have++;
		}
		probe(P_FILLED);
		CHECK(have == N, P(P02), "refused-with-room", "only %lu of %lu slots could be in use", have, N);
	}
	void clear() {
		pool->clear();
		EV("main clear %d", 0);
		probe(P_CLEARED);
		for (size_t i = 0; i < N; i++) {
			s[i].owner = -1;
			s[i].val = 0;
			s[i].val_known = true;
			CHECK(!pool->is_used(i), P(P02), "not-cleared", "slot %lu is used after clear", i);
			CHECK((*pool)[i].is(0), P(P02), "not-cleared", "slot %lu does not hold a default value after clear", i);
		}
	}
	// one thread holds every slot and gives them back, all at once or one by one, while the others
	// ask for slots, or watch for those no longer used
	void hand_over_round(int nth, u64 avg) {
		fill();
		start_round();
		bool all_at_once = choose(2), watch = choose(2);
		probe(watch ? P_WATCHED : P_HANDED_OVER);
		EV("hand-over at once %d watched %d", all_at_once, watch);
		for (auto &x : s)
			x.owner = 0;
		u64 last[N];
		bool ended[N]{};
		for (size_t i = 0; i < N; i++)
			last[i] = s[i].val;
		auto giver = [&] {
			if (all_at_once) {
				for (size_t i = 0; i < N; i++) {
					s[i].owner = -1;
					s[i].val = last[i] = 0;
					s[i].releases = 1;
					ended[i] = true;
				}
				u64 b = wm::time();
				EV("T%d clear %lu", wm::self(), b);
				pool->clear();
				EV("T%d cleared", wm::self());
				for (size_t i = 0; i < N; i++) {
					s[i].released_by_me[wm::self()] = 1;
					holds.push_back({i, 0, wm::time(), wm::self()});
				}
			} else
				for (size_t i = 0; i < N; i++) {
					wm::op_boundary();
					if (choose(4))
						use(i);
					last[i] = s[i].val;
					ended[i] = true;
					destroy_own(i);
				}
		};
		auto other = [&, avg] {
			if (!watch)
				return worker(avg);
			while (more(2 * avg)) {
				wm::op_boundary();
				size_t i = choose(N);
				bool u = pool->is_used(i);
				EV("T%d is_used %lu -> %d (watching)", wm::self(), i, u);
				if (u)
					continue;
				CHECK(ended[i], P(P02), "used-flag-wrong", "slot %lu is held but reported unused", i);
				if (ended[i])
					CHECK((*pool)[i].is(last[i]), P(P01), "not-visible", "T%d sees slot %lu unused, but not what its owner stored last", wm::self(), i);
			}
		};
		if (nth == 2)
			wm::parallel({giver, other});
		else if (nth == 3)
			wm::parallel({giver, other, other});
		else
			wm::parallel({giver, other, other, other});
		check_refusals();
		idle_checks();
	}
	void run() {
		probe(P_THREADED);
		wm::Config c;
		c.race_props = P(P01);
		c.f_preempt = F_PREEMPT;
		c.f_isr = F_ISR;
		c.f_stale = F_STALE;
		c.f_spurious = F_SPURIOUS;
		wm::draw_policy(c, true, 0b110);
		c.spurious_num = pick({0, 1});
		c.spurious_den = 4;
		weak = c.weak;
		wm::begin(c);
		pool = wm::make<Pool>();
		int nth = 2 + choose(3);
		if (c.isr_mask)
			nth = 2;
		EV("pool of %lu, %d threads, weak %d isr %x gap %u", N, nth, c.weak, c.isr_mask, c.mean_gap);
		for (int rounds = 1 + choose(3); rounds--;) {
			if (choose(6) == 0)
				clear();
			if (choose(3) == 0)
				fill();
			if (choose(3) == 0)
				release_race(nth);
			if (choose(4) == 0)
				hand_over_round(nth, 3 + choose(8));
			round(nth, 4 + choose(10));
			if (choose(4) == 0)
				release_race(nth);
		}
		if (choose(2))
			fill();
		run_nontrivial = created_total > 0;
		pool->~Pool();
		wm::end();
		sim_time(wm::time());
	}
};

// ---------------------------------------------------------------- single-threaded pool
template<class T, size_t N>
void seq() {
	probe(P_SEQ);
	using Pool = cpputil::Pool<T, N>;
	// the pool sits between two identical objects, whose items are foreign
	static Pool mem[3];
	for (auto &m : mem) {
		m.~Pool();
		memset((void *)&m, 0xA5, sizeof m);
		new (&m) Pool;
	}
	Pool &p = mem[1];
	std::vector<std::pair<T *, u64>> live;
	std::set<T *> seen;
	u64 next = 1;
	auto intact = [&] {
		for (auto &[q, v] : live)
			CHECK(q->is(v), P(P01), "disturbed", "an item in use was changed by another operation");
	};
	auto got = [&](T *q, bool deflt) {
		if (!q) {
			probe(P_REFUSED);
			CHECK(live.size() == N, P(P02), "refused-with-room", "refused with %lu of %lu items in use", live.size(), N);
			return;
		}
		auto a = (uintptr_t)q;
		CHECK(a >= (uintptr_t)&p && a + sizeof(T) <= (uintptr_t)(&p + 1), P(P01), "bad-slot", "an item outside the pool was handed out");
		if (!(a >= (uintptr_t)&p && a + sizeof(T) <= (uintptr_t)(&p + 1)))
			return;
		for (auto &[x, v] : live)
			CHECK(a + sizeof(T) <= (uintptr_t)x || (uintptr_t)x + sizeof(T) <= a, P(P01), "double-hand-out", "an item in use was handed out again");
		CHECK(live.size() < N, P(P01) | P(P02), "double-hand-out", "more than %lu items in use", N);
		if (deflt)
			CHECK(q->is(0), P(P02), "not-default", "create() returned an item that does not hold a default value");
		if (!seen.insert(q).second)
			probe(P_REUSED);
		q->set(next);
		live.push_back({q, next});
		next = next % 200 + 1;
		run_nontrivial = true;
	};
	auto destroy = [&](T *q, bool want, const char *what) {
		bool r = p.destroy(q);
		EV("destroy %s -> %d", what, r);
		CHECK(r == want, P(P01), want ? "release-failed" : "foreign-released", "destroy of %s returned %d", what, r);
	};
	T foreign;
	if (N > 64) { // many slots: mostly taken before the random operations
		for (size_t k = N - choose(4); k > 0; k--) {
			T *q = p.create();
			got(q, true);
			if (!q)
				break;
		}
		intact();
	}
	while (more(24)) {
		step();
		switch (choose(8)) {
			case 0:
			case 1:
			case 2: {
				T *q = p.create();
				EV("create -> %ld", q ? long((char *)q - (char *)&p) : -1l);
				got(q, true);
				break;
			}
			case 3: {
				T *q = p.create_for_overwrite();
				EV("create_for_overwrite -> %ld", q ? long((char *)q - (char *)&p) : -1l);
				got(q, false);
				break;
			}
			case 4:
			case 5:
				if (live.size()) {
					size_t k = choose(live.size());
					T *q = live[k].first;
					live.erase(live.begin() + k);
					destroy(q, true, "an item in use");
					intact();
					if (choose(3) == 0) {
						probe(P_RELEASE_NOT_OWNED);
						destroy(q, false, "the same item again");
					}
				}
				break;
			case 6: {
				probe(P_FOREIGN);
				switch (choose(4)) {
					case 0:
						destroy(nullptr, false, "null");
						break;
					case 1:
						destroy(&foreign, false, "a foreign object");
						break;
					case 2: {
						Pool &o = mem[choose(2) * 2];
						T *f = o.create();
						if (f) {
							destroy(f, false, "an item of another pool");
							CHECK(o.destroy(f), P(P01), "release-failed", "destroying an item of another pool changed that pool");
						}
						break;
					}
					case 3:
						if (live.size() && sizeof(T) > 1)
							destroy(reinterpret_cast<T *>(reinterpret_cast<char *>(live[choose(live.size())].first) + 1), false, "the inside of an item");
						break;
				}
				break;
			}
			case 7: // an item seen earlier that is not in use now
				for (T *q : seen)
					if (std::none_of(live.begin(), live.end(), [&](auto &x) { return x.first == q; })) {
						destroy(q, false, "a released item");
						break;
					}
				break;
		}
		intact();
	}
	sim_time(box->steps);
}

template<size_t N>
void run_n(bool s) {
	if (choose(2)) {
		if (s)
			return seq<One, N>();
		static Conc<One, N> c;
		c = {};
		c.run();
	} else {
		if (s)
			return seq<Rec, N>();
		static Conc<Rec, N> c;
		c = {};
		c.run();
	}
}

void run() {
	bool s = choose(8) == 7;
	if (chance(1, 2048))
		return run_n<300>(s);
	if (s && chance(1, 64))
		return run_n<70>(s);
	switch (choose(6)) {
		case 0:
			return run_n<2>(s);
		case 1:
			return run_n<1>(s);
		case 2:
			return run_n<3>(s);
		case 3:
			return run_n<4>(s);
		case 4:
			return run_n<7>(s);
		case 5:
			return run_n<12>(s);
	}
}
} // namespace

#define RULE "Each run draws the pool (7/8 the thread-safe pool with 2-4 simulated threads, 1/8 the single-threaded pool), its size, the item type, scheduling and memory policy, then rounds of concurrent hand-outs, uses, releases and queries, racing releases, fills and clears. Non-trivial: at least one slot was handed out."
namespace sim
{
Harness harness = {
	"pool",
	{{"P01", 2000000, 90000000, RULE}, {"P02", 2000000, 90000000, RULE}},
	{"preemption between two memory accesses of an operation", "interrupt handler runs in the middle of an operation", "load returns an older store (weak memory)", "weak compare-and-swap fails for no reason"},
	{"hand-out refused", "slot handed out again", "several threads release one held slot", "released although not handed out", "released out of range", "filled completely", "cleared", "overlapping hand-out requests", "foreign pointer released", "single-threaded pool", "thread-safe pool", "slots asked for while all are given back", "slots watched while given back"},
	"complete event log (operations, results, context switches)",
	"memory accesses and operation boundaries executed",
	{"util/thread_safe_pool.hh", "util/pool.hh", "libstdc++ std::atomic, std::optional, std::array"},
	{"processor: simulated threads and interrupts", "memory system: view-based C++20 memory model"},
	{"a compare-and-swap reads the newest store", "clear() is only called by the holder of every slot, or while nobody uses the pool, as its implementation requires"},
	run,
	400000};
}
