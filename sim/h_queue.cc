// Q01..Q04: LockFreeFifoSpsc / LockFreeFifoSpscDyn under simulated schedules, weak memory and allocation failures
// PARTS 4
#include "wm.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

using namespace sim;
namespace
{
enum { Q01, Q02, Q03, Q04 };
enum F { F_PREEMPT, F_ISR, F_STALE, F_ALLOC, F_STALL };
enum PR {
	P_FULL, P_EMPTY, P_WRAP_PLACES, P_WRAP_COUNTER, P_STALE_FULL, P_STALE_EMPTY, P_RESET_CONSUMER, P_RESET_RACE, P_DISCARD_AMBIG,
	P_DISCARD, P_PRIME_OFFSET, P_PRIME_PRELOAD, P_PRIME_POS, P_PRIME_READOFF, P_RESIZE_GROW, P_RESIZE_SHRINK, P_RESIZE_SAME, P_RESIZE_FAIL,
	P_USE_AFTER_FAIL, P_PROMISE_PUT, P_PROMISE_GET, P_KNOWN_SHAPE, P_DYN, P_FIXED, P_REPRIMED, P_DELAY, P_SKIP_POS, P_SKIP_OFFSET
};


// ---- items: all words derive from the number, so torn or mixed contents are visible
struct Wide {
	u64 w[5]{};
	static Wide of(u64 n) {
		Wide x;
		for (int i = 0; i < 5; i++)
			x.w[i] = n ? n * 8 + i : 0;
		return x;
	}
	bool num(u64 &n) const {
		n = w[0] / 8;
		for (int i = 0; i < 5; i++)
			if (w[i] != (n ? n * 8 + i : 0))
				return false;
		return true;
	}
};
struct Word {
	u64 w = 0;
	static Word of(u64 n) {
		return {n};
	}
	bool num(u64 &n) const {
		n = w;
		return true;
	}
};
struct Odd { // size not a power of two, byte members
	u8 b[3]{};
	u8 tag = 0;
	static Odd of(u64 n) {
		Odd x;
		x.b[0] = n;
		x.b[1] = n >> 8;
		x.b[2] = n >> 16;
		x.tag = n ? u8(n * 37 + 11) : 0;
		return x;
	}
	bool num(u64 &n) const {
		n = b[0] | b[1] << 8 | b[2] << 16;
		return tag == (n ? u8(n * 37 + 11) : 0);
	}
};
// User-defined copies and moves: a moved-from item is empty
struct Movable {
	u64 a = 0, b = 0;
	Movable() = default;
	Movable(Movable const &o)
		: a{o.a}
		, b{o.b} {
	}
	Movable(Movable &&o)
		: a{o.a}
		, b{o.b} {
		o.a = 0;
		o.b = 77;
	}
	Movable &operator=(Movable const &o) {
		a = o.a;
		b = o.b;
		return *this;
	}
	Movable &operator=(Movable &&o) {
		if (this != &o) {
			a = o.a;
			b = o.b;
			o.a = 0;
			o.b = 77;
		}
		return *this;
	}
	static Movable of(u64 n) {
		Movable x;
		x.a = n;
		x.b = n * 3;
		return x;
	}
	bool num(u64 &n) const {
		n = a;
		return b == n * 3;
	}
};

struct Model {
	u64 cap = 0;
	u64 start = 0;				  // absolute position of logical position 0
	std::vector<u64> items;		  // item number at each logical position
	u64 A = 0;					  // logical write position: completed insertions
	bool put_busy = false;		  // an insertion is in progress
	std::vector<u64> S;			  // possible logical read positions
	bool removal_busy = false;	  // a removal of one item is in progress
	bool reset_busy = false;	  // a reset is in progress
	u64 skip_to = 0;			  // the read position is being moved here
	u64 keep_back = 0;			  // a reset in progress leaves this many items
	u64 promise_free = 0, promise_filled = 0;
	u64 know_A = 0;				  // weak memory: what the consumer was told
	u64 know_T = 0;				  // weak memory: what the producer was told
	u64 next_num = 1;
	u64 special = 0;			  // extra properties that this history also exercises (Q03/Q04 bits)
	u64 oldest = 0;				  // logical position of the first place used since construction or resizing
	bool broken = false;		  // after a failed resize: only memory safety and no invented items
	bool rt = true;				  // real-time knowledge (single core or strong memory)
	u64 lo() const {
		return S.front();
	}
	u64 hi() const {
		return S.back();
	}
	u64 Abegun() const {
		return A + (put_busy ? 1 : 0);
	}
	u64 Tbegun() const {
		if (reset_busy)
			return std::max(hi(), Abegun() - std::min(keep_back, Abegun()));
		return std::max(skip_to, hi() + (removal_busy ? 1 : 0));
	}
};

Model M;
u64 q(int p) {
	return P(p) | M.special;
}
// from here on the history also exercises this property
void also(u64 props) {
	M.special |= props;
	wm::blame_races(P(Q01) | M.special);
}

template<class Q, class T>
struct Sys {
	Q *fifo;
	bool dyn;
	wm::Sync p2c, c2p;
	u64 sentA = 0, sentT = 0;
	bool racing_reset = false;

	T scramble() {
		return T::of(0);
	}

	// ---------------------------------------------------------------- producer
	void put() {
		u64 n = M.next_num++;
		u64 knowT = M.rt ? M.lo() : std::max(M.know_T, u64(0));
		EV("P%d put #%lu ...", wm::self(), n);
		// the content must be in the model before the insertion can become visible
		M.items.resize(M.A);
		M.items.push_back(n);
		M.put_busy = true;
		bool ok = fifo->put(T::of(n));
		M.put_busy = false;
		EV("P%d put #%lu -> %s", wm::self(), n, ok ? "accepted" : "full");
		if (ok) {
			u64 tb = M.Tbegun();
			M.A++;
			if (!M.broken)
				CHECK(M.A - std::min(tb, M.A) <= M.cap, q(Q02) | P(Q01), "over-capacity", "insertion #%lu was accepted although %lu of %lu places cannot have been freed", n, M.A - 1 - tb, M.cap);
			if (M.promise_free)
				M.promise_free--;
		} else {
			M.items.pop_back();
			probe(P_FULL);
			if (M.rt || M.A - M.lo() == M.cap)
				;
			else
				probe(P_STALE_FULL);
			if (!M.broken) {
				CHECK(M.A - knowT >= M.cap, q(Q02), "refused-with-room", "insertion #%lu was refused with %lu of %lu places in use as far as the producer can know", n, M.A - knowT, M.cap);
				CHECK(M.promise_free == 0, q(Q02), "free-count-broken", "insertion #%lu was refused although the producer had seen %lu free places", n, M.promise_free);
			}
		}
	}
	void p_counts(bool flag) {
		u64 knowT = M.rt ? M.lo() : M.know_T;
		u64 fr;
		if (flag) {
			bool f = fifo->full();
			EV("P full -> %d", f);
			if (M.broken)
				return;
			if (f) {
				CHECK(M.promise_free == 0, q(Q02), "full-flag-wrong", "full() although %lu free places had been seen", M.promise_free);
				CHECK(M.A - knowT >= M.cap, q(Q02), "full-flag-wrong", "full() with %lu of %lu places in use", M.A - knowT, M.cap);
				return;
			}
			fr = 1;
			CHECK(M.A - std::min(M.A, M.Tbegun()) < M.cap, q(Q02), "full-flag-wrong", "full() is false with all %lu places in use", M.cap);
		} else {
			fr = fifo->num_free();
			EV("P num_free -> %lu", fr);
			if (M.broken)
				return;
			u64 upper = M.cap - (M.A - std::min(M.A, M.Tbegun()));
			u64 used = M.A - knowT;
			u64 lower = used > M.cap ? 0 : M.cap - used;
			CHECK(fr <= upper, q(Q02), "free-count-wrong", "num_free() is %lu, but at most %lu places can be free", fr, upper);
			CHECK(fr >= std::max(lower, M.promise_free), q(Q02), "free-count-wrong", "num_free() is %lu, but the producer knows of %lu free places", fr, std::max(lower, M.promise_free));
			if (fr > M.cap)
				fr = M.cap;
		}
		M.promise_free = std::max(M.promise_free, fr);
		if (fr)
			probe(P_PROMISE_PUT);
	}
	void p_reset_race() {
		// the producer resets while the consumer may be removing
		EV("P reset ...");
		probe(P_RESET_RACE);
		known_tag = "producer-reset-races-get";
		u64 lo = M.lo();
		M.reset_busy = true;
		fifo->reset();
		EV("P reset done");
		// from here on every position up to the write position is possible
		std::vector<u64> all;
		for (u64 l = lo; l <= M.A; l++)
			all.push_back(l);
		M.S = all;
		M.reset_busy = false;
		M.promise_filled = 0;
		M.promise_free = 0;
		racing_reset = true;
	}

	// ---------------------------------------------------------------- consumer
	u64 consumer_knows() {
		u64 k = M.rt ? M.A : M.know_A;
		return std::max(k, M.lo() + M.promise_filled);
	}
	void got_item(u64 n, bool intact, bool maybe_none, const char *op) {
		M.removal_busy = false;
		if (!intact) {
			CHECK(false, q(Q01), "torn-item", "%s returned a torn or invented item (number field %lu)", op, n);
			return;
		}
		std::vector<u64> s2;
		for (u64 l : M.S)
			if (l < M.Abegun() && l < M.items.size() && M.items[l] == n)
				s2.push_back(l + 1);
		if (maybe_none)
			for (u64 l : M.S)
				s2.push_back(l);
		std::sort(s2.begin(), s2.end());
		s2.erase(std::unique(s2.begin(), s2.end()), s2.end());
		if (s2.empty()) {
			u64 exp = M.lo() < M.items.size() ? M.items[M.lo()] : 0;
			const char *c = n >= M.next_num ? "invented-item" : M.lo() >= M.Abegun() ? "item-from-empty-queue" : "wrong-item";
			CHECK(false, q(Q01), c, "%s returned item #%lu where #%lu (position %lu of %lu inserted) was due", op, n, exp, M.lo(), M.Abegun());
			// keep going from where the queue says it is
			for (auto &l : M.S)
				l = std::min(l + 1, M.Abegun());
			return;
		}
		M.S = s2;
		if (M.promise_filled)
			M.promise_filled--;
		run_nontrivial = true;
	}
	void got_none(u64 known, const char *op) {
		M.removal_busy = false;
		probe(P_EMPTY);
		if (M.hi() < M.Abegun())
			probe(P_STALE_EMPTY);
		if (M.broken)
			return;
		CHECK(M.promise_filled == 0, q(Q02), "filled-count-broken", "%s found nothing although the consumer had seen %lu items", op, M.promise_filled);
		CHECK(M.hi() >= known, q(Q02), "false-empty", "%s found nothing although the consumer can know of %lu items it has not taken", op, known - M.hi());
		// nothing was there: everything the consumer could know of has been taken
		std::erase_if(M.S, [&](u64 l) { return l < known; });
	}
	void get(int how) {
		u64 known = consumer_knows();
		M.removal_busy = true;
		u64 n = 0;
		if (how == 0) {
			EV("C get ...");
			auto x = fifo->get();
			bool ok = x.has_value() ? x->num(n) : true;
			EV("C get -> #%lu%s", x.has_value() ? n : 0, x.has_value() ? "" : " (nothing)");
			if (x)
				got_item(n, ok, false, "get()");
			else
				got_none(known, "get()");
		} else if (how == 1) {
			T x = T::of(0);
			EV("C get_move ...");
			bool r = fifo->get_move(x);
			bool ok = r ? x.num(n) : true;
			EV("C get_move -> #%lu%s", n, r ? "" : " (nothing)");
			if (r)
				got_item(n, ok, false, "get_move()");
			else
				got_none(known, "get_move()");
		} else {
			EV("C get_or_default ...");
			T x = fifo->get_or_default();
			bool ok = x.num(n);
			EV("C get_or_default -> #%lu", n);
			if (n || !ok)
				got_item(n, ok, false, "get_or_default()");
			else {
				bool could = false;
				for (u64 l : M.S)
					could |= l < M.items.size() && l < M.Abegun() && M.items[l] == 0;
				if (could) {
					bool maybe_none = M.promise_filled == 0 && M.hi() >= known;
					got_item(0, true, maybe_none, "get_or_default()");
				} else
					got_none(known, "get_or_default()");
			}
		}
	}
	void discard() {
		u64 known = consumer_knows();
		M.removal_busy = true;
		EV("C remove_first ...");
		fifo->remove_first();
		EV("C remove_first done");
		M.removal_busy = false;
		also(P(Q03));
		probe(P_DISCARD);
		std::set<u64> s2;
		for (u64 l : M.S) {
			if (l >= known)
				s2.insert(l);
			if (l < M.Abegun())
				s2.insert(l + 1);
		}
		if (s2.size() > M.S.size())
			probe(P_DISCARD_AMBIG);
		M.S.assign(s2.begin(), s2.end());
		if (M.promise_filled)
			M.promise_filled--;
	}
	void c_reset() {
		u64 known = consumer_knows();
		also(P(Q03));
		M.reset_busy = true;
		EV("C reset ...");
		fifo->reset();
		EV("C reset done");
		u64 lo = std::max(M.lo(), known), hi = M.Abegun();
		M.S.clear();
		for (u64 l = lo; l <= hi; l++)
			M.S.push_back(l);
		M.reset_busy = false;
		M.promise_filled = 0;
		probe(P_RESET_CONSUMER);
	}
	// The consumer moves its read position forward past items it knows of, while the producer goes on inserting
	void c_skip(bool by_offset) {
		u64 known = consumer_knows();
		u64 ahead = known > M.hi() ? known - M.hi() : 0;
		if (by_offset) {
			u64 keep = choose(ahead + 1);
			also(P(Q03));
			M.reset_busy = true;
			M.keep_back = keep;
			EV("C set_read_offset %lu ...", keep);
			fifo->set_read_offset(keep);
			EV("C set_read_offset done");
			M.reset_busy = false;
			M.keep_back = 0;
			std::set<u64> s2;
			bool maybe_not = false;
			for (u64 h = std::max(M.lo(), known); h <= M.Abegun(); h++) {
				if (keep <= M.start + h)
					s2.insert(h - keep);
				else // not possible
					maybe_not = true;
			}
			if (maybe_not)
				s2.insert(M.S.begin(), M.S.end());
			M.promise_filled = maybe_not ? std::min(M.promise_filled, keep) : keep;
			M.S.assign(s2.begin(), s2.end());
			probe(P_SKIP_OFFSET);
			return;
		}
		if (M.S.size() != 1 || !ahead)
			return;
		u64 k = 1 + choose(ahead), to = M.lo() + k;
		also(P(Q03));
		M.skip_to = to;
		EV("C set_read_pos, %lu items on ...", k);
		fifo->set_read_pos(M.start + to);
		EV("C set_read_pos done");
		M.skip_to = 0;
		M.S = {to};
		M.promise_filled -= std::min(M.promise_filled, k);
		probe(P_SKIP_POS);
	}
	void c_counts(bool flag) {
		u64 known = consumer_knows();
		if (flag) {
			bool e = fifo->empty();
			EV("C empty -> %d", e);
			if (M.broken)
				return;
			if (e) {
				CHECK(M.promise_filled == 0, q(Q02), "empty-flag-wrong", "empty() although %lu items had been seen", M.promise_filled);
				CHECK(M.hi() >= known, q(Q02), "empty-flag-wrong", "empty() although the consumer can know of %lu items", known - M.hi());
			} else {
				CHECK(M.Abegun() > M.lo(), q(Q02), "empty-flag-wrong", "empty() is false although nothing is in the queue");
				M.promise_filled = std::max<u64>(M.promise_filled, 1);
				std::erase_if(M.S, [&](u64 l) { return l >= M.Abegun(); });
				if (M.S.empty())
					M.S.push_back(M.Abegun());
			}
			return;
		}
		u64 v = fifo->num_filled();
		EV("C num_filled -> %lu", v);
		if (M.broken)
			return;
		u64 lower = std::max(known > M.hi() ? known - M.hi() : 0, M.promise_filled);
		u64 upper = M.Abegun() - M.lo();
		CHECK(v <= upper, q(Q02), "filled-count-wrong", "num_filled() is %lu, but at most %lu items can be there", v, upper);
		CHECK(v >= lower, q(Q02), "filled-count-wrong", "num_filled() is %lu, but the consumer knows of %lu items", v, lower);
		v = std::min(v, upper);
		std::vector<u64> keep;
		for (u64 l : M.S)
			if (l + v <= M.Abegun())
				keep.push_back(l);
		if (!keep.empty())
			M.S = keep;
		M.promise_filled = std::max(M.promise_filled, v);
		if (v)
			probe(P_PROMISE_GET);
	}

	// ---------------------------------------------------------------- both sides idle
	void exact_counts() {
		u64 f = fifo->num_filled(), e = fifo->num_free();
		bool em = fifo->empty(), fu = fifo->full();
		EV("idle: num_filled %lu num_free %lu empty %d full %d", f, e, em, fu);
		if (M.broken)
			return;
		bool match = false;
		for (u64 l : M.S)
			if (M.A - l == f) {
				M.S = {l};
				match = true;
				break;
			}
		CHECK(match, q(Q02), "idle-count-wrong", "num_filled() is %lu while both sides are idle and %lu..%lu items are there", f, M.A - M.hi(), M.A - M.lo());
		if (!match)
			M.S = {M.lo()};
		u64 used = M.A - M.lo();
		CHECK(used <= M.cap, q(Q02), "over-capacity", "%lu items in a queue of capacity %lu", used, M.cap);
		CHECK(e == M.cap - std::min(used, M.cap), q(Q02), "idle-count-wrong", "num_free() is %lu with %lu of %lu places used, both sides idle", e, used, M.cap);
		CHECK(em == (used == 0), q(Q02), "idle-flag-wrong", "empty() is %d with %lu items, both sides idle", em, used);
		CHECK(fu == (used == M.cap), q(Q02), "idle-flag-wrong", "full() is %d with %lu of %lu places used, both sides idle", fu, used, M.cap);
		CHECK(fifo->max_size() == M.cap, q(Q02), "max-size-wrong", "max_size() is %lu instead of %lu", u64(fifo->max_size()), M.cap);
		M.promise_filled = used;
		M.promise_free = M.cap - std::min(used, M.cap);
		M.know_A = M.A;
		M.know_T = M.lo();
	}
	void idle_reset() {
		EV("producer side reset while the consumer is idle");
		fifo->reset();
		also(P(Q03));
		M.S = {M.A};
		M.promise_filled = 0;
		M.promise_free = 0;
	}

	// the delay is set anew while nobody uses the queue: places read before may be read again
	void idle_offset() {
		u64 most = std::min(M.cap, M.A - M.oldest); // further back nothing was ever stored
		if constexpr (!std::is_trivially_copyable_v<T>)
			most = std::min(most, M.A - M.lo()); // what was moved out is gone
		u64 off = choose(most + 1);
		also(P(Q03));
		if (choose(2)) {
			fifo->set_read_offset(off);
			if (off > M.start + M.A) // not possible
				off = M.A - M.lo();
		} else
			fifo->set_read_pos(M.start + M.A - off);
		EV("read position %lu behind the write position", off);
		probe(P_REPRIMED);
		M.S = {M.A - off};
		M.promise_filled = 0;
		M.promise_free = 0;
	}

	// ---------------------------------------------------------------- dynamic queue
	void resize(bool may_fail) {
		if constexpr (requires { fifo->resize(1); }) {
			also(P(Q04));
			u64 n = chance(1, 5) ? u64(fifo->max_size()) : chance(1, 48) ? 250 + choose(300) : 1 + choose(12);
			if (n == 0)
				n = 1 + choose(12);
			u64 old = fifo->max_size();
			bool armed = may_fail && chance(1, 2);
			WithStream ws(S_FAULT);
			EV("resize %lu -> %lu%s ...", old, n, armed ? " while memory is short" : "");
			bool threw = false;
			long before = stats->fault[F_ALLOC];
			{
				wm::HeapScope h;
				wm::alloc_fail_in = armed ? 1 : 0;
				try {
					fifo->resize(n);
				} catch (std::bad_alloc &) {
					threw = true;
				}
				wm::alloc_fail_in = 0;
			}
			bool injected = long(stats->fault[F_ALLOC]) != before;
			EV("resize -> %s", threw ? "bad_alloc" : "done");
			CHECK(!threw || injected, P(Q04), "resize-failed", "resize(%lu) failed although memory was available", n);
			if (!threw && injected && n != old)
				CHECK(false, P(Q04), "resize-failure-hidden", "resize(%lu) reported success although its allocation failed", n);
			if (n == old) {
				probe(P_RESIZE_SAME);
				CHECK(!threw, P(Q04), "resize-same-changes", "resize to the same capacity %lu failed", n);
				if (M.broken)
					wide_open();
				M.broken = false;
				M.cap = n;
				return;
			}
			if (threw) {
				probe(P_RESIZE_FAIL);
				M.broken = true;
				M.oldest = M.A;
				wide_open();
				return;
			}
			probe(n > old ? P_RESIZE_GROW : P_RESIZE_SHRINK);
			M.broken = false;
			M.cap = n;
			M.S = {M.A};
			M.oldest = M.A;
			M.promise_filled = 0;
			M.promise_free = 0;
		}
	}
	void wide_open() {
		u64 lo = M.lo();
		M.S.clear();
		for (u64 l = lo; l <= M.A; l++)
			M.S.push_back(l);
		M.promise_filled = M.promise_free = 0;
	}

	// ---------------------------------------------------------------- the workload
	struct Mix {
		u32 put, pcount, pflag, get, move, dflt, discard, reset, ccount, cflag, sync, skip_pos, skip_off;
		u32 preset; // racing reset
	} mix{};

	void producer(u64 avg) {
		while (more(avg)) {
			wm::op_boundary();
			if (chance(mix.sync, 16)) {
				if (!M.rt) {
					wm::consume(c2p);
					M.know_T = std::max(M.know_T, sentT);
				}
			}
			u64 total = mix.put + mix.pcount + mix.pflag + mix.preset;
			u64 r = choose(total);
			if (r < mix.put)
				put();
			else if (r < mix.put + mix.pcount)
				p_counts(false);
			else if (r < mix.put + mix.pcount + mix.pflag)
				p_counts(true);
			else
				p_reset_race();
			if (chance(mix.sync, 16) && !M.rt) {
				wm::publish(p2c);
				sentA = M.A;
				EV("P tells the consumer");
			}
		}
	}
	void consumer(u64 avg) {
		while (more(avg)) {
			wm::op_boundary();
			if (chance(mix.sync, 16)) {
				if (!M.rt) {
					wm::consume(p2c);
					M.know_A = std::max(M.know_A, sentA);
				}
			}
			u64 w[] = {mix.get, mix.move, mix.dflt, mix.discard, mix.reset, mix.ccount, mix.cflag, mix.skip_pos, mix.skip_off};
			u64 total = 0;
			for (u64 x : w)
				total += x;
			u64 r = choose(total), k = 0;
			while (r >= w[k])
				r -= w[k++];
			switch (k) {
				case 0:
				case 1:
				case 2:
					get(k);
					break;
				case 3:
					discard();
					break;
				case 4:
					c_reset();
					break;
				case 5:
					c_counts(false);
					break;
				case 6:
					c_counts(true);
					break;
				case 7:
					c_skip(false);
					break;
				case 8:
					c_skip(true);
					break;
			}
			if (chance(mix.sync, 16) && !M.rt) {
				wm::publish(c2p);
				sentT = M.lo();
				EV("C tells the producer");
			}
		}
	}

	// item number stored in the place of logical position l, in a queue never written since construction
	void prime(u64 head_log, u64 tail_log, std::function<u64(u64)> content) {
		// positions before the write position hold initial contents
		M.items.clear();
		for (u64 l = 0; l < head_log; l++)
			M.items.push_back(content(l));
		M.A = head_log;
		M.S = {tail_log};
	}

	void drain() {
		// both sides idle, no more faults: everything must come out, then the full capacity must be usable
		if (M.broken)
			return;
		for (u64 i = M.A - M.lo(); i > 0; i--)
			get(i % 3 == 2 ? 1 : 0);
		get(0);
		exact_counts();
		for (u64 i = 0; i < M.cap; i++)
			put();
		put(); // must be refused: the counts were exact
		exact_counts();
		for (u64 i = 0; i < M.cap; i++)
			get(0);
		get(0);
		exact_counts();
	}

	void rounds(wm::Config const &cfg) {
		u64 rmax = 1 + choose(3);
		for (u64 r = 0; r < rmax; r++) {
			u64 avgp = pick({4, 8, 16, 30}), avgc = pick({4, 8, 16, 30});
			sentA = M.A;
			sentT = M.lo();
			M.know_A = M.A;
			M.know_T = M.lo();
			p2c = {};
			c2p = {};
			wm::parallel({[&] { producer(avgp); }, [&] { consumer(avgc); }});
			EV("both sides idle");
			if (racing_reset)
				wide_open();
			racing_reset = false;
			exact_counts();
			if (target_prop == Q03 && chance(1, 4))
				idle_reset(), exact_counts();
			if (target_prop == Q03 && chance(1, 4) && M.S.size() == 1)
				idle_offset(), exact_counts();
			if (dyn && (target_prop == Q04 || chance(1, 16))) {
				for (u64 k = 0; k < 3 && chance(2, 3); k++) {
					resize(target_prop == Q04 || chance(1, 3));
					if (M.broken) {
						probe(P_USE_AFTER_FAIL);
						for (int j = 0; j < 6; j++)
							chance(1, 2) ? put() : get(choose(3));
					} else
						exact_counts();
				}
				if (M.broken) {
					// memory is available again: service must come back
					WithStream ws(S_FAULT);
					u64 n = 1 + choose(12);
					u64 old = fifo->max_size();
					if constexpr (requires { fifo->resize(1); }) {
						wm::HeapScope h;
						fifo->resize(n);
					}
					EV("memory is back: resize -> %lu", n);
					M.broken = false;
					M.cap = n;
					M.oldest = M.A;
					if (n == old)
						wide_open();
					else
						M.S = {M.A}, M.oldest = M.A;
					M.promise_free = M.promise_filled = 0;
					exact_counts();
				}
			}
			u64 span = M.A;
			if (span > M.cap)
				probe(P_WRAP_PLACES);
			if (M.start + M.A < M.start)
				probe(P_WRAP_COUNTER);
		}
		drain();
		(void)cfg;
	}
};

u64 draw_start() {
	switch (choose(8)) {
		case 0:
		case 1:
			return 0;
		case 2:
			return choose(40);
		case 3:
			return 0ull - 1 - choose(40); // wraps soon
		case 4:
			return (1ull << 32) - 1 - choose(40);
		case 5:
			return (1ull << 63) - 1 - choose(40);
		case 6:
			return (1ull << 31) - 1 - choose(40);
		default:
			return bits64();
	}
}

bool pow2(u64 n) {
	return (n & (n - 1)) == 0;
}

template<class Q, class T, bool DYN>
void run_with(u64 cap, auto make_plain, auto make_head, auto make_span) {
	static Sys<Q, T> s;
	s = Sys<Q, T>{};
	const u64 margin = 3000 + 12 * cap; // more than the insertions of one run
	s.dyn = DYN && cap < 60000; // the simulated heap has no room for two of the largest
	M = Model{};
	M.cap = cap;
	probe(DYN ? P_DYN : P_FIXED);
	wm::Config c;
	c.race_props = P(Q01);
	c.f_preempt = F_PREEMPT;
	c.f_isr = F_ISR;
	c.f_stale = F_STALE;
	c.f_alloc = F_ALLOC;
	wm::draw_policy(c, true, 0b110);
	M.rt = !c.weak;
	bool race_reset = target_prop == Q03 && chance(1, 24);
	// operation mix
	s.mix.put = 6;
	s.mix.pcount = pick({0, 1, 4});
	s.mix.pflag = pick({0, 1, 2});
	s.mix.get = pick({1, 4, 6});
	s.mix.move = pick({0, 2, 4});
	s.mix.dflt = pick({0, 1});
	s.mix.ccount = pick({0, 1, 4});
	s.mix.cflag = pick({0, 1, 2});
	s.mix.sync = pick({0, 2, 6});
	bool q3 = target_prop == Q03;
	s.mix.discard = q3 ? pick({0, 1, 4}) : pick({0, 0, 0, 1});
	s.mix.reset = q3 ? pick({0, 1, 2}) : pick({0, 0, 0, 1});
	s.mix.skip_pos = q3 && !race_reset ? pick({0, 0, 1, 2}) : 0;
	s.mix.skip_off = q3 && !race_reset ? pick({0, 0, 1, 2}) : 0;
	s.mix.preset = race_reset ? 2 : 0;
	if (target_prop == Q02)
		s.mix.pcount += 2, s.mix.ccount += 2, s.mix.pflag++, s.mix.cflag++;

	wm::begin(c);
	u64 kind = choose(q3 ? 7 : 8);
	if (q3) {
		if (kind)
			also(P(Q03));
		if (kind == 1) { // initial offset between put and get
			u64 d = choose(cap + 1);
			s.fifo = make_head(d);
			s.prime(d, 0, [](u64) { return 0; });
			probe(P_PRIME_OFFSET);
		} else if (kind == 2 && !DYN) { // preloaded contents, all readable
			s.fifo = make_span();
			{
				s.fifo->set_write_pos(cap);
				s.prime(cap, 0, [](u64 l) { return 1000 + l; });
				M.next_num = 2000;
				probe(P_PRIME_PRELOAD);
			}
		} else if (kind == 3) { // explicit positions
			u64 st = draw_start(), d = choose(cap + 1);
			if (DYN && !pow2(cap) && st + margin < st)
				st = 5;
			s.fifo = make_plain();
			s.fifo->set_write_pos(st + d);
			s.fifo->set_read_pos(st);
			M.start = st;
			s.prime(d, 0, [](u64) { return 0; });
			probe(P_PRIME_POS);
		} else if (kind == 4) { // read position a fixed distance behind
			s.fifo = make_plain();
			u64 w = choose(60), off = choose(cap + 1);
			s.fifo->set_write_pos(w);
			s.fifo->set_read_pos(w);
			s.fifo->set_read_offset(off);
			if (off > w)
				off = 0;
			M.start = w - off;
			s.prime(off, 0, [](u64) { return 0; });
			probe(P_PRIME_READOFF);
		} else if (kind == 5 && !DYN) { // preloaded, partly readable
			s.fifo = make_span();
			u64 w = choose(3 * cap) + cap, off = choose(cap + 1);
			s.fifo->set_write_pos(w);
			s.fifo->set_read_pos(w);
			s.fifo->set_read_offset(off);
			M.start = w - off;
			s.prime(off, 0, [&](u64 l) { return 1000 + (w - off + l) % cap; });
			M.next_num = 2000;
			probe(P_PRIME_PRELOAD);
		} else {
			s.fifo = make_plain();
			s.prime(0, 0, [](u64) { return 0; });
		}
	} else {
		u64 st = kind < 2 ? 0 : draw_start();
		s.fifo = make_plain();
		if (st) {
			if (DYN && !pow2(cap) && st + margin < st) {
				// documented finding: counters wrapping with a capacity that is not a power of two
				if (target_prop == Q01 && chance(1, 8)) {
					known_tag = "dyn-nonpow2-counter-wrap";
					probe(P_KNOWN_SHAPE);
				} else
					st = 7;
			} else if (DYN && st + margin < st && target_prop != Q01 && target_prop != Q02)
				st = 9; // resized capacities need not be powers of two
			s.fifo->set_write_pos(st);
			s.fifo->set_read_pos(st);
		}
		M.start = st;
		s.prime(0, 0, [](u64) { return 0; });
	}
	EV("queue of %lu, %s, start %lx, weak %d isr %x gap %u stale 1/%u", cap, DYN ? "dynamic" : "fixed", M.start, c.weak, c.isr_mask, c.mean_gap, c.stale_den);
	if (DYN && M.start + margin < M.start)
		s.dyn = false; // no resizing across a counter wrap
	// matched rates see a fixed delay
	if (q3 && !race_reset && M.A > 0 && chance(1, 3)) {
		u64 delay = M.A - M.lo();
		if (delay < M.cap) {
			probe(P_DELAY);
			for (u64 i = 0; i < 3 * cap; i++) {
				s.put();
				s.get(choose(2));
				CHECK(M.A - M.lo() == delay, P(Q03), "delay-changed", "the delay became %lu instead of %lu", M.A - M.lo(), delay);
			}
		}
	}
	s.exact_counts();
	s.rounds(c);
	{
		wm::HeapScope h;
		s.fifo->~Q();
	}
	wm::end();
	sim_time(wm::time());
}

template<class T, size_t N>
void run_fixed() {
	using Q = LockFreeFifoSpsc<T, N>;
	auto mem = [] { return wm::alloc(sizeof(Q), 64); };
	run_with<Q, T, false>(
		N, [&] { return new (mem()) Q; },
		[&](u64 h) { return new (mem()) Q(size_t(h)); },
		[&] {
			static std::array<T, N> init;
			for (size_t i = 0; i < N; i++)
				init[i] = T::of(1000 + i);
			return new (mem()) Q(std::span<T, N>(init));
		});
}
template<class T>
void run_dyn(size_t cap) {
	using Q = LockFreeFifoSpscDyn<T>;
	auto plain = [&] {
		void *m = wm::alloc(sizeof(Q), 64);
		wm::HeapScope h;
		return new (m) Q(cap);
	};
	run_with<Q, T, true>(
		cap, plain,
		[&](u64 hd) {
			void *m = wm::alloc(sizeof(Q), 64);
			wm::HeapScope h;
			return new (m) Q(cap, size_t(hd));
		},
		plain);
}

template<class T>
void run_type() {
	bool dyn = target_prop == Q04 ? true : choose(2);
	if (dyn) {
		static const size_t caps[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16};
		u64 k = choose(60000);
		if (PART == 0 && k == 1)
			run_dyn<T>(pick<size_t>({65536, 65600}));
		else
			run_dyn<T>(k % 600 == 0 ? pick<size_t>({250, 256, 300, 512}) : caps[choose(std::size(caps))]);
	} else if (u64 k = choose(60000); k % 600 == 0)
		run_fixed<T, 512>();
	else if (k == 1 && PART == 0) {
		if constexpr (PART == 0)
			run_fixed<T, 65536>();
	} else
		switch (choose(5)) {
			case 0:
				return run_fixed<T, 1>();
			case 1:
				return run_fixed<T, 2>();
			case 2:
				return run_fixed<T, 4>();
			case 3:
				return run_fixed<T, 8>();
			case 4:
				return run_fixed<T, 16>();
		}
}

using Part = std::tuple_element_t<PART, std::tuple<Word, Wide, Odd, Movable>>;
} // namespace

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(run_part, PART)() {
	run_type<Part>();
}

#if PART == 0
void run_part1();
void run_part2();
void run_part3();

// Queues of more than 65536 places, used by one side at a time
template<class Q>
static void large(Q &q, u64 cap, u64 primed) {
	probe(P_FULL);
	struct Item {
		u32 v;
		bool known;
	};
	std::deque<Item> m(primed, Item{0, false}); // what was there before is not looked at
	u32 next = 0;
	run_nontrivial = true;
	EV("large queue of %lu, %lu in it", cap, primed);
	auto counts = [&](u64 props) {
		CHECK(q.num_filled() == m.size() && q.num_free() == cap - m.size(), props, "idle-count-wrong", "%lu filled and %lu free of %lu instead of %lu filled", u64(q.num_filled()), u64(q.num_free()), cap, u64(m.size()));
		CHECK(q.empty() == m.empty() && q.full() == (m.size() == cap) && q.max_size() == cap, props, "idle-count-wrong", "empty %d full %d of %lu with %lu of %lu filled", q.empty(), q.full(), u64(q.max_size()), u64(m.size()), cap);
	};
	auto get = [&](u64 n) {
		EV("get %lu", n);
		for (u64 i = 0; i < n; i++) {
			std::optional<Word> x;
			if (i & 1) {
				Word w;
				if (q.get_move(w))
					x = w;
			} else
				x = q.get();
			CHECK(x.has_value() == !m.empty(), P(Q01), "lost-or-invented", "get number %lu gave %s with %lu stored", i, x ? "an element" : "nothing", u64(m.size()));
			if (x && !m.empty()) {
				if (m.front().known)
					CHECK(x->w == m.front().v, P(Q01), "wrong-element", "get number %lu gave another element than number %u", i, m.front().v);
				m.pop_front();
			}
		}
	};
	counts(P(Q02) | P(Q03));
	while (more(8)) {
		step();
		switch (choose(7)) {
			case 0:
			case 1: {
				u64 n = choose(3) ? choose(cap + 4) : cap - m.size() + choose(3);
				EV("put %lu", n);
				for (u64 i = 0; i < n; i++) {
					bool ok = q.put(Word::of(next));
					CHECK(ok == (m.size() < cap), P(Q01), "refused-with-room", "put number %lu gave %d with %lu of %lu filled", i, ok, u64(m.size()), cap);
					if (m.size() < cap)
						m.push_back({next, true});
					next++;
				}
				counts(P(Q02));
				break;
			}
			case 2:
				get(choose(m.size() + 3));
				counts(P(Q02));
				break;
			case 3: {
				u64 off = choose(3) ? choose(m.size() + 1) : m.size() - choose(std::min<u64>(m.size(), 3) + 1);
				EV("only the last %lu", off);
				q.set_read_offset(off);
				while (m.size() > off)
					m.pop_front();
				counts(P(Q03));
				break;
			}
			case 4:
				if (choose(3))
					break;
				EV("reset");
				q.reset();
				m.clear();
				counts(P(Q03));
				break;
			case 5:
				if (m.empty())
					break;
				EV("discard");
				q.remove_first();
				m.pop_front();
				counts(P(Q03));
				break;
			default:
				if constexpr (requires { q.resize(cap); }) {
					cap = choose(4) ? pick<u64>({70000, 131072, 65537, 100003, 5}) : cap;
					EV("resize %lu", cap);
					if (cap != q.max_size())
						m.clear();
					q.resize(cap);
					counts(P(Q04));
				}
		}
	}
	get(m.size() + 1);
	counts(P(Q02));
}
static void large() {
	u64 cap = pick<u64>({70000, 131072, 65537, 100003}), primed = choose(cap + 1);
	switch (target_prop == Q04 ? 2 + choose(2) : choose(4)) {
		case 0:
			return large(*std::make_unique<LockFreeFifoSpsc<Word, 131072>>(), 131072, 0);
		case 1:
			return large(*std::make_unique<LockFreeFifoSpsc<Word, 131072>>(size_t(primed)), 131072, primed);
		case 2:
			probe(P_DYN);
			return large(*std::make_unique<LockFreeFifoSpscDyn<Word>>(size_t(cap)), cap, 0);
		default:
			probe(P_DYN);
			return large(*std::make_unique<LockFreeFifoSpscDyn<Word>>(size_t(cap), size_t(primed)), cap, primed);
	}
}
static void run() {
	if (choose(20000) == 0)
		return large();
	switch (choose(4)) {
		case 0:
			return run_part0();
		case 1:
			return run_part1();
		case 2:
			return run_part2();
		case 3:
			return run_part3();
	}
}

namespace sim
{
#define RULE "Each run draws element type, fixed or dynamic queue, capacity, start positions, operation mix, scheduling and memory policy, then 1-3 rounds of a concurrent producer and consumer and a final idle drain. Non-trivial: the consumer obtained at least one item."
Harness harness = {
	"queue",
	{{"Q01", 1500000, 60000000, RULE}, {"Q02", 1500000, 60000000, RULE " Mix biased to counts and flags."}, {"Q03", 1500000, 60000000, RULE " Mix biased to reset, remove_first and primed starts; matched put/get rates check the delay."}, {"Q04", 1200000, 45000000, RULE " Dynamic queue with resizes between rounds, half of them with a failing allocation."}},
	{"preemption between two memory accesses of an operation", "interrupt handler runs in the middle of an operation", "load returns an older store (weak memory)", "allocation failure inside resize"},
	{"put refused", "get found nothing", "more items than places (place wrap)", "position counter wrapped", "refused on stale knowledge", "empty on stale knowledge", "consumer reset", "producer reset racing the consumer", "discard with uncertain effect", "discard", "primed by offset", "primed by preload", "primed by positions", "primed by read offset", "resize: grow", "resize: shrink", "resize: same", "resize: failed", "used after failed resize", "free count relied on", "filled count relied on", "known-finding shape", "dynamic queue", "fixed queue", "read position set again", "matched-rate delay checked", "read position moved on during insertions", "read offset set during insertions"},
	"complete event log (operations, results, context switches, stale loads)",
	"memory accesses and operation boundaries executed",
	{"util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh", "util/math.hh", "libstdc++ std::atomic, std::optional, std::array, std::vector"},
	{"processor: simulated threads and interrupts", "memory system: view-based C++20 memory model", "heap: tracked arena with injected failures"},
	{"the memory model appends every store at the end of its location's modification order", "compiler reordering is not simulated beyond what clang -O1 emitted"},
	run,
	6000000};
}
#endif
