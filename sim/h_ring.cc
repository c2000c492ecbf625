// R01..R03: ring buffers, recording and playback buffers, block writes and the external delay line,
// driven by producing and consuming tasks that stall, burst, overrun and underrun
#include "core.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"
#include "util/circular_buffer_opt.hh"
#include "util/input_output_buffer.hh"

using namespace sim;
namespace
{
enum { R01, R02, R03 };
enum F { F_STALL_CONSUMER, F_STALL_PRODUCER, F_BURST, F_OVERRUN, F_UNDERRUN, F_DIRTY, F_SEEK };
enum PR { P_OVERWRITE, P_EMPTY_GET, P_FULL, P_WRAP, P_DISCARD, P_RESET, P_PREFILL, P_DELAY, P_DELAY_FULL, P_PEEK, P_IGNORED, P_DEFAULTS, P_BLOCK_WRAP, P_BLOCK_WHOLE, P_BLOCK_EXACT, P_WRAPPED, P_CROSSED, P_NOT_CROSSED, P_CROSSED_WRAP, P_OVERDUB, P_REVERSE, P_READ_BACK, P_CLEAR };

// ---------------------------------------------------------------- items
struct Wide {
	u64 a = 0;
	u8 b = 0;
	u32 c[3] = {};
	Wide() = default;
	Wide(u64 v)
		: a{v * 3}
		, b{u8(v)}
		, c{u32(v), ~u32(v), 7} {
	}
	bool operator==(Wide const &) const = default;
};
struct Owner { // contents outside the item
	std::shared_ptr<u64> p;
	Owner() = default;
	Owner(u64 v)
		: p{std::make_shared<u64>(v)} {
	}
	bool operator==(Owner const &o) const {
		return (!p && !o.p) || (p && o.p && *p == *o.p);
	}
};
struct Chars {
	char s[7] = {};
	Chars() = default;
	Chars(u64 v) {
		for (int i = 0; i < 7; i++)
			s[i] = char(v >> i);
	}
	bool operator==(Chars const &) const = default;
};
u64 serial; // distinct items in one run

// Tasks: one of the two runs for a while, the other is stalled
struct Sched {
	int task = 0;
	u64 left = 0;
	u64 bias = 0;
	Sched() {
		bias = choose(5);
	}
	int next() {
		step();
		if (!left) {
			int was = task;
			task = bias == 0 ? choose(2) : bias == 1 ? choose(5) == 0 : bias == 2 ? choose(5) != 0 : !task;
			left = choose(4) ? 1 + choose(3) : 1 + choose(40);
			if (left > 8)
				fault(F_BURST), fault(task ? F_STALL_PRODUCER : F_STALL_CONSUMER);
			if (was == task && left <= 8)
				fault(task ? F_STALL_PRODUCER : F_STALL_CONSUMER);
		}
		left--;
		return task;
	}
};

// ---------------------------------------------------------------- R01
template<class B, class T, size_t N, bool Opt>
struct Ring {
	B b;
	std::deque<std::optional<T>> m; // unknown: content left from before
	bool fresh = true;				// nothing was ever stored: all cells hold default values

	void agree() {
		size_t n = m.size();
		CHECK(b.count() == n && b.num_filled() == n, P(R01), "count", "count %lu, filled %lu, with %lu items", b.count(), b.num_filled(), n);
		CHECK(b.empty() == (n == 0), P(R01), "empty", "empty %d with %lu items", b.empty(), n);
		CHECK(b.full() == (n == N), P(R01), "full", "full %d with %lu of %lu items", b.full(), n, N);
		CHECK(b.max_size() == N && b.max_capacity() == N, P(R01), "count", "capacity");
		CHECK((b.get_tail_idx() + n) % N == b.get_head_idx(), P(R01), "count", "head %lu and tail %lu with %lu items", b.get_head_idx(), b.get_tail_idx(), n);
	}
	void put() {
		T x(++serial);
		if (m.size() == N) {
			m.pop_front();
			probe(P_OVERWRITE);
			fault(F_OVERRUN);
		}
		m.push_back(x);
		if (m.size() == N)
			probe(P_FULL);
		b.put(x);
		fresh = false;
		EV("put %lu, %lu items", serial, m.size());
	}
	void get() {
		EV("get from %lu items", m.size());
		T want{};
		bool known = true, some = !m.empty();
		if (some) {
			known = m.front().has_value();
			if (known)
				want = *m.front();
			m.pop_front();
		} else {
			probe(P_EMPTY_GET);
			fault(F_UNDERRUN);
		}
		if constexpr (Opt) {
			std::optional<T> g = b.get();
			CHECK(g.has_value() == some, P(R01), "item-lost", "get gives %s with %lu items", g ? "an item" : "nothing", m.size() + some);
			if (some && known)
				CHECK(*g == want, P(R01), "wrong-item", "get gives the wrong item, %lu are left", m.size());
		} else {
			T g = b.get();
			if (known)
				CHECK(g == want, P(R01), some ? "wrong-item" : "empty-get", "get gives the wrong item, %lu are left", m.size());
		}
	}
	void peek() {
		if constexpr (!Opt)
			for (size_t i = 0; i < m.size(); i++)
				if (m[i])
					CHECK(b.peek(i) == *m[i], P(R01), "wrong-peek", "item %lu of %lu differs", i, m.size());
		probe(P_PEEK);
	}
	void control() {
		switch (choose(4)) {
			case 0:
				b.remove_first();
				if (!m.empty())
					m.pop_front();
				EV("discard, %lu left", m.size());
				probe(P_DISCARD);
				break;
			case 1:
				b.reset();
				m.clear();
				EV("reset");
				probe(P_RESET);
				break;
			case 2: { // prefill: one value or a table, then possibly a delay
				std::array<T, N> src;
				bool table = choose(2);
				T v(++serial);
				for (auto &s : src)
					s = table ? T(++serial) : v;
				if (table)
					b.fill_buffer(src);
				else
					b.fill_buffer(v);
				fresh = false;
				size_t tail = b.get_tail_idx();
				for (size_t i = 0; i < m.size(); i++)
					m[i] = src[(tail + i) % N];
				EV("prefilled, table %d", table);
				probe(P_PREFILL);
				if (choose(3)) {
					size_t d = choose(N);
					if (m.size() == N)
						probe(P_DELAY_FULL);
					b.set_head((tail + d) % N);
					if (!(m.size() == N && d == 0)) {
						m.clear();
						for (size_t i = 0; i < d; i++)
							m.push_back(src[(tail + i) % N]);
					}
					EV("delay of %lu", d);
					probe(P_DELAY);
				}
				break;
			}
			case 3: { // delay without prefilling
				size_t d = choose(N), tail = b.get_tail_idx();
				if (m.size() == N)
					probe(P_DELAY_FULL);
				b.set_head((tail + d) % N);
				if (!(m.size() == N && d == 0)) {
					while (m.size() > d)
						m.pop_back();
					while (m.size() < d)
						m.push_back(fresh ? std::optional<T>(T{}) : std::nullopt);
				}
				EV("delay of %lu", d);
				probe(P_DELAY);
				break;
			}
		}
	}
	void go() {
		EV("ring of %lu items of %lu bytes, optional %d", N, sizeof(T), Opt);
		agree();
		if (N > 64) // a large ring: the consumer stalls for about as long as it takes to fill it
			for (size_t n = choose(3) ? N - choose(4) : 2 * N + choose(N); n--;)
				put();
		agree();
		if (N > 64)
			for (size_t n = choose(6); n--;)
				control(), agree();
		Sched s;
		u64 ctl = 4 + choose(60);
		bool lockstep = false;
		while (more(70)) {
			if (choose(ctl) == 0) {
				control();
				agree();
				lockstep = choose(2);
			}
			if (lockstep) { // same rates: the delay stays
				size_t n = m.size();
				step();
				put();
				agree();
				get();
				if (n < N)
					CHECK(b.count() == n, P(R01), "count", "delay %lu became %lu", n, b.count());
				if (choose(10) == 0)
					lockstep = false;
			} else if (s.next() == 0)
				put();
			else
				get();
			agree();
			if (choose(8) == 0)
				peek();
		}
		peek();
		for (size_t n = m.size() + 2; n--;) // the consumer catches up
			get(), agree();
	}
};
template<class T, size_t N>
void ring() {
	if (choose(2)) {
		Ring<CircularBufferOpt<T, N>, T, N, true> r;
		r.go();
	} else {
		Ring<CircularBuffer<T, N>, T, N, false> r;
		r.go();
	}
}
void r01() {
	if (u64 k = choose(160000); k % 1000 == 0)
		return ring<u32, 512>();
	else if (k == 1)
		return ring<u32, 131072>();
	switch (choose(10)) {
		case 0: return ring<u32, 1>();
		case 1: return ring<u32, 2>();
		case 2: return ring<u8, 4>();
		case 3: return ring<u32, 8>();
		case 4: return ring<Wide, 4>();
		case 5: return ring<Owner, 4>();
		case 6: return ring<Wide, 16>();
		case 7: return ring<Chars, 8>();
		case 8: return ring<u64, 64>();
		default: return ring<float, 32>();
	}
}

// ---------------------------------------------------------------- R02
template<class T, size_t N>
void streams() {
	// a guard on either side
	struct {
		u64 g0 = 0x1234567812345678;
		InputBuffer<T, N> in;
		u64 g1 = 0x1234567812345678;
		OutputBuffer<T, N> out;
		u64 g2 = 0x1234567812345678;
	} s;
	std::vector<T> rec, play(N); // recorded since the reset; the playback table
	size_t pos = 0;
	Sched sched;
	EV("streams of %lu items of %lu bytes", N, sizeof(T));
	u64 rare = 1 + choose(30);
	if (N > 64) { // large ones: most of the recording and the playback first
		for (size_t i = 0; i < N; i++)
			s.out.data()[i] = play[i] = T(++serial);
		for (size_t n = choose(3) ? N - choose(4) : N + 3; n--;) {
			T x(++serial);
			s.in.put(x);
			if (rec.size() < N)
				rec.push_back(x);
			T g = s.out.get();
			CHECK(g == (pos < N ? play[pos] : T{}), P(R02), "wrong-item", "item %lu of %lu is not the one stored", pos, N);
			pos += pos < N;
		}
	}
	while (more(60)) {
		if (sched.next() == 0) {
			T x(++serial);
			s.in.put(x);
			if (rec.size() < N)
				rec.push_back(x);
			else
				probe(P_IGNORED), fault(F_OVERRUN);
			EV("recorded, %lu", rec.size());
		} else {
			T g = s.out.get();
			if (pos < N) {
				CHECK(g == play[pos], P(R02), "wrong-item", "item %lu of %lu is not the one stored", pos, N);
				pos++;
			} else {
				CHECK(g == T{}, P(R02), "not-default", "an exhausted playback gives something other than a default value");
				probe(P_DEFAULTS);
				fault(F_UNDERRUN);
			}
			EV("played, %lu", pos);
		}
		if (choose(rare * 4) == 0) {
			switch (choose(3)) {
				case 0:
					s.in.reset();
					rec.clear();
					break;
				case 1:
					s.out.reset();
					pos = 0;
					break;
				case 2: // new playback data, in any of the three ways
					for (size_t i = 0; i < N; i++)
						play[i] = T(++serial);
					switch (choose(3)) {
						case 0: std::copy(play.begin(), play.end(), s.out.begin()); break;
						case 1: std::copy(play.begin(), play.end(), s.out.data()); break;
						default:
							size_t i = 0;
							for (auto &e : s.out)
								e = play[i++];
							CHECK(i == N, P(R02), "wrong-size", "iteration visits %lu of %lu", i, N);
					}
					break;
			}
			EV("reset or filled");
			probe(P_RESET);
		}
		CHECK(s.in.full() == (rec.size() == N), P(R02), "full", "recording full %d with %lu of %lu", s.in.full(), rec.size(), N);
		CHECK(s.out.full() == (pos == N), P(R02), "full", "playback exhausted %d at %lu of %lu", s.out.full(), pos, N);
		CHECK(s.in.size() == N && s.out.size() == N, P(R02), "wrong-size", "sizes %lu and %lu instead of %lu", s.in.size(), s.out.size(), N);
		CHECK(std::equal(rec.begin(), rec.end(), s.in.data()), P(R02), "recording-changed", "one of the %lu recorded items differs", rec.size());
		CHECK(&*s.in.begin() == s.in.data() && s.in.end() - s.in.begin() == N && s.out.end() - s.out.begin() == N, P(R02), "wrong-size", "iterators");
		CHECK(s.g0 == s.g1 && s.g1 == s.g2 && s.g0 == 0x1234567812345678, P(R02), "outside", "memory next to a buffer was changed");
	}
}
template<class T, size_t N>
void blocks() {
	struct {
		u64 g0 = 0x1234567812345678;
		CircularBufferBlock<T, N> c;
		u64 g1 = 0x1234567812345678;
	} s;
	std::vector<T> m(N);
	EV("block buffer of %lu items of %lu bytes", N, sizeof(T));
	CHECK(s.c.size() == N, P(R02), "wrong-size", "size %lu", s.c.size());
	unsigned head = choose(3) ? 0 : unsigned(bits64());
	u64 usual = 1 + choose(N);
	while (more(25)) {
		step();
		size_t n;
		switch (choose(5)) {
			case 0: n = choose(N + 1); break;
			case 1: n = N - choose(std::min<size_t>(N, 2)); break;
			case 2: n = (N - head % N) % (N + 1); break; // exactly to the end
			default: n = usual; break;
		}
		if (choose(6) == 0) {
			head = choose(2) ? unsigned(choose(2 * N)) : unsigned(bits64()); // anywhere, also beyond the size
			fault(F_SEEK);
		}
		std::vector<T> blk;
		for (size_t i = 0; i < n; i++)
			blk.push_back(T(++serial));
		EV("block of %lu at %u", n, head);
		if (head % N + n > N)
			probe(P_BLOCK_WRAP);
		if (head % N + n == N)
			probe(P_BLOCK_EXACT);
		if (n == N)
			probe(P_BLOCK_WHOLE);
		s.c.write(std::span<const T>{blk}, head);
		for (size_t i = 0; i < n; i++)
			m[(size_t(head) + i) % N] = blk[i];
		for (size_t i = 0; i < N; i++)
			CHECK(s.c.data[i] == m[i], P(R02), "block-wrong", "after a block of %lu at %u, cell %lu of %lu is wrong", n, head, i, N);
		CHECK(s.g0 == s.g1 && s.g0 == 0x1234567812345678, P(R02), "outside", "memory next to the buffer was changed");
		head += n; // the producer goes on behind its block, without wrapping it
	}
}
void r02() {
	switch (choose(20000)) {
		case 1:
		case 2:
		case 3:
		case 4: return streams<u32, 300>();
		case 5: return streams<uint16_t, 66000>();
		case 6:
		case 7: return blocks<u32, 1024>();
		case 8: return blocks<u8, 131072>();
	}
	switch (choose(16)) {
		case 0: return streams<u32, 1>();
		case 1: return streams<u8, 5>();
		case 2: return streams<Wide, 8>();
		case 3: return streams<Owner, 3>();
		case 4: return streams<float, 16>();
		case 5: return streams<Chars, 7>();
		case 6: return blocks<u8, 16>();
		case 7: return blocks<u32, 16>();
		case 8: return blocks<Wide, 8>();
		case 9: return blocks<Owner, 8>();
		case 10: return blocks<Chars, 32>();
		case 11: return blocks<u64, 1>();
		case 12: return blocks<u32, 64>();
		case 13: return blocks<float, 2>();
		case 14: return blocks<uint16_t, 128>();
		default: return blocks<double, 256>();
	}
}

// ---------------------------------------------------------------- R03
// memory outside the CPU: only indexing and a size
template<class T>
struct External {
	using value_type = T;
	std::vector<T> &v;
	T &operator[](size_t i) {
		CHECK(i < v.size(), P(R03), "outside", "access to cell %lu of %lu", i, v.size());
		return v[i];
	}
	size_t size() const {
		return v.size();
	}
};
template<class T>
bool close_to(T got, double want, double scale) {
	if constexpr (std::is_integral_v<T>)
		return std::fabs(double(got) - want) <= 1.0 + scale * 4e-7;
	else
		return std::fabs(double(got) - want) <= scale * 4e-7;
}
template<class T>
T sample(bool blended) {
	if constexpr (std::is_integral_v<T>) {
		if (sizeof(T) > 2 && blended) // blending is done in single precision
			return T(int(choose(1 << 24)) - (1 << 23));
		u64 k = choose(4);
		return k == 0 ? std::numeric_limits<T>::max() : k == 1 ? std::numeric_limits<T>::min() : T(bits64());
	} else
		return choose(4) == 0 ? T(1e6) * T(int(choose(2001)) - 1000) : T(int(choose(200001)) - 100000) / T(65536);
}
template<class T>
bool same(T a, T b) {
	return a == b || (a != a && b != b);
}
template<class T, class Buf>
void delay_line(std::vector<T> &mem, Buf &buf) {
	size_t n = mem.size();
	bool dirty = choose(3) == 0;
	for (auto &c : mem)
		c = 0;
	if (dirty) { // memory that was never cleared: anything may be in it
		for (auto &c : mem) {
			u64 b = bits64();
			if (choose(3) == 0) {
				if constexpr (!std::is_integral_v<T>)
					b = choose(2) ? 0 : 1; // marks not-a-number, infinity
			}
			if constexpr (std::is_integral_v<T>)
				c = sizeof(T) > 2 ? T(b % (1 << 23)) : T(b);
			else
				c = b == 0 ? std::numeric_limits<T>::quiet_NaN() : b == 1 ? std::numeric_limits<T>::infinity() : T(int(b));
		}
		fault(F_DIRTY);
	}
	size_t start = choose(3) ? choose(n) : 0;
	CircularBufferAccess<Buf> c(buf, start);
	std::vector<T> m = mem;
	std::vector<u8> written(n);
	size_t rd = 0, wr = start;
	EV("delay line of %lu items of %lu bytes, starting %lu ahead, dirty %d", n, sizeof(T), start, dirty);
	CHECK(c.size() == n, P(R03), "position", "size %lu", c.size());
	u64 usual = n > 1 ? choose(n) : 0;
	u64 rev = choose(3) ? 0 : choose(2) ? 2 : 8; // reverse: never, half, rarely
	bool overdub = choose(3) == 0;
	Sched s;
	while (more(40)) {
		size_t len;
		switch (choose(4)) {
			case 0: len = choose(n); break;
			default: len = usual; break;
		}
		bool reverse = rev && choose(rev) == 0;
		if (s.next() == 0) {
			std::vector<T> blk(len);
			for (auto &x : blk)
				x = sample<T>(overdub);
			float phase = 1.f;
			if (overdub && choose(3))
				phase = choose(4) == 0 ? 0.f : choose(3) ? float(choose(257)) / 256.f : float(choose(11)) / 10.f;
			bool marked = !reverse && phase == 1.f && choose(2);
			size_t marker = choose(3) ? choose(n) : (wr + len + choose(3) + n - 1) % n;
			u8 form = choose(2);
			bool r, wrap = false, crossed = false;
			// model
			std::vector<size_t> cells;
			for (size_t i = 0, p = wr; i < len; i++) {
				cells.push_back(p);
				if (reverse)
					wrap |= p == 0, p = p == 0 ? n - 1 : p - 1;
				else
					p++, wrap |= p == n, p = p == n ? 0 : p;
				if (p == marker)
					crossed = true;
			}
			std::span<const T> sp{blk};
			if (marked)
				r = c.write_check_crossed(sp, marker);
			else if (reverse)
				r = phase == 1.f && form ? c.write_reverse(sp) : c.write_reverse(sp, phase);
			else
				r = phase == 1.f && form ? c.write(sp) : c.write(sp, phase);
			EV("write %lu at %lu, reverse %d, phase %f, marker %ld: %d", len, wr, reverse, phase, marked ? long(marker) : -1l, r);
			for (size_t i = 0; i < len; i++) {
				auto &cell = m[cells[i]];
				T got = mem[cells[i]];
				if (phase == 1.f) {
					CHECK(got == blk[i], P(R03), "not-written", "cell %lu does not hold the element written", cells[i]);
					cell = blk[i];
				} else if (cell == cell && std::fabs(double(cell)) < 1e30) {
					double want = double(blk[i]) * phase + double(cell) * (1.0 - phase);
					CHECK(close_to(got, want, std::fabs(double(blk[i])) + std::fabs(double(cell))), P(R03), "blend", "cell %lu holds %f after blending %f of %f into %f", cells[i], double(got), phase, double(blk[i]), double(cell));
					cell = got;
				} else
					cell = got;
				written[cells[i]] = 1;
			}
			for (size_t i = 0; i < n; i++)
				CHECK(same(mem[i], m[i]), P(R03), "other-cell", "a block of %lu at %lu changed cell %lu", len, wr, i);
			if (marked) {
				CHECK(r == crossed, P(R03), "crossed", "a block of %lu written at %lu of %lu gave crossed %d for marker %lu", len, wr, n, r, marker);
				probe(crossed ? P_CROSSED : P_NOT_CROSSED);
				if (wrap && crossed)
					probe(P_CROSSED_WRAP);
			} else
				CHECK(r == wrap, P(R03), "wrapped", "a block of %lu written at %lu of %lu gave wrapped %d", len, wr, n, r);
			wr = reverse ? (wr + n - len) % n : (wr + len) % n;
			if (wrap)
				probe(P_WRAPPED);
			if (reverse)
				probe(P_REVERSE);
			if (phase != 1.f)
				probe(P_OVERDUB);
		} else {
			std::vector<T> blk(len + 2, T(77));
			std::span<T> sp{blk.data() + 1, len};
			bool marked = choose(2);
			size_t marker = choose(3) ? choose(n) : (rd + len + choose(3) + n - 1) % n;
			bool r, wrap = false, crossed = false;
			std::vector<T> want;
			for (size_t i = 0, p = rd; i < len; i++) {
				want.push_back(m[p]);
				if (written[p])
					probe(P_READ_BACK);
				if (p == (reverse ? (marker + 1) % n : marker))
					crossed = true;
				if (reverse)
					wrap |= p == 0, p = p == 0 ? n - 1 : p - 1;
				else
					p++, wrap |= p == n, p = p == n ? 0 : p;
			}
			if (marked)
				r = reverse ? c.read_reverse_check_crossed(sp, marker) : c.read_check_crossed(sp, marker);
			else
				r = reverse ? c.read_reverse(sp) : c.read(sp);
			EV("read %lu at %lu, reverse %d, marker %ld: %d", len, rd, reverse, marked ? long(marker) : -1l, r);
			for (size_t i = 0; i < len; i++)
				CHECK(same(sp[i], want[i]), P(R03), "wrong-read", "element %lu of a block of %lu read at %lu is wrong", i, len, rd);
			CHECK(blk[0] == T(77) && blk[len + 1] == T(77), P(R03), "outside", "reading wrote outside the block");
			for (size_t i = 0; i < n; i++)
				CHECK(same(mem[i], m[i]), P(R03), "other-cell", "reading changed cell %lu", i);
			if (marked) {
				CHECK(r == crossed, P(R03), "crossed", "a block of %lu read at %lu of %lu, reverse %d, gave crossed %d for marker %lu", len, rd, n, reverse, r, marker);
				probe(crossed ? P_CROSSED : P_NOT_CROSSED);
				if (wrap && crossed)
					probe(P_CROSSED_WRAP);
			} else
				CHECK(r == wrap, P(R03), "wrapped", "a block of %lu read at %lu of %lu, reverse %d, gave wrapped %d", len, rd, n, reverse, r);
			rd = reverse ? (rd + n - len) % n : (rd + len) % n;
			if (wrap)
				probe(P_WRAPPED);
			if (reverse)
				probe(P_REVERSE);
		}
		CHECK(c.rd_pos() == rd && c.wr_pos() == wr, P(R03), "position", "positions %lu and %lu instead of %lu and %lu", c.rd_pos(), c.wr_pos(), rd, wr);
		if (choose(25) == 0) {
			fault(F_SEEK);
			if (choose(2))
				c.rd_pos(rd = choose(n));
			else
				c.wr_pos(wr = choose(n));
			EV("moved to %lu and %lu", rd, wr);
			CHECK(c.rd_pos() == rd && c.wr_pos() == wr, P(R03), "position", "positions after moving");
		}
		if (choose(60) == 0) {
			c.clear();
			EV("cleared");
			std::fill(m.begin(), m.end(), T(0));
			for (size_t i = 0; i < n; i++)
				CHECK(mem[i] == T(0), P(R03), "not-cleared", "cell %lu is not cleared", i);
			CHECK(c.rd_pos() == rd && c.wr_pos() == wr, P(R03), "position", "clearing moved the positions");
			probe(P_CLEAR);
		}
	}
	// the delay: after everything is written anew, the reader sees the last n elements in order
	std::vector<T> last;
	for (size_t i = 0; i < n; i++) {
		T x = sample<T>(false);
		last.push_back(x);
		c.write(std::span<const T>{&x, 1});
	}
	c.rd_pos(c.wr_pos());
	for (size_t i = 0; i < n; i++) {
		T x{};
		c.read(std::span<T>{&x, 1});
		CHECK(x == last[i], P(R03), "wrong-read", "element %lu of %lu written in sequence is read back wrong", i, n);
	}
}
template<class T>
void delay() {
	size_t n = choose(4) ? 2 + choose(30) : choose(2) ? 1 + choose(3) : 8 << choose(4);
	if (u64 k = choose(20000); k % 400 == 1)
		n = 200 + choose(2000);
	else if (k == 2)
		n = 65536 + choose(3) * choose(10000);
	std::vector<T> mem(n);
	switch (choose(3)) {
		case 0: return delay_line<T>(mem, mem);
		case 1: {
			std::span<T> sp{mem};
			return delay_line<T>(mem, sp);
		}
		default: {
			External<T> e{mem};
			return delay_line<T>(mem, e);
		}
	}
}
void r03() {
	switch (choose(5)) {
		case 0: return delay<double>();
		case 1: return delay<int16_t>();
		case 2: return delay<int32_t>();
		default: return delay<float>();
	}
}
void run() {
	serial = 0;
	u64 before = box->steps;
	switch (target_prop) {
		case R01: r01(); break;
		case R02: r02(); break;
		default: r03(); break;
	}
	run_nontrivial = box->steps - before > 3;
	sim_time(box->steps - before);
}
} // namespace

namespace sim
{
Harness harness = {
	"ring",
	{{"R01", 3000000, 300000000, "Each run draws a ring (plain or optional-returning), capacity, item type and a schedule of a producing and a consuming task with stalls and bursts, with discards, resets, prefills and delay changes in between. Non-trivial: at least four operations."},
	 {"R02", 1500000, 150000000, "Each run draws a recording and a playback buffer filled and drained by two tasks with overruns and underruns, or a block buffer with block sizes and positions. Non-trivial: at least four operations."},
	 {"R03", 1000000, 60000000, "Each run draws a delay line (element type, backing store, size, initial contents) and a schedule of a reading and a writing task with block sizes, directions, blends, markers and seeks. Non-trivial: at least four operations."}},
	{"consumer stalled", "producer stalled", "burst", "overrun", "underrun", "memory never cleared", "position moved"},
	{"oldest item overwritten", "get from empty", "full", "wrap", "discard", "reset", "prefill", "delay set", "delay set while full", "all positions peeked", "item ignored when full", "default value after the end", "block wraps", "block fills the buffer", "block ends at the end", "head wrapped", "marker crossed", "marker not crossed", "marker crossed and wrapped", "overdub", "reverse", "written element read", "cleared"},
	"complete event log (operations, lengths, positions, results)",
	"operations",
	{"util/circular_buffer.hh", "util/circular_buffer_opt.hh", "util/input_output_buffer.hh", "util/circular_buffer_block.hh", "util/circular_buffer_ext.hh"},
	{"producer and consumer tasks", "external memory behind the delay line"},
	{"producer and consumer do not interrupt each other inside a call, as the headers require", "delay-line blocks are shorter than the buffer; positions and markers lie inside it", "ring delays are set to positions inside the ring"},
	run,
	100000};
}
