// M01, M02: the memory test over simulated memory with faults under every access. The instrumentation announces each
// access before it happens: a read is given what the faulty memory returns, a write is taken over at the next access.
#include "core.hh"
#include <sys/mman.h>

bool call_check(uint32_t *start, uint32_t *stop);
bool call_check_addr(uint32_t start, uint32_t stop);

using namespace sim;
namespace
{
enum { M01, M02 };
enum Kind { K_LINE, K_CELL, K_DEAD, K_ALIAS_LINE, K_ALIAS_PAIR, K_LOST, K_LOST_WORD, K_COUPLE, K_UPSET, K_BRIDGE, K_FLOAT, K_RETAIN, K_SLOW, K_READ_GLITCH, NKINDS };
enum F { F_OUTSIDE = NKINDS };
enum PR { P_GOOD, P_DETECTED, P_HARMLESS, P_EMPTY, P_ONE, P_REVERSED, P_SAME_CONTENTS, P_ADDR, P_HIGH, P_LARGE, P_REPEATED, P_RECOVERED };

struct Fault {
	int kind;
	size_t w = 0, w2 = 0;	// words (arena indices)
	u32 mask = 0, val = 0;
	u64 at = 0;				// access number, span of accesses
	bool hit = false;
	bool outside = false;
};

constexpr size_t GUARD = 4096; // words before and after the largest region
constexpr size_t MAXR = 70000;
constexpr size_t ARENA = MAXR + 2 * GUARD;

struct Memory {
	u32 *base = nullptr;
	size_t s = 0, e = 0; // region
	std::vector<u32> phys, last, stamp;
	std::vector<u8> written, back;
	std::vector<Fault> faults;
	u64 now = 0, writes = 0, reads = 0;
	bool mismatch = false;
	size_t out_of_region = ~0ull;
	bool out_write = false;
	u32 bus = 0, prev_of_last = 0;
	size_t last_w = ~0ull;
	// write announced and not taken over yet
	size_t pend = 0, pend_n = 0;
	bool active = false;

	bool in(size_t i) const {
		return i >= s && i < e;
	}
	size_t decode(size_t i) {
		for (auto &f : faults) {
			if (f.kind == K_ALIAS_LINE && in(i) != f.outside) {
				size_t off = i - s;
				if (off & f.w) {
					size_t o = s + (off & ~f.w);
					if (in(o) == in(i))
						i = o, f.hit = true;
				}
			}
			if (f.kind == K_ALIAS_PAIR && i == f.w2)
				i = f.w, f.hit = true;
		}
		return i;
	}
	// what the lines and cells make of a value
	u32 through(size_t i, u32 v, bool reading) {
		for (auto &f : faults) {
			u32 o = v;
			if (f.kind == K_LINE && in(i) != f.outside)
				v = (v & ~f.mask) | (f.val & f.mask);
			if (f.kind == K_CELL && i == f.w)
				v = (v & ~f.mask) | (f.val & f.mask);
			if (f.kind == K_DEAD && i == f.w)
				v = f.val;
			if (f.kind == K_BRIDGE && in(i) != f.outside) {
				u32 both = (v & f.mask) == f.mask, any = (v & f.mask) != 0;
				u32 on = f.val & 1 ? any : both;
				v = (v & ~f.mask) | (on ? f.mask : 0);
			}
			if (f.kind == K_READ_GLITCH && reading && f.at == now && in(i) != f.outside)
				v ^= f.mask;
			if (f.kind == K_FLOAT && reading && i >= f.w && i < f.w2)
				v = bus;
			if (v != o)
				f.hit = true;
		}
		return v;
	}
	void tick() {
		now++;
		for (auto &f : faults)
			if (f.kind == K_UPSET && f.at == now)
				phys[f.w] ^= f.mask, f.hit = true;
	}
	void store(size_t i, u32 v) {
		tick();
		writes++;
		last[i] = v;
		written[i] = 1;
		back[i] = 0;
		size_t t = decode(i);
		bus = v;
		for (auto &f : faults) {
			bool gone = (f.kind == K_LOST && f.at == writes && in(i) != f.outside) || (f.kind == K_LOST_WORD && f.w == i);
			if (gone) {
				if (phys[t] != v)
					f.hit = true;
				return;
			}
		}
		u32 old = phys[t];
		last_w = t;
		prev_of_last = old;
		phys[t] = through(t, v, false);
		stamp[t] = now;
		for (auto &f : faults)
			if (f.kind == K_COUPLE && f.w == t && (f.val ? ~old & v : old & ~v) & f.mask) {
				phys[f.w2] ^= f.mask;
				f.hit = true;
			}
	}
	u32 load(size_t i) {
		tick();
		reads++;
		size_t t = decode(i);
		for (auto &f : faults) {
			if (f.kind == K_RETAIN && f.w == t && now - stamp[t] > f.at && phys[t] != f.val)
				phys[t] = f.val, f.hit = true;
			if (f.kind == K_SLOW && last_w == t && now - stamp[t] <= f.at && in(i) != f.outside && prev_of_last != phys[t]) {
				f.hit = true;
				return prev_of_last; // the write has not arrived yet
			}
		}
		u32 v = through(t, phys[t], true);
		bus = v;
		stamp[t] = now;
		return v;
	}
	void take_over() {
		for (size_t k = 0; k < pend_n; k++)
			store(pend + k, base[pend + k]);
		pend_n = 0;
	}
	void access(void *p, size_t n, bool write) {
		if (!active)
			return;
		take_over();
		auto a = (uintptr_t)p, b = (uintptr_t)base;
		if (a + n <= b || a >= b + ARENA * 4)
			return; // not this memory
		size_t i = (a - b) / 4, j = (a + n + 3 - b) / 4;
		for (size_t k = i; k < j; k++) {
			if (!in(k)) {
				if (out_of_region == ~0ull)
					out_of_region = k, out_write = write;
				continue;
			}
			if (!write || n % 4) {
				u32 v = load(k);
				if (!write) {
					back[k] = 1;
					if (written[k] && v != last[k])
						mismatch = true;
				}
				base[k] = v;
			}
		}
		if (write && i >= s && j <= e)
			pend = i, pend_n = j - i;
	}
} m;

u32 *arena_at(int which) {
	static u32 *a[2]{};
	if (!a[which]) {
		size_t len = ARENA * 4 + 2 * 65536;
		void *p;
		if (which) // across the middle of the address space
			p = mmap((void *)(0x80000000ul - (len / 2 & ~0xfffful)), len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		else
			p = mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
		if (p == MAP_FAILED) {
			if (which)
				return arena_at(0);
			fprintf(stderr, "no memory below 4 GiB\n");
			_exit(2);
		}
		auto q = (char *)p + 65536;
		mprotect(q, (ARENA * 4 + 4095) & ~4095ul, PROT_READ | PROT_WRITE);
		a[which] = (u32 *)q;
	}
	return a[which];
}

size_t word(bool outside) {
	size_t n = m.e - m.s;
	if (!outside)
		return m.s + choose(n);
	// next to the region, or anywhere near
	if (choose(2))
		return choose(2) ? m.e + choose(3) : m.s - 1 - choose(3);
	return choose(2) ? m.e + choose(200) : m.s - 1 - choose(200);
}
u32 some_bits() {
	return choose(3) ? 1u << choose(32) : u32(bits64());
}

void one_test(bool first) {
	size_t n = m.e - m.s;
	bool faulty = target_prop == M01 ? choose(8) != 0 : choose(3) != 0;
	bool outside = target_prop == M02 || choose(12) == 0;
	m.faults.clear();
	m.now = m.writes = m.reads = 0;
	m.mismatch = false;
	m.out_of_region = ~0ull;
	m.last_w = ~0ull;
	m.pend_n = 0;
	m.bus = 0;
	if (faulty && (n || outside)) {
		for (u64 k = choose(4) ? 1 : 2; k--;) {
			Fault f{.kind = int(choose(NKINDS))};
			f.outside = outside;
			f.w = word(outside);
			f.w2 = word(outside);
			f.mask = some_bits();
			f.val = choose(2) ? ~0u : 0;
			switch (f.kind) {
				case K_LINE: f.mask = 1u << choose(32); break;
				case K_DEAD: f.val = choose(3) ? f.val : u32(bits64()); break;
				case K_ALIAS_LINE: f.w = 1ull << choose(std::bit_width(n ? n - 1 : 0) + (n < 2)); break;
				case K_ALIAS_PAIR:
					if (f.w == f.w2)
						continue;
					break;
				case K_LOST: f.at = 1 + choose(n + 1); break;
				case K_COUPLE:
					if (f.w == f.w2)
						continue;
					f.mask = 1u << choose(32);
					f.val &= 1;
					break;
				case K_UPSET:
				case K_READ_GLITCH: f.at = 1 + choose(2 * n + 1); break;
				case K_BRIDGE: {
					u64 b = choose(32);
					f.mask = (1u << b) | (1u << ((b + 1 + choose(31)) % 32));
					break;
				}
				case K_FLOAT:
					if (f.w > f.w2)
						std::swap(f.w, f.w2);
					if (choose(2) && !outside)
						f.w = m.s, f.w2 = m.e;
					if (outside && f.w < m.s)
						f.w2 = std::min(f.w2, m.s);
					break;
				case K_RETAIN: f.at = choose(2 * n + 4); break;
				case K_SLOW: f.at = 1 + choose(4); break;
			}
			EV("fault %d at %ld/%ld mask %x value %x at %lu", f.kind, long(f.w - m.s), long(f.w2 - m.s), f.mask, f.val, f.at);
			m.faults.push_back(f);
		}
	}
	// contents before the test; the memory outside is remembered
	u64 seed = bits64();
	u64 style = first ? choose(3) : 3;
	size_t lo = m.s - 256, hi = m.e + 256;
	for (size_t i = lo; i < hi; i++) {
		if (style != 3 || !m.in(i))
			m.phys[i] = style == 0 ? 0 : style == 1 ? ~0u : u32(mix(seed + i));
		m.base[i] = m.phys[i];
		m.last[i] = 0;
		m.stamp[i] = 0;
		m.written[i] = m.back[i] = 0;
	}
	if (style == 3)
		probe(P_SAME_CONTENTS);
	std::vector<u32> before_l(m.base + lo, m.base + m.s), before_h(m.base + m.e, m.base + hi);
	bool by_addr = choose(2);
	bool got;
	if (by_addr) {
		probe(P_ADDR);
		m.active = true;
		got = call_check_addr(u32(uintptr_t(m.base + m.s)), u32(uintptr_t(m.base + m.e)));
	} else {
		m.active = true;
		got = call_check(m.base + m.s, m.base + m.e);
	}
	m.take_over();
	m.active = false;
	step(m.now + 1);
	sim_time(m.now);
	EV("%lu words by %s: %s after %lu writes and %lu reads", n, by_addr ? "address" : "pointer", got ? "good" : "bad", m.writes, m.reads);
	u64 w0 = m.s;
	CHECK(m.out_of_region == ~0ull, P(M02), "outside", "word %ld of a region of %lu words was %s", long(m.out_of_region - w0), n, m.out_write ? "written" : "read");
	CHECK(std::equal(before_l.begin(), before_l.end(), m.base + lo) && std::equal(before_h.begin(), before_h.end(), m.base + m.e), P(M02), "outside", "memory outside a region of %lu words was changed", n);
	bool any_hit = false;
	for (auto &f : m.faults)
		if (f.hit && !outside)
			fault(f.kind), any_hit = true;
	if (outside && !m.faults.empty())
		fault(F_OUTSIDE);
	CHECK(!(got && m.mismatch), P(M01), "fault-missed", "a word was read back wrong and the test passed");
	CHECK(got || m.mismatch, P(M02), "false-alarm", "every word was read back as written and the test failed");
	if (got) {
		for (size_t i = m.s; i < m.e; i++)
			CHECK(m.written[i] && m.back[i], P(M01) | P(M02), "not-covered", "word %lu of %lu was %s", i - m.s, n, m.written[i] ? "not read back after its last write" : "never written");
		// faults that always show
		if (m.faults.size() == 1 && !outside) {
			auto &f = m.faults[0];
			if (f.kind == K_LINE)
				CHECK(n < 64, P(M01), "fault-missed", "a stuck data line over %lu words passed", n);
			if (f.kind == K_ALIAS_PAIR || (f.kind == K_ALIAS_LINE && f.hit))
				CHECK(false, P(M01), "fault-missed", "two words sharing storage passed");
			if (f.kind == K_LOST || f.kind == K_LOST_WORD)
				CHECK(!f.hit, P(M01), "fault-missed", "a lost write passed");
		}
		probe(any_hit ? P_HARMLESS : P_GOOD);
	} else {
		CHECK(!outside, P(M02), "false-alarm", "faults outside a region of %lu words made the test fail", n);
		probe(P_DETECTED);
	}
	if (n == 0)
		probe(P_EMPTY);
	if (n == 1)
		probe(P_ONE);
	if (target_prop == M02 || any_hit)
		run_nontrivial = true;
}

void run() {
	int which = choose(3) == 0;
	m.base = arena_at(which);
	if (which)
		probe(P_HIGH);
	if (m.phys.empty()) {
		m.phys.resize(ARENA);
		m.last.resize(ARENA);
		m.stamp.resize(ARENA);
		m.written.resize(ARENA);
		m.back.resize(ARENA);
	}
	m.active = false;
	size_t n;
	switch (choose(8)) {
		case 0: n = choose(4); break;
		case 1: n = 60 + choose(10); break;
		case 2: n = 1ull << choose(10); break;
		case 3:
			n = choose(60) == 0 ? choose(MAXR) : choose(600);
			if (n > 600)
				probe(P_LARGE);
			break;
		default: n = choose(150); break;
	}
	// around the middle of the arena if it lies across the middle of the address space
	size_t room = ARENA - 2 * GUARD - n;
	size_t mid = ARENA / 2 - std::min(ARENA / 2 - GUARD, n / 2 + choose(100));
	m.s = which && choose(4) ? std::min(std::max(mid, GUARD), GUARD + room) : GUARD + choose(std::min<size_t>(room + 1, 5000));
	m.e = m.s + n;
	EV("region of %lu words at word %lu of arena %d", n, m.s, which);
	int tests = 1 + choose(3);
	bool bad = false;
	for (int k = 0; k < tests; k++) {
		one_test(k == 0);
		if (k)
			probe(P_REPEATED);
		if (bad && m.faults.empty())
			probe(P_RECOVERED);
		bad = !m.faults.empty();
	}
	if (target_prop == M02 && choose(3) == 0) {
		// a reversed range, by address
		size_t a = m.s + choose(100), d = 1 + choose(choose(2) ? 3 : 4000);
		m.faults.clear();
		size_t os = m.s, oe = m.e;
		m.s = m.e = 0; // nothing may be touched
		m.out_of_region = ~0ull;
		m.pend_n = 0;
		m.active = true;
		bool got = call_check_addr(u32(uintptr_t(m.base + a)), u32(uintptr_t(m.base + a - d)));
		m.take_over();
		m.active = false;
		m.s = os, m.e = oe;
		EV("reversed by %lu words: %s", d, got ? "good" : "bad");
		CHECK(!got, P(M02), "reversed-accepted", "a range reversed by %lu words passed", d);
		CHECK(m.out_of_region == ~0ull, P(M02), "outside", "a reversed range was touched");
		probe(P_REVERSED);
	}
}
void hook(void *p, size_t n, bool w) {
	m.access(p, n, w);
}
} // namespace

extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void *) {
}
void __tsan_func_exit() {
}
#define RW(n)                                                                                                          \
	void __tsan_read##n(void *p) { hook(p, n, false); }                                                                \
	void __tsan_write##n(void *p) { hook(p, n, true); }                                                                \
	void __tsan_read_write##n(void *p) { hook(p, n, false); hook(p, n, true); }                                        \
	void __tsan_unaligned_read##n(void *p) { hook(p, n, false); }                                                      \
	void __tsan_unaligned_write##n(void *p) { hook(p, n, true); }                                                      \
	void __tsan_unaligned_read_write##n(void *p) { hook(p, n, false); hook(p, n, true); }                              \
	void __tsan_volatile_read##n(void *p) { hook(p, n, false); }                                                       \
	void __tsan_volatile_write##n(void *p) { hook(p, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) { hook(p, n, false); }
void __tsan_write_range(void *p, size_t n) { hook(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
	hook((void *)s, n, false);
	hook(d, n, true);
	void *r = memcpy(d, s, n);
	m.take_over();
	return r;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
	hook((void *)s, n, false);
	hook(d, n, true);
	void *r = memmove(d, s, n);
	m.take_over();
	return r;
}
void *__tsan_memset(void *d, int c, size_t n) {
	hook(d, n, true);
	void *r = memset(d, c, n);
	m.take_over();
	return r;
}
uint32_t __tsan_atomic32_load(const volatile uint32_t *p, int) {
	hook((void *)p, 4, false);
	return *p;
}
void __tsan_atomic32_store(volatile uint32_t *p, uint32_t v, int) {
	hook((void *)p, 4, true);
	*p = v;
	m.take_over();
}
void __tsan_atomic_thread_fence(int) {
}
void __tsan_atomic_signal_fence(int) {
}
}

namespace sim
{
Harness harness = {
	"memtest",
	{{"M01", 1500000, 90000000, "Each run draws a region, earlier contents, and for one to three tests in a row up to two memory faults, mostly inside the region, with place, bit and onset. Non-trivial: a fault changed what was stored or read."},
	 {"M02", 1200000, 70000000, "Each run draws a region (also empty and reversed), earlier contents and, for most tests, faults outside the region. Non-trivial: every run that finished a test."}},
	{"data line stuck", "bits stuck in a word", "dead word", "address line stuck", "two words share storage", "one write lost", "all writes to a word lost", "write disturbs another word", "upset", "two data lines bridged", "floating bus", "contents decay when not accessed", "write arrives late", "glitch while reading", "faults outside the region"},
	{"good memory passed", "fault detected", "fault without effect on what was read", "empty region", "one word", "reversed range", "earlier contents of a test", "given by address", "across the middle of the address space", "large region", "repeated test", "good again after a fault"},
	"complete event log (region, faults, result, numbers of accesses)",
	"accesses to the simulated memory",
	{"util/mem_test.hh"},
	{"memory: cells, data and address lines, bus"},
	{"regions are word-aligned and end below 4 GiB"},
	run,
	4000000};
}
