// A01: the aligned allocator, alone and inside containers, over a heap that fails and runs out; the arena allocator
#include "core.hh"
#include "util/aligned_allocator.hh"
#include "util/monotonic_allocator.hh"

using namespace sim;
namespace
{
enum { A01 };
enum F { F_FAIL, F_EXHAUST, F_OVERFLOW, F_ARENA_FULL };
enum PR { P_BLOCK, P_REPORTED, P_AFTER_FAILURE, P_CONTAINER_FAILED, P_GROWN, P_RELEASED, P_ARENA_BLOCK, P_ARENA_RESET, P_ARENA_AFTER_FULL, P_EXACT, P_ZERO, P_STRING };

// ---------------------------------------------------------------- simulated heap
struct Heap {
	struct Block {
		size_t size, align;
	};
	std::map<void *, Block> live;
	size_t capacity = ~0ull, used = 0;
	u64 fail_in = 0;	// the n-th request from now fails
	bool on = false;
	bool failed = false; // the last request was refused
	u64 requests = 0;
};
Heap *heap;

extern "C" void *__real_aligned_alloc(size_t, size_t);
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void __real_free(void *);

bool refuse(size_t size) {
	heap->requests++;
	bool r = false;
	if (heap->fail_in && --heap->fail_in == 0)
		r = true, fault(F_FAIL);
	else if (size > heap->capacity - std::min(heap->used, heap->capacity))
		r = true, fault(F_EXHAUST);
	heap->failed = r;
	return r;
}
void *take(size_t align, size_t size) {
	if (refuse(size))
		return nullptr;
	void *p = __real_aligned_alloc(align, std::max<size_t>(size, align));
	if (!p)
		return nullptr;
	memset(p, 0xEE, size);
	heap->live[p] = {size, align};
	heap->used += size;
	return p;
}
} // namespace
extern "C" void *__wrap_aligned_alloc(size_t align, size_t size) {
	if (!heap || !heap->on)
		return __real_aligned_alloc(align, size);
	// the C library may refuse what the standard does not allow
	if (!std::has_single_bit(align) || size % align)
		return nullptr;
	return take(align, size);
}
extern "C" int __wrap_posix_memalign(void **p, size_t align, size_t size) {
	if (!heap || !heap->on)
		return __real_posix_memalign(p, align, size);
	*p = take(align, (size + align - 1) / align * align);
	return *p ? 0 : ENOMEM;
}
extern "C" void __wrap_free(void *p) {
	if (heap && p) {
		auto i = heap->live.find(p);
		if (i != heap->live.end()) {
			heap->used -= i->second.size;
			heap->live.erase(i);
		}
	}
	__real_free(p);
}
void *operator new(size_t n, std::align_val_t a) {
	size_t al = size_t(a);
	void *p = heap && heap->on ? take(al, (n + al - 1) / al * al) : __real_aligned_alloc(al, (n + al - 1) / al * al);
	if (!p)
		throw std::bad_alloc{};
	return p;
}
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept {
	size_t al = size_t(a);
	return heap && heap->on ? take(al, (n + al - 1) / al * al) : __real_aligned_alloc(al, (n + al - 1) / al * al);
}
void operator delete(void *p, std::align_val_t) noexcept {
	__wrap_free(p);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept {
	__wrap_free(p);
}
namespace
{
struct HeapOn {
	HeapOn() {
		heap->on = true;
	}
	~HeapOn() {
		heap->on = false;
	}
};

// ---------------------------------------------------------------- raw blocks
struct Live {
	u8 *p;
	size_t n;
	u64 seed;
};
u8 pattern(u64 seed, size_t i) {
	return u8(mix(seed + i / 8) >> (8 * (i % 8)));
}
void fill(Live &b) {
	for (size_t i = 0; i < b.n; i++)
		b.p[i] = pattern(b.seed, i);
}
void intact(Live const &b, const char *who) {
	for (size_t i = 0; i < b.n; i++)
		CHECK(b.p[i] == pattern(b.seed, i), P(A01), "overwritten", "byte %lu of a live block of %lu bytes from the %s was overwritten", i, b.n, who);
}
void disjoint(std::vector<Live> const &blocks, Live const &b, const char *who) {
	for (auto &o : blocks)
		CHECK(b.p + b.n <= o.p || o.p + o.n <= b.p, P(A01), "overlap", "a block of %lu bytes from the %s overlaps a live one of %lu", b.n, who, o.n);
}
template<class T, size_t Align>
void raw() {
	Heap h;
	heap = &h;
	h.capacity = choose(2) ? ~0ull >> 8 : 200 + choose(20000);
	AlignedAllocator<T, Align> a;
	std::vector<Live> blocks;
	u64 fails = 0;
	EV("elements of %lu bytes, alignment %lu, heap of %lu bytes", sizeof(T), Align, h.capacity);
	while (more(40)) {
		step();
		if (choose(3) || blocks.empty()) {
			size_t n;
			bool impossible = false;
			switch (choose(10)) {
				case 0: n = 0; break;
				case 1: { // larger than any memory, also after multiplication
					u64 k = choose(5);
					n = k == 0 ? ~0ull : k == 1 ? ~0ull / sizeof(T) : k == 2 ? ~0ull / sizeof(T) + 1 + choose(8) : k == 3 ? ~0ull / sizeof(T) - choose(2 * Align) : (~0ull >> 1) / sizeof(T) + choose(9);
					if (n < ~0ull / sizeof(T) / 4)
						n = ~0ull; // wrapped
					impossible = true;
					fault(F_OVERFLOW);
					break;
				}
				case 2: n = chance(1, 300) ? 65530 + choose(1000) : 1 + choose(3000); break;
				case 3: n = Align / sizeof(T) + choose(3); break;
				default: n = 1 + choose(90); break;
			}
			if (choose(6) == 0)
				h.fail_in = 1;
			size_t bytes = n * sizeof(T);
			bool thrown = false;
			T *p = nullptr;
			h.failed = false;
			{
				HeapOn on;
				try {
					p = a.allocate(n);
				} catch (std::bad_alloc const &) {
					thrown = true;
				}
			}
			h.fail_in = 0;
			EV("%lu elements: %s", n, thrown ? "refused" : p ? "given" : "null");
			if (n == 0) {
				probe(P_ZERO);
				if (p)
					a.deallocate(p, 0);
				continue;
			}
			CHECK(p || thrown, P(A01), "silent-failure", "a request for %lu elements gave a null pointer instead of a failure", n);
			if (impossible)
				CHECK(thrown, P(A01), "too-small", "a request for %lu elements of %lu bytes was granted", n, sizeof(T));
			if (thrown) {
				CHECK(h.failed || impossible, P(A01), "bogus-failure", "%lu elements were refused although there was memory", n);
				probe(P_REPORTED);
				fails++;
			}
			if (p && !thrown) {
				CHECK(!h.failed, P(A01), "silent-failure", "a pointer although the heap refused");
				CHECK((uintptr_t)p % Align == 0, P(A01), "misaligned", "a block of %lu bytes is not aligned to %lu", bytes, Align);
				auto it = h.live.find(p);
				CHECK(it != h.live.end() && it->second.size >= bytes, P(A01), "too-small", "a block of %lu bytes has only %lu", bytes, it == h.live.end() ? 0 : it->second.size);
				Live b{(u8 *)p, bytes, bits64()};
				disjoint(blocks, b, "aligned allocator");
				fill(b);
				blocks.push_back(b);
				probe(P_BLOCK);
				if (fails)
					probe(P_AFTER_FAILURE);
			}
		} else {
			size_t i = choose(blocks.size());
			intact(blocks[i], "aligned allocator");
			EV("block %lu released", i);
			size_t before = h.live.size();
			{
				HeapOn on;
				a.deallocate((T *)blocks[i].p, blocks[i].n / sizeof(T));
			}
			CHECK(h.live.size() == before - 1, P(A01), "not-released", "releasing a block changed the number of live blocks from %lu to %lu", before, h.live.size());
			blocks.erase(blocks.begin() + i);
			probe(P_RELEASED);
		}
	}
	for (auto &b : blocks) {
		intact(b, "aligned allocator");
		a.deallocate((T *)b.p, b.n / sizeof(T));
	}
	CHECK(h.live.empty(), P(A01), "not-released", "%lu blocks are left after everything was released", h.live.size());
	heap = nullptr;
	run_nontrivial = h.requests > 0;
	sim_time(h.requests);
}

// ---------------------------------------------------------------- containers
struct Odd {
	u8 b[24];
	Odd(u64 v = 0) {
		for (int i = 0; i < 24; i++)
			b[i] = u8(v >> (i % 8 * 8));
	}
	bool operator==(Odd const &) const = default;
	auto operator<=>(Odd const &) const = default;
};
struct alignas(32) Over {
	u64 v[5];
	Over(u64 x = 0)
		: v{x, ~x, x, x, ~x} {
	}
	bool operator==(Over const &o) const {
		return std::equal(v, v + 5, o.v);
	}
};
template<class T>
T value() {
	return T(choose(1000));
}
template<class C, class M>
void same(C const &c, M const &m, const char *when) {
	CHECK(c.size() == m.size() && std::equal(c.begin(), c.end(), m.begin(), m.end()), P(A01), "contents-lost", "a container of %lu elements differs from the %lu it should hold %s", c.size(), m.size(), when);
}
template<class T, size_t Align, class Ops>
void in_container(Ops ops) {
	Heap h;
	heap = &h;
	h.capacity = choose(2) ? ~0ull >> 8 : 500 + choose(8000);
	ops(h);
	CHECK(h.live.empty(), P(A01), "not-released", "%lu blocks are left after the containers are gone", h.live.size());
	heap = nullptr;
	run_nontrivial = h.requests > 0;
	sim_time(h.requests);
}
// runs an operation under a failing heap; returns false if it failed
template<class Op>
bool attempt(Heap &h, Op op) {
	step();
	if (choose(4) == 0)
		h.fail_in = 1 + choose(2);
	bool ok = true, refused = false;
	h.failed = false;
	{
		HeapOn on;
		try {
			op();
		} catch (std::bad_alloc const &) {
			ok = false;
		}
		refused = h.failed;
	}
	h.fail_in = 0;
	if (!ok) {
		CHECK(refused, P(A01), "bogus-failure", "a container was refused memory although there was some");
		probe(P_CONTAINER_FAILED);
	}
	return ok;
}
template<class T, size_t Align>
void vectors() {
	in_container<T, Align>([](Heap &h) {
		using V = std::vector<T, AlignedAllocator<T, Align>>;
		V v[2];
		std::vector<T> m[2];
		EV("vectors, elements of %lu bytes, alignment %lu", sizeof(T), Align);
		while (more(50)) {
			auto i = choose(2);
			switch (choose(8)) {
				case 0:
				case 1:
				case 2: {
					T x = value<T>();
					for (u64 n = 1 + choose(20); n--;)
						if (attempt(h, [&] { v[i].push_back(x); }))
							m[i].push_back(x), probe(P_GROWN);
						else
							same(v[i], m[i], "after a failed push_back");
					EV("vector %lu grows to %lu", i, m[i].size());
					break;
				}
				case 3: {
					size_t n = choose(200);
					T x = value<T>();
					bool ok = attempt(h, [&] { v[i].resize(n, x); });
					if (ok)
						m[i].resize(n, x);
					EV("vector %lu resized to %lu: %d", i, n, ok);
					break;
				}
				case 4: {
					size_t n = choose(300);
					bool ok = attempt(h, [&] { v[i].reserve(n); });
					if (ok)
						CHECK(v[i].capacity() >= n, P(A01), "contents-lost", "capacity %lu after reserving %lu", v[i].capacity(), n);
					EV("vector %lu reserves %lu: %d", i, n, ok);
					break;
				}
				case 5: {
					attempt(h, [&] { v[i].shrink_to_fit(); });
					EV("vector %lu shrinks", i);
					break;
				}
				case 6: { // a copy of the other
					bool ok = attempt(h, [&] {
						V c(v[!i]);
						v[i].swap(c);
					});
					if (ok)
						m[i] = m[!i];
					EV("vector %lu copied: %d", i, ok);
					break;
				}
				case 7: {
					HeapOn on;
					if (choose(2)) {
						v[i].clear();
						m[i].clear();
					} else {
						v[i] = std::move(v[!i]);
						m[i] = std::move(m[!i]);
						v[!i].clear();
						m[!i].clear();
					}
					EV("vector %lu cleared or moved to", i);
					break;
				}
			}
			for (int k = 0; k < 2; k++) {
				same(v[k], m[k], "later");
				if (!v[k].empty())
					CHECK((uintptr_t)v[k].data() % Align == 0, P(A01), "misaligned", "vector data is not aligned to %lu", Align);
			}
		}
		HeapOn on;
		V().swap(v[0]);
		V().swap(v[1]);
	});
}
template<class T, size_t Align>
void nodes() {
	in_container<T, Align>([](Heap &h) {
		EV("list, map and deque, elements of %lu bytes, alignment %lu", sizeof(T), Align);
		std::list<T, AlignedAllocator<T, Align>> l;
		std::list<T> ml;
		std::map<u64, T, std::less<>, AlignedAllocator<std::pair<const u64, T>, Align>> mp;
		std::map<u64, T> mm;
		std::vector<std::deque<T, AlignedAllocator<T, Align>>> dq; // creating one takes memory
		std::deque<T> md;
		if (!attempt(h, [&] { dq.emplace_back(); }))
			dq.clear();
		while (more(50)) {
			T x = value<T>();
			u64 k = choose(20);
			switch (choose(6)) {
				case 0:
				case 1:
					if (attempt(h, [&] { k & 1 ? l.push_back(x) : l.push_front(x); }))
						k & 1 ? ml.push_back(x) : ml.push_front(x);
					EV("list of %lu", ml.size());
					break;
				case 2:
				case 3:
					if (attempt(h, [&] { mp.insert_or_assign(k, x); }))
						mm.insert_or_assign(k, x);
					EV("map of %lu", mm.size());
					break;
				case 4:
					if (!dq.empty())
						for (u64 n = choose(60); n--;)
							if (attempt(h, [&] { dq[0].push_back(x); }))
								md.push_back(x);
					EV("deque of %lu", md.size());
					break;
				case 5: {
					HeapOn on;
					if (!ml.empty())
						l.pop_front(), ml.pop_front();
					mp.erase(k), mm.erase(k);
					if (!md.empty())
						dq[0].pop_front(), md.pop_front();
					probe(P_RELEASED);
					break;
				}
			}
			same(l, ml, "in a list");
			same(mp, mm, "in a map");
			if (!dq.empty())
				same(dq[0], md, "in a deque");
		}
		HeapOn on;
		l.clear();
		mp.clear();
		dq.clear();
	});
}
void strings() {
	in_container<char, 64>([](Heap &h) {
		using S = std::basic_string<char, std::char_traits<char>, AlignedAllocator<char, 64>>;
		S s;
		std::string m;
		EV("string");
		probe(P_STRING);
		while (more(30)) {
			size_t n = choose(60);
			char c = 'a' + choose(26);
			if (choose(4)) {
				if (attempt(h, [&] { s.append(n, c); }))
					m.append(n, c);
			} else {
				HeapOn on;
				s.erase(0, n);
				m.erase(0, n);
			}
			EV("string of %lu", m.size());
			CHECK(s == m.c_str(), P(A01), "contents-lost", "a string of %lu characters differs", m.size());
		}
		HeapOn on;
		S().swap(s);
	});
}

// ---------------------------------------------------------------- arena
void arena() {
	size_t n = choose(8) ? choose(600) : choose(4);
	bool large = chance(1, 200);
	if (large)
		n = 65530 + choose(2000);
	constexpr size_t G = 32;
	std::vector<u8> mem(n + 2 * G, 0x5A);
	u8 *base = mem.data() + G;
	MonotonicAllocator a{std::span<u8>{base, n}};
	std::vector<Live> blocks;
	size_t used = 0;
	bool full = false;
	u64 ops = 0;
	EV("arena of %lu bytes", n);
	u64 mean = large ? 4000 + choose(30000) : 1 + choose(40);
	while (more(30)) {
		step();
		ops++;
		if (choose(16) == 0) {
			for (auto &b : blocks)
				intact(b, "arena");
			a.reset();
			blocks.clear();
			used = 0;
			full = false;
			EV("reset");
			probe(P_ARENA_RESET);
		} else {
			size_t left = n - used, s;
			switch (choose(8)) {
				case 0: s = left + choose(3) - (left ? choose(2) : 0); break;
				case 1: s = 0; break;
				case 2: {
					u64 k = choose(4);
					s = k == 0 ? ~0ull : k == 1 ? ~0ull - used + choose(3) : k == 2 ? ~0ull >> 1 : 0ull - choose(n + 1);
					if (s <= left)
						s = ~0ull;
					fault(F_OVERFLOW);
					break;
				}
				default: s = 1 + choose(2 * mean); break;
			}
			u8 *p = a.allocate(s);
			EV("%lu of %lu bytes: %s", s, left, p ? "given" : "null");
			if (s > left) {
				CHECK(!p, P(A01), "too-small", "%lu bytes were given although only %lu are left", s, left);
				fault(F_ARENA_FULL);
				probe(P_REPORTED);
				full = true;
			} else if (s == left || s == 0)
				probe(s ? P_EXACT : P_ZERO);
			else
				CHECK(p, P(A01), "bogus-failure", "%lu bytes were refused although %lu are left", s, left);
			if (p) {
				CHECK(p >= base && p + s <= base + n, P(A01), "outside", "a block of %lu bytes lies at %ld in an arena of %lu", s, long(p - base), n);
				Live b{p, s, bits64()};
				disjoint(blocks, b, "arena");
				fill(b);
				blocks.push_back(b);
				used += s;
				probe(P_ARENA_BLOCK);
				if (full)
					probe(P_ARENA_AFTER_FULL);
			}
		}
		CHECK(a.free_space() == n - used && a.total_size() == n, P(A01), "wrong-space", "free space %lu of %lu instead of %lu of %lu", a.free_space(), a.total_size(), n - used, n);
	}
	for (auto &b : blocks)
		intact(b, "arena");
	for (size_t i = 0; i < G; i++)
		CHECK(mem[i] == 0x5A && mem[G + n + i] == 0x5A, P(A01), "outside", "memory outside the arena was changed");
	run_nontrivial = ops > 0;
	sim_time(ops);
}

void run() {
	heap = nullptr;
	switch (choose(18)) {
		case 0: return raw<u8, 64>();
		case 1: return raw<u32, 64>();
		case 2: return raw<Odd, 32>();
		case 3: return raw<Over, 256>();
		case 4: return raw<u64, 16>();
		case 5: return raw<u8, 4096>();
		case 6: return vectors<u8, 64>();
		case 7: return vectors<u32, 64>();
		case 8: return vectors<Odd, 16>();
		case 9: return vectors<Over, 32>();
		case 10: return vectors<u64, 1024>();
		case 11: return nodes<u32, 64>();
		case 12: return nodes<Odd, 16>();
		case 13: return nodes<Over, 128>();
		case 14: return strings();
		default: return arena();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"alloc",
	{{"A01", 200000, 30000000, "Each run draws element size, alignment, heap size and a history of requests and releases of raw blocks, of growing, shrinking, copied and cleared containers with failing allocations, or of an arena. Non-trivial: memory was asked for."}},
	{"underlying allocation fails", "heap exhausted", "request larger than any memory", "arena exhausted"},
	{"block given", "failure reported", "block given after a failure", "container operation failed", "container grew", "block released", "arena block", "arena reset", "arena used after a refusal", "exact fit", "nothing asked for", "string"},
	"complete event log (requests, results, container sizes)",
	"requests for memory",
	{"util/aligned_allocator.hh", "util/monotonic_allocator.hh", "libstdc++ vector, list, map, deque, basic_string"},
	{"C library heap: aligned_alloc, posix_memalign and aligned operator new with limited capacity and injected failures"},
	{"the arena may refuse a request for exactly the remaining bytes"},
	run,
	200000};
}
