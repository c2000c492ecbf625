// Deterministic simulation core: choice streams, event log, violations, statistics.
// Every run is a pure function of its choice streams; a seed only generates them.
#pragma once
#include <bits/stdc++.h>

namespace sim
{
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

constexpr u64 mix(u64 z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
constexpr u64 fnv(const char *s) {
	u64 h = 0xcbf29ce484222325ull;
	while (*s)
		h = (h ^ u8(*s++)) * 0x100000001b3ull;
	return h;
}

// ---------------------------------------------------------------- choices
enum Stream { S_CONFIG = 0, S_T1 = 1, S_T2 = 2, S_T3 = 3, S_T4 = 4, S_SCHED = 5, S_MEM = 6, S_FAULT = 7, NSTREAMS = 8 };
constexpr size_t STREAM_CAP = 1 << 15;

struct StreamBuf {
	u64 len;	  // number of choices consumed so far
	u64 have;	  // replay: number of recorded values
	u64 v[STREAM_CAP];
};

// Shared with the parent process, so that it survives a crash of the worker
struct RunBox {
	StreamBuf s[NSTREAMS];
	u64 hash;		// event hash so far
	u64 steps;
	u64 run_index;
	u32 replaying;
	u32 done;		// run ended normally (with or without a violation)
	u32 violated;
	u32 known;		// violation carries the tag of a known finding
	char cls[96];
	char msg[768];
	char known_tag[64];
};

extern RunBox *box;
extern u64 rng_state;
extern int cur_stream;
extern bool tracing;
extern int target_prop;		// index of the property being decided
extern u64 step_budget;

inline u64 rng() {
	rng_state += 0x9e3779b97f4a7c15ull;
	return mix(rng_state);
}

// The single source of nondeterminism. gen() supplies the value when generating.
template<class Gen>
inline u64 draw(int stream, u64 n, Gen gen) {
	if (n <= 1)
		return 0;
	auto &s = box->s[stream];
	u64 i = s.len;
	if (i >= STREAM_CAP)
		return 0;
	s.len = i + 1;
	u64 v;
	if (box->replaying) {
		v = i < s.have ? s.v[i] : 0;
		if (v >= n)
			v %= n;
	} else
		v = gen() % n;
	s.v[i] = v;
	return v;
}
// uniform in 0..n-1
inline u64 choose(u64 n) {
	return draw(cur_stream, n, [] { return rng(); });
}
inline u64 choose_on(int stream, u64 n) {
	return draw(stream, n, [] { return rng(); });
}
inline u64 range(u64 lo, u64 hi) {
	return lo + choose(hi - lo + 1);
}
// true with probability num/den; false is the simple choice
inline bool chance_on(int stream, u64 num, u64 den) {
	return draw(stream, 2, [&] { return u64(rng() % den < num); });
}
inline bool chance(u64 num, u64 den) {
	return chance_on(cur_stream, num, den);
}
// loop control: continue with probability (avg-1)/avg, so that dropping a chunk of choices drops an operation
inline bool more(u64 avg) {
	return draw(cur_stream, 2, [&] { return u64(rng() % avg != 0); });
}
// any 64-bit value
inline u64 bits64() {
	return draw(cur_stream, ~0ull, [] { return rng(); });
}
template<class C>
inline auto pick(C const &c) {
	return *(std::begin(c) + choose(std::size(c)));
}
template<class T>
inline T pick(std::initializer_list<T> c) {
	return *(c.begin() + choose(c.size()));
}

struct WithStream {
	int old;
	WithStream(int s)
		: old{cur_stream} {
		cur_stream = s;
	}
	~WithStream() {
		cur_stream = old;
	}
};

// ---------------------------------------------------------------- event log
inline void hash_in(u64 x) {
	box->hash = mix(box->hash ^ x);
}
template<class T>
inline u64 to_u64(T x) {
	if constexpr (std::is_same_v<T, float>)
		return std::bit_cast<u32>(x);
	else if constexpr (std::is_same_v<T, double>)
		return std::bit_cast<u64>(x);
	else if constexpr (std::is_same_v<T, const char *> || std::is_same_v<T, char *>)
		return fnv(x);
	else {
		static_assert(!std::is_pointer_v<T>, "addresses must not enter the event log");
		return u64(x);
	}
}
void ev_print(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
template<class... A>
inline void ev_hash(u64 id, A... a) {
	hash_in(id);
	(hash_in(to_u64(a)), ...);
}
#define EV(fmt, ...)                                                                                                   \
	do {                                                                                                               \
		constexpr ::sim::u64 ev_id_ = ::sim::fnv(fmt);                                                                 \
		::sim::ev_hash(ev_id_ __VA_OPT__(, ) __VA_ARGS__);                                                             \
		if (::sim::tracing) [[unlikely]]                                                                               \
			::sim::ev_print(fmt __VA_OPT__(, ) __VA_ARGS__);                                                           \
	} while (0)

// ---------------------------------------------------------------- violations
struct Stop {};	// unwinds a run that ended early
extern void (*fiber_abort)(); // set while a fiber runs: leaves it instead of throwing
constexpr u64 ALL = ~0ull;
inline u64 P(int i) {
	return 1ull << i;
}
extern const char *known_tag; // non-null: the run is in the shape of this known finding
// Records a violation of the properties in the mask. Ends the run if the property being decided is among them.
void fail(u64 props, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
#define CHECK(cond, props, cls, ...)                                                                                   \
	do {                                                                                                               \
		if (!(cond)) [[unlikely]]                                                                                      \
			::sim::fail(props, cls, __VA_ARGS__);                                                                      \
	} while (0)
void step(u64 n = 1); // bounded progress: exceeding the budget is a violation (livelock)

// ---------------------------------------------------------------- statistics
constexpr int NCOUNT = 96;
struct Stats {
	u64 runs, nontrivial, steps, sim_time, events, switches, foreign, known;
	u64 fault[NCOUNT], probe[NCOUNT];
};
extern Stats *stats;
inline void fault(int i) {
	stats->fault[i]++;
}
inline void probe(int i) {
	stats->probe[i]++;
}
extern bool run_nontrivial;
extern u64 run_signature; // distinctness measure; defaults to the event hash
inline void sim_time(u64 t) {
	stats->sim_time += t;
}

// ---------------------------------------------------------------- harness
struct PropInfo {
	const char *id;
	u64 runs_quick, runs_thorough;
	const char *rule;
};
struct Harness {
	const char *name;
	std::vector<PropInfo> props;
	std::vector<const char *> faults, probes;
	const char *measure;   // what makes two runs distinct
	const char *time_unit; // what simulated time counts
	std::vector<const char *> real, stub;
	std::vector<const char *> assumptions;
	void (*run)();
	u64 budget = 2'000'000; // steps per run
};
extern Harness harness; // defined by each harness

} // namespace sim
