// I01, I02: FilteredInterpArray: announcements from an interrupt or another core, and the interpolation that follows
#include "wm.hh"
#include "util/filtered_interp_array.hh"

using namespace sim;
namespace
{
enum { I01, I02 };
enum F { F_PREEMPT, F_ISR, F_STALE, F_EARLY, F_LATE, F_DUP };
enum PR { P_SERVED, P_DURING, P_MAYBE, P_FINAL, P_COALESCED, P_RAMP, P_HIT, P_HELD, P_CUT_SHORT, P_NONE_COUNTED, P_WEAK, P_BARE };

// ---------------------------------------------------------------- I01
template<size_t N>
struct Payload {
	std::atomic<u32> ch[N];
};
struct CountFilter {
	u32 calls = 0;
	float add_val(float v) {
		calls++;
		return v;
	}
};

template<size_t N>
struct Announce {
	FilteredInterpArray<N, CountFilter, float> *arr;
	Payload<N> *pay;
	struct Mark {
		u64 b, e;
		u32 version;
	};
	std::vector<Mark> marks; // completed and running (e = max) announcements
	u32 version = 0;
	bool weak = false;
	u64 readings = 0;
	u32 seen[N]{};		   // by the last reading
	float out[N]{};
	u64 last_reading = 0; // when the last reading began
	u64 served = 0;		  // announcements completed by then have been served

	void announce(int n) {
		while (n--) {
			wm::op_boundary();
			// publish new readings, then announce them
			u32 v = ++version;
			for (size_t i = 0; i < N; i++)
				pay->ch[i].store(v, std::memory_order_relaxed);
			size_t k = marks.size();
			marks.push_back({wm::time(), ~0ull, v});
			EV("T%d announces %u ...", wm::self(), v);
			arr->mark_new_data_ready();
			marks[k].e = wm::time();
			EV("T%d announced %u", wm::self(), v);
			if (choose(3) == 0)
				wm::op_boundary();
		}
	}
	// one pass of the consumer
	bool pass() {
		u64 pb = wm::time(), tr = 0;
		bool must = false; // announced completely since the last reading began
		u32 must_see = 0, completed = 0;
		for (auto &m : marks)
			if (m.e <= pb) {
				must_see = std::max(must_see, m.version);
				if (m.b >= last_reading) {
					must = true;
					completed++;
				}
			}
		u32 got[N]{}, times[N]{};
		arr->add_new_readings([&](unsigned i) -> float {
			if (!tr)
				tr = std::max<u64>(wm::time(), 1);
			CHECK(i < N, P(I01), "bad-channel", "channel %u of %lu was read", i, N);
			if (i >= N)
				return 0;
			times[i]++;
			got[i] = pay->ch[i].load(std::memory_order_relaxed);
			return float(got[i]);
		});
		bool read = tr != 0;
		EV("pass -> %s %u..%u", read ? "reading" : "nothing", got[0], got[N - 1]);
		if (read) {
			readings++;
			run_nontrivial = true;
			for (size_t i = 0; i < N; i++) {
				CHECK(times[i] == 1, P(I01), "partial-reading", "channel %lu was read %u times in one reading", i, times[i]);
				seen[i] = got[i];
			}
			CHECK(readings <= marks.size(), P(I01), "served-twice", "%lu readings for %lu announcements", readings, marks.size());
		}
		if (weak)
			return read;
		// sequentially consistent memory: exact
		bool may = false, during = false; // an announcement may have become effective since it was last known that none was open
		for (auto &m : marks) {
			if (m.e > served)
				may = true;
			if (m.e > pb)
				during = true;
		}
		CHECK(read || !must, P(I01), "announcement-lost", "new readings were announced before the pass, but it read nothing");
		CHECK(may || !read, P(I01), "served-twice", "the pass read although nothing was announced since the last reading");
		if (read) {
			for (size_t i = 0; i < N; i++)
				CHECK(got[i] >= must_see, P(I01), "old-data", "channel %lu gave version %u although %u had been announced", i, got[i], must_see);
			if (must)
				probe(P_SERVED);
			else
				probe(P_MAYBE);
			if (completed > 1)
				probe(P_COALESCED);
			last_reading = tr;
		}
		served = pb;
		if (during)
			probe(P_DURING);
		return read;
	}
	u64 total = 0;
	void outputs(u64 n) {
		total += n;
		while (n--)
			arr->get_interp_values([&](unsigned i, float v) {
				if (i < N)
					out[i] = v;
			});
	}
	void consumer(u64 avg) {
		while (more(avg)) {
			wm::op_boundary();
			if (choose(3) == 0)
				outputs(1 + choose(3));
			else
				pass();
		}
	}
	void run() {
		wm::Config c;
		c.race_props = P(I01);
		c.f_preempt = F_PREEMPT;
		c.f_isr = F_ISR;
		c.f_stale = F_STALE;
		wm::draw_policy(c, true, 0b110 & 0b100);
		weak = c.weak;
		if (weak)
			probe(P_WEAK);
		wm::begin(c);
		arr = wm::make<FilteredInterpArray<N, CountFilter, float>>();
		pay = wm::make<Payload<N>>();
		for (auto &x : pay->ch)
			x.store(0, std::memory_order_relaxed);
		u32 n = 1 + choose(5);
		arr->set_num_updates(n);
		EV("%lu channels, weak %d isr %x gap %u", N, c.weak, c.isr_mask, c.mean_gap);
		for (int rounds = 1 + choose(3); rounds--;) {
			int a = 1 + choose(6);
			u64 avg = 3 + choose(6);
			wm::parallel({[&, avg] { consumer(avg); }, [&, a] { announce(a); }});
			// everything has been announced: the next pass serves what is left
			bool r = pass();
			for (size_t i = 0; i < N; i++)
				CHECK(seen[i] == version, P(I01), r ? "old-data" : "announcement-lost", "announcement %u was not served: the last reading of channel %lu saw %u", version, i, seen[i]);
			bool again = pass();
			CHECK(!again, P(I01), "served-twice", "another pass read although nothing was announced");
			outputs(total + 8); // more than in any period before
			for (size_t i = 0; i < N; i++)
				CHECK(out[i] == float(version), P(I01), "old-output", "channel %lu came to rest at %g instead of %u", i, double(out[i]), version);
			probe(P_FINAL);
			marks.clear();
			readings = 0;
		}
		wm::end();
		sim_time(wm::time());
	}
};

// ---------------------------------------------------------------- I02
template<class T>
struct Pass {
	T add_val(T v) {
		return v;
	}
	static T model(T v, T &) {
		return v;
	}
};
template<class T>
struct Smooth {
	T y{};
	T add_val(T v) {
		return model(v, y);
	}
	static T model(T v, T &s) {
		s = s + (v - s) / T(4);
		return s;
	}
};

template<size_t N, class Filter, class T>
void interp() {
	FilteredInterpArray<N, Filter, T> arr;
	u64 n = 256;
	T fs[N]{}, target[N]{}, from[N]{}, out[N]{}, stepv[N]{};
	double mag[N]{};
	u64 k = 0; // outputs since the last reading
	if (choose(4)) {
		n = choose(pick({2, 8, 40}));
		arr.set_num_updates(n);
	}
	bool huge = N < 4 && choose(50000) == 0; // outputs beyond 16 bits
	if (huge && choose(2)) {
		n = 65536 + choose(6000);
		arr.set_num_updates(unsigned(n));
	}
	CHECK(arr.size() == N, P(I02), "bad-channel", "%lu channels instead of %lu", u64(arr.size()), u64(N));
	u64 typical = 1 + choose(12);
	EV("%lu channels, %lu outputs configured, about %lu per reading", N, n, typical);
	bool marked = false;
	auto value = [&]() -> T {
		switch (choose(5)) {
			case 0:
				return T(choose(200)) - T(100);
			case 1:
				return T(int64_t(choose(2000001)) - 1000000) / T(pick({1, 7, 100}));
			case 2:
				return T(choose(3));
			case 3:
				return T(choose(4096));
			default:
				return T(0);
		}
	};
	T val[N]{};
	auto one_output = [&] {
		step();
		k++;
		T now[N];
		u32 times[N]{};
		arr.get_interp_values([&](unsigned i, T v) {
			CHECK(i < N, P(I02), "bad-channel", "output to channel %u of %lu", i, N);
			if (i < N)
				now[i] = v, times[i]++;
		});
		for (size_t i = 0; i < N; i++) {
			CHECK(times[i] == 1, P(I02), "bad-output", "channel %lu got %u outputs in one pass", i, times[i]);
			if (!huge && N < 100)
				EV("  output %lu of %lu: channel %lu = %g", k, n, i, double(now[i]));
			if (k >= n) {
				CHECK(now[i] == target[i], P(I02), k == n ? "target-missed" : "not-held", "channel %lu is %.9g instead of the target %.9g after %lu of %lu outputs", i, double(now[i]), double(target[i]), k, n);
				probe(k == n ? P_HIT : P_HELD);
			} else {
				probe(P_RAMP);
				double d = double(target[i]) - double(from[i]);
				if constexpr (std::is_integral_v<T>) {
					T s = T(d) / T(n); // whole steps, the rest in the last one
					CHECK(now[i] == T(from[i] + T(k) * s), P(I02), "uneven-step", "channel %lu is %g after %lu of %lu outputs from %g to %g", i, double(now[i]), k, n, double(from[i]), double(target[i]));
				} else {
					double want = double(from[i]) + d * double(k) / double(n);
					double eps = (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * (k + 4) * (std::abs(double(from[i])) + std::abs(double(target[i])) + std::abs(d)) + 1e-37;
					CHECK(std::abs(double(now[i]) - want) <= eps, P(I02), "uneven-step", "channel %lu is %.9g instead of %.9g after %lu of %lu outputs from %g to %g", i, double(now[i]), want, k, n, double(from[i]), double(target[i]));
				}
			}
			out[i] = now[i];
		}
	};
	for (u64 periods = 2 + choose(8); periods-- && more(20);) {
		// announcement: missing, once, repeated
		u64 m = choose(8);
		if (m == 0) {
		} else {
			if (m > 5)
				fault(F_DUP);
			for (u64 i = 0; i < (m > 5 ? 3 : 1); i++)
				arr.mark_new_data_ready();
			marked = true;
			for (auto &x : val)
				x = value();
			EV("announced, first channel %g", double(val[0]));
		}
		if (choose(10) == 0 && k == 0 && marked) {
			// set-up between two readings without an output
			n = choose(20);
			arr.set_num_updates(n);
			EV("%lu outputs configured", n);
		}
		u32 times[N]{};
		arr.add_new_readings([&](unsigned i) -> T {
			CHECK(i < N, P(I02), "bad-channel", "channel %u of %lu was read", i, N);
			if (i >= N)
				return 0;
			times[i]++;
			return val[i];
		});
		for (size_t i = 0; i < N; i++)
			CHECK(times[i] == marked, P(I01) | P(I02), "partial-reading", "channel %lu was read %u times", i, times[i]);
		if (marked) {
			if (k) {
				if (k < n)
					probe(P_CUT_SHORT);
				n = k;
			} else
				probe(P_NONE_COUNTED);
			for (size_t i = 0; i < N; i++) {
				target[i] = Filter::model(val[i], fs[i]);
				from[i] = out[i];
			}
			k = 0;
			EV("reading: %lu outputs to the target", n);
			run_nontrivial = true;
		}
		marked = false;
		u64 outs;
		switch (choose(5)) {
			case 0:
				outs = choose(3);
				fault(F_EARLY);
				break;
			case 1:
				outs = typical + 1 + choose(30);
				fault(F_LATE);
				break;
			case 2:
				outs = n + choose(3) - (n > 1);
				break;
			default:
				outs = typical + choose(3);
		}
		if (huge && choose(2)) {
			outs = 65530 + choose(5000);
			fault(F_LATE);
		}
		if (huge)
			EV("%lu outputs", outs);
		for (; outs; outs--) {
			one_output();
			if (choose(6) == 0) // a pass without an announcement changes nothing
				arr.add_new_readings([&](unsigned) -> T {
					CHECK(false, P(I01) | P(I02), "served-twice", "channels were read without an announcement");
					return T(0);
				});
		}
	}
	sim_time(box->steps);
}

// The bare interpolators: an equal share of the distance at each output
template<class T, class Interp>
void bare(Interp p, u64 n, bool variable) {
	probe(P_BARE);
	T cur = 0;
	double at = 0, share = 0, mag = 0;
	u64 left = 0, k = 0;
	T target = 0;
	auto snap = [&] {
		if constexpr (requires { p.snap_to_target(); }) {
			cur = p.snap_to_target();
			EV("snap: %g", double(cur));
			CHECK(cur == target, P(I02), "target-missed", "snapping gives %.9g instead of the target %.9g", double(cur), double(target));
		}
	};
	EV("bare interpolation over %lu", n);
	if (choose(8) == 0)
		snap();
	while (more(40)) {
		step();
		switch (choose(4)) {
			case 0: {
				if (left)
					fault(F_EARLY);
				if constexpr (requires { p.set_num_updates(1u); }) {
					if (variable && choose(3) == 0) {
						n = 1 + choose(choose(3) ? 20 : choose(10000) ? 600 : 140000);
						p.set_num_updates(n);
						EV("%lu outputs configured", n);
						CHECK(p.get_num_updates() == n, P(I02), "uneven-step", "%u outputs are configured instead of %lu", p.get_num_updates(), n);
					}
				}
				T v = T(int64_t(choose(2000001)) - 1000000) / T(pick({1, 7, 100, 10000}));
				if (choose(4) == 0)
					v = cur; // no distance
				if constexpr (requires { p.snap_to_target(); }) {
					n = choose(4) ? choose(20) : choose(choose(10000) ? 600 : 140000);
					EV("over %lu outputs", n);
					p.set_new_value(v, unsigned(n));
					target = v;
					if (n == 0) { // no outputs on the way: only the snap is left
						EV("target %g", double(v));
						snap();
						left = 0;
						break;
					}
				} else
					p.set_new_value(v);
				if constexpr (requires { p.target_val; })
					CHECK(p.target_val == v, P(I02), "uneven-step", "the target is %.9g instead of %.9g", double(p.target_val), double(v));
				at = double(cur);
				share = std::is_integral_v<T> ? std::trunc((double(v) - at) / double(n)) : (double(v) - at) / double(n);
				mag = std::abs(at) + std::abs(double(v));
				left = n;
				k = 0;
				EV("target %g", double(v));
				CHECK(std::abs(double(p.get_step_size()) - share) <= mag * 3e-7, P(I02), "uneven-step", "the step is %.9g instead of %.9g", double(p.get_step_size()), share);
				break;
			}
			default: {
				u64 m = std::min<u64>(left, 1 + choose(8));
				if (choose(3) == 0)
					m = left;
				left -= m;
				while (m--) {
					run_nontrivial = true;
					k++;
					cur = p.next();
					double want = at + share * double(k), eps = std::is_integral_v<T> ? 0 : (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * double(k + 4) * (mag + std::abs(want)) + 1e-37;
					CHECK(std::abs(double(cur) - want) <= eps, P(I02), "uneven-step", "output %lu of %lu is %.9g instead of %.9g", k, n, double(cur), want);
					if constexpr (requires { p.cur_val; })
						CHECK(p.cur_val == cur, P(I02), "uneven-step", "the current value is %.9g instead of %.9g", double(p.cur_val), double(cur));
				}
				EV("output %lu: %g", k, double(cur));
				if (choose(4) == 0) { // steps already begun end here
					snap();
					if constexpr (requires { p.snap_to_target(); })
						left = 0;
				}
			}
		}
	}
}

void run() {
	if (target_prop == I01) {
		switch (choose(3)) {
			case 0: {
				Announce<2> a;
				return a.run();
			}
			case 1: {
				Announce<1> a;
				return a.run();
			}
			case 2: {
				Announce<5> a;
				return a.run();
			}
		}
	}
	switch (choose(20000)) {
		case 0:
			return interp<300, Pass<float>, float>();
		case 1:
			return bare<double>(InterpParam<double, 70000>{}, 70000, false);
		case 2: {
			unsigned n = 1 + choose(140000);
			return bare<double>(InterpParamVariable<double>{n}, n, true);
		}
	}
	switch (choose(9)) {
		case 8:
			switch (choose(3)) {
				case 0:
					return bare<float>(InterpParamVar<float>{}, 0, false);
				case 1:
					return bare<int>(InterpParamVar<int>{}, 0, false);
				default:
					return bare<double>(InterpParamVar<double>{}, 0, false);
			}
		case 6:
			switch (choose(4)) {
				case 0:
					return bare<float>(InterpParam<float, 7>{}, 7, false);
				case 1:
					return bare<float>(InterpParam<float, 256>{}, 256, false);
				case 2:
					return bare<int>(InterpParam<int, 10>{}, 10, false);
				default:
					return bare<double>(InterpParam<double, 1>{}, 1, false);
			}
		case 7:
			switch (choose(4)) {
				case 0:
					return bare<float>(InterpParamVariable<float>{}, 256, true);
				case 1: {
					unsigned n = 1 + choose(30);
					return bare<float>(InterpParamVariable<float>{n}, n, true);
				}
				case 2: {
					unsigned n = 1 + choose(30);
					return bare<int>(InterpParamVariable<int>{n}, n, true);
				}
				default:
					return bare<double>(InterpParamVariable<double>{5}, 5, true);
			}
		case 0:
			return interp<2, Pass<float>, float>();
		case 1:
			return interp<1, Pass<float>, float>();
		case 2:
			return interp<3, Smooth<float>, float>();
		case 3:
			return interp<4, Pass<int>, int>();
		case 4:
			return interp<2, Smooth<double>, double>();
		case 5:
			return interp<6, Smooth<float>, float>();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"interp",
	{{"I01", 4000000, 150000000, "Each run draws the number of channels and the scheduling and memory policy, then rounds in which one task or interrupt announces readings while the consumer makes passes and outputs; after each round a final pass must serve what is left. Non-trivial: a reading was taken."},
	 {"I02", 8000000, 150000000, "Each run draws channels, value type, filter and configured number, then reading periods with missing, repeated, early and late announcements and a drawn number of outputs. Non-trivial: a reading was taken."}},
	{"preemption between two memory accesses of an operation", "interrupt handler runs in the middle of a pass", "load returns an older store (weak memory)", "next announcement comes early", "next announcement comes late", "repeated announcement"},
	{"announcement served by the next pass", "announcement during a pass", "announcement before the reading of a pass", "final pass", "several announcements served by one reading", "output on the way", "target hit", "target held", "period shorter than the one before", "no output counted", "weak memory", "bare interpolator"},
	"complete event log (announcements, passes, outputs, context switches)",
	"memory accesses and operation boundaries (I01), outputs (I02)",
	{"util/filtered_interp_array.hh", "util/interp_param.hh", "libstdc++ std::atomic"},
	{"processor: simulated tasks and interrupts", "memory system: view-based C++20 memory model", "sensor channels and filters"},
	{"set_num_updates() is called during set-up or between two readings, not on the way to a target"},
	run,
	400000};
}
