// E01..E04: switches, shafts, noisy levels and parameters, sampled, polled and handed over by tasks that stall
#include "core.hh"
#include "util/change_detector.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"
#include "util/edge_detector.hh"
#include "util/parameter.hh"
#include "util/quadrature_encoder.hh"
#include "util/rotary_motion.hh"
#include "util/schmitt_trigger.hh"
#include "util/math.hh"

using namespace sim;
namespace
{
enum { E01, E02, E03, E04 };
enum F { F_BOUNCE, F_GLITCH, F_STALL, F_MISSED, F_BACK, F_NOISE, F_SPIKE, F_STARVED_W, F_STARVED_Q };
enum PR { P_PRESS, P_RELEASE, P_REPLACED, P_HANDED, P_HANDED_OVER_OLDER, P_BOTH_HANDED, P_IGNORED, P_COUNT, P_STEP_CW, P_STEP_CCW, P_HALF_STEP, P_CLEAN, P_READ, P_IN_BAND, P_RISE, P_FALL, P_AT_THRESHOLD, P_CHANGED, P_UNCHANGED, P_BELOW_THRESHOLD, P_BACK_TO_SAME, P_EDGE, P_RESET };

// ---------------------------------------------------------------- E01
enum Tri { No, Maybe, Yes };
struct Events {
	Tri press = No, release = No;
	bool level = false;
	// a newer event may (lenient) or does replace an older one
	void pressed(bool replaces) {
		if (release)
			probe(P_REPLACED);
		release = replaces ? No : std::min(release, Maybe);
		press = Yes;
		probe(P_PRESS);
	}
	void released(bool replaces) {
		if (press)
			probe(P_REPLACED);
		press = replaces ? No : std::min(press, Maybe);
		release = Yes;
		probe(P_RELEASE);
	}
	void clear() {
		press = release = No;
	}
	void take(Events &s, bool clear) {
		if (s.press == Yes)
			release = std::min(release, Maybe);
		if (s.release == Yes)
			press = std::min(press, Maybe);
		if ((press && s.release) || (release && s.press))
			probe(P_HANDED_OVER_OLDER);
		if (s.press && s.release)
			probe(P_BOTH_HANDED);
		if (s.press || s.release)
			probe(P_HANDED);
		press = std::max(press, s.press);
		release = std::max(release, s.release);
		level = s.level;
		if (clear)
			s.clear();
	}
};
template<class T>
void check_level(T &t, Events &m, u64 props) {
	bool l;
	switch (choose(3)) {
		case 0: l = t.is_high(); break;
		case 1: l = t.is_pressed(); break;
		default: l = bool(t); break;
	}
	CHECK(l == m.level, props, "wrong-level", "the level is %d instead of %d", l, m.level);
}
template<class T>
void ask(T &t, Events &m, u64 props) {
	bool which = choose(2);
	bool r = which ? (choose(2) ? t.is_just_pressed() : t.just_went_high()) : (choose(2) ? t.is_just_released() : t.just_went_low());
	Tri &e = which ? m.press : m.release;
	EV("asked for a %s: %d", which ? "press" : "release", r);
	if (e == Yes)
		CHECK(r, props, "event-lost", "a %s was raised and has not been reported", which ? "press" : "release");
	if (e == No)
		CHECK(!r, props, "bogus-event", "a %s was reported that was not raised or was reported before", which ? "press" : "release");
	e = No;
}
// a contact that settles, bounces and glitches
struct Contact {
	bool level = false;
	u32 window;
	std::vector<bool> next; // reversed
	bool sample() {
		if (next.empty()) {
			u64 c = choose(10);
			if (c < 2) { // glitch
				fault(F_GLITCH);
				for (u64 n = choose(4); n--;)
					next.push_back(level);
				for (u64 n = 1 + choose(3); n--;)
					next.push_back(!level);
			} else if (c < 4) { // noise
				fault(F_BOUNCE);
				for (u64 n = choose(3 * window + 2); n--;)
					next.push_back(choose(2));
			} else { // transition, maybe bouncing, then a settled period around the length of the window
				bool to = !level;
				u64 hold = choose(4) ? window - std::min<u64>(window, 2) + choose(4) : choose(3 * window);
				for (u64 n = hold; n--;)
					next.push_back(to);
				if (choose(2)) {
					fault(F_BOUNCE);
					for (u64 n = 1 + choose(6); n--;) {
						for (u64 k = 1 + choose(2); k--;)
							next.push_back(!to);
						for (u64 k = 1 + choose(2); k--;)
							next.push_back(to);
					}
					next.push_back(to);
				}
				level = to;
			}
			if (next.empty())
				next.push_back(level);
		}
		bool b = next.back();
		next.pop_back();
		return b;
	}
};
struct NoCount {};
template<class D>
auto steady(D &d) {
	if constexpr (requires { d.steady_state_ctr; })
		return d.steady_state_ctr;
	else
		return NoCount{};
}
template<class D, unsigned Rising, unsigned Falling, unsigned Mask, bool Debounced>
void debounce() {
	D d;
	Toggler hub[2];
	Events md, mh[2];
	Contact c{.window = u32(std::popcount(Mask))};
	constexpr unsigned W = std::popcount(Mask);
	std::deque<bool> hist(W, false);
	u64 count = 0, ticks = 0;
	auto sample = [&] {
		step();
		ticks++;
		bool b = c.sample();
		d.register_state(b);
		hist.pop_front();
		hist.push_back(b);
		auto match = [&](unsigned pattern) {
			for (unsigned i = 0; i < W; i++) // newest sample in bit 0
				if (hist[W - 1 - i] != bool((pattern >> i) & 1))
					return false;
			return true;
		};
		count++;
		if (match(Rising))
			md.pressed(true), md.level = true, count = 0;
		else if (match(Falling))
			md.released(true), md.level = false, count = 0;
		else {
			if (!Debounced)
				md.level = b;
			if (b != hist[W - 2 + (W == 1)])
				probe(P_IGNORED);
		}
		EV("sample %d: level %d, events %d %d", b, md.level, int(md.press), int(md.release));
		if constexpr (!std::is_same_v<decltype(steady(d)), NoCount>) {
			CHECK(steady(d) == count, P(E01), "wrong-count", "the steady count is %u instead of %lu", steady(d), count);
			probe(P_COUNT);
		}
		check_level(d, md, P(E01));
	};
	u64 per_loop = 1 + choose(2 * W);
	EV("window %u, about %lu samples per poll", W, per_loop);
	while (more(25)) {
		u64 n = choose(2 * per_loop);
		if (choose(12) == 0) {
			n = choose(8 * W);
			fault(F_STALL);
		}
		while (n--)
			sample();
		if constexpr (!std::is_same_v<decltype(steady(d)), NoCount>) {
			bool l = hist.back();
			unsigned pattern = l ? Mask : 0;
			bool settled = std::all_of(hist.begin(), hist.end(), [&](bool b) { return b == l; });
			if (choose(64) == 0 && settled && pattern != (Rising & Mask) && pattern != (Falling & Mask)) {
				u64 n = choose(choose(8) ? 300 : 70000);
				EV("steady at %d for %lu", l, n);
				for (u64 k = 0; k < n; k++)
					d.register_state(l);
				count += n;
				if (n && !Debounced)
					md.level = l;
				CHECK(steady(d) == count, P(E01), "wrong-count", "the steady count is %u instead of %lu", steady(d), count);
			}
		}
		switch (choose(8)) {
			case 0:
			case 1:
			case 2:
				ask(d, md, P(E01));
				break;
			case 3:
			case 4: {
				auto i = choose(2);
				if (choose(2)) {
					EV("handed over to %lu", i);
					hub[i].transfer_events(d);
					mh[i].take(md, true);
				} else { // in two steps
					EV("passed on to %lu", i);
					hub[i].update_state(d);
					mh[i].take(md, false);
					if (choose(2)) {
						EV("and cleared");
						d.clear_events();
						md.clear();
					}
				}
				check_level(hub[i], mh[i], P(E01));
				check_level(d, md, P(E01));
				break;
			}
			case 5: {
				auto i = choose(2);
				EV("hub %lu:", i);
				ask(hub[i], mh[i], P(E01));
				check_level(hub[i], mh[i], P(E01));
				break;
			}
			case 6:
				EV("hub 0 handed over to hub 1");
				hub[1].transfer_events(hub[0]);
				mh[1].take(mh[0], true);
				check_level(hub[1], mh[1], P(E01));
				break;
			case 7:
				if (choose(4) == 0) {
					EV("events cleared");
					d.clear_events();
					md.clear();
				} else if (choose(4) == 0) {
					EV("reset");
					probe(P_RESET);
					d.reset();
					md.clear();
					md.level = false;
				}
				break;
		}
	}
	for (int k = 0; k < 4; k++) {
		ask(d, md, P(E01));
		ask(hub[0], mh[0], P(E01));
		ask(hub[1], mh[1], P(E01));
	}
	run_nontrivial = ticks > W;
	sim_time(ticks);
}
// toggles that take levels as they come, several of them passing events on
template<class T, bool Count>
void toggles() {
	constexpr int N = 3;
	T t[N];
	Events m[N];
	u64 count[N]{}, ticks = 0;
	Contact c{.window = 6};
	while (more(60)) {
		step();
		auto i = choose(N);
		switch (choose(8)) {
			case 0:
			case 1:
			case 2: {
				bool b = c.sample();
				if constexpr (Count)
					if (choose(16) == 0) { // long steady
						bool l = m[i].level;
						u64 n = choose(choose(8) ? 60 : 70000);
						EV("toggle %lu steady at %d for %lu", i, l, n);
						for (u64 k = 0; k < n; k++)
							t[i].register_state(l);
						count[i] += n;
						ticks += n;
					}
				if (choose(2))
					t[i].register_state(b);
				else
					t[i].process(b);
				ticks++;
				count[i]++;
				if (b != m[i].level) {
					m[i].level = b;
					if (b)
						m[i].pressed(false);
					else
						m[i].released(false);
					count[i] = 0;
				}
				EV("toggle %lu takes %d: events %d %d", i, b, int(m[i].press), int(m[i].release));
				break;
			}
			case 3:
			case 4:
				EV("toggle %lu", i);
				ask(t[i], m[i], P(E01));
				break;
			case 5: {
				auto j = (i + 1 + choose(N - 1)) % N;
				EV("toggle %lu handed over to %lu", j, i);
				t[i].transfer_events(t[j]);
				m[i].take(m[j], true);
				check_level(t[j], m[j], P(E01));
				break;
			}
			case 6: {
				switch (choose(3)) {
					case 0:
						EV("toggle %lu: press registered", i);
						t[i].register_rising_edge();
						m[i].pressed(true);
						m[i].level = true;
						break;
					case 1:
						EV("toggle %lu: release registered", i);
						t[i].register_falling_edge();
						m[i].released(true);
						m[i].level = false;
						break;
					case 2: {
						bool b = choose(2);
						EV("toggle %lu set to %d", i, b);
						t[i].set_state_no_events(b ? pick({1u, 2u, 3u, 256u, 65536u, 0x80000000u}) : 0); // anything but zero is high
						m[i].level = b;
						break;
					}
				}
				break;
			}
			case 7:
				switch (choose(4)) {
					case 0:
						EV("toggle %lu cleared", i);
						t[i].clear_events();
						m[i].clear();
						break;
					case 1:
						EV("toggle %lu reset", i);
						probe(P_RESET);
						t[i].reset();
						m[i] = {};
						break;
					case 2: {
						auto j = (i + 1) % N;
						EV("toggle %lu copied to %lu", j, i);
						if constexpr (!Count) {
							t[i] = t[j];
							m[i] = m[j];
						}
						break;
					}
					case 3:
						if constexpr (Count) {
							EV("count %lu reset", i);
							t[i].reset_count();
							count[i] = 0;
						}
						break;
				}
				break;
		}
		check_level(t[i], m[i], P(E01));
		if constexpr (Count) {
			CHECK(t[i].steady_state_count() == count[i], P(E01), "wrong-count", "the steady count is %u instead of %lu", t[i].steady_state_count(), count[i]);
			probe(P_COUNT);
		}
	}
	for (int i = 0; i < N; i++)
		for (int k = 0; k < 4; k++)
			ask(t[i], m[i], P(E01));
	run_nontrivial = ticks > 3;
	sim_time(ticks);
}
template<unsigned R, unsigned Fa, unsigned M, bool B>
void debounce_both() {
	if (choose(2))
		debounce<Debouncer<R, Fa, M, B>, R, Fa, M, B>();
	else
		debounce<DebouncerCounter<R, Fa, M, B>, R, Fa, M, B>();
}
void run_E01() {
	switch (choose(15)) {
		case 0:
		case 1:
		case 2: { // defaults
			if (choose(2))
				return debounce<Debouncer<>, 1, 0xFFFFFFFE, 0xFFF, false>();
			return debounce<DebouncerCounter<>, 1, 0xFFFFFFFE, 0xFFF, false>();
		}
		case 3: return debounce_both<1, 0xFFFFFFFE, 0xFFF, true>();
		case 4: return debounce_both<1, 0xFE, 0xFF, false>();
		case 5: return debounce_both<0x00F, 0xFF0, 0xFFF, true>();
		case 6: return debounce_both<0x0FF, 0xF00, 0xFFF, false>();
		case 7: return debounce_both<1, 0xFFFFFFFE, 0xFFFFFFFF, false>();
		case 8: return debounce_both<0x3, 0x4, 0x7, true>();
		case 9: return debounce_both<0xFFFFFFFF, 0, 0xF, true>();
		case 10: return debounce_both<0x7FFF, 0x8000, 0xFFFF, true>();
		case 14: return debounce_both<0x1FFFF, 0x20000, 0x3FFFF, true>();
		case 11: return toggles<Toggler, false>();
		case 12: return toggles<TogglerCompact, false>();
		default: return toggles<TogglerCounter, true>();
	}
}

// ---------------------------------------------------------------- E02
template<bool Invert>
void shaft() {
	QuadratureEncoder<Invert> enc;
	using Enc = QuadratureEncoder<Invert>;
	// contact states of one turn by one detent, clockwise from the detent; a is bit 0
	static const u8 turn[4] = {0b11, 0b01, 0b00, 0b10};
	std::deque<u8> hist(4, Invert ? 0b11 : 0); // distinct states, as seen without inversion
	int64_t pos = 0; // quarter steps
	RotaryMotion acc, dest[2];
	int64_t m_acc = 0, m_acc_abs = 0, m_dest[2]{}, m_abs[2]{}, total = 0, read[3]{}, given[2]{};
	u64 ticks = 0;
	auto sample = [&](u8 s) -> int {
		step();
		ticks++;
		int want = 0;
		if (s != hist.back()) {
			hist.pop_front();
			hist.push_back(s);
			static const u8 cw[4] = {0b01, 0b00, 0b10, 0b11}, ccw[4] = {0b10, 0b00, 0b01, 0b11};
			want = std::equal(hist.begin(), hist.end(), cw) ? 1 : std::equal(hist.begin(), hist.end(), ccw) ? -1 : 0;
		}
		u8 raw = Invert ? s ^ 3 : s;
		int got = int(enc.get_motion(raw & 1, raw & 2));
		EV("contacts %d%d -> %d", raw & 1, raw >> 1, got);
		CHECK(got == want, P(E02), want ? "step-lost" : "bogus-step", "the decoder reported %d instead of %d", got, want);
		static_assert(Enc::CW == 1 && Enc::CCW == -1 && Enc::None == 0);
		if (got) {
			probe(got > 0 ? P_STEP_CW : P_STEP_CCW);
			acc.motion += want;
			acc.abs_pos += want;
			m_acc += want;
			m_acc_abs += want;
			total += want;
		}
		return want;
	};
	auto at = [&](int64_t p) { return turn[p & 3]; };
	if (choose(8) == 0) { // a long way was turned before
		int64_t far = int64_t(choose(2000001)) - 1000000;
		EV("%ld steps before", far);
		acc.motion += far, acc.abs_pos += far;
		m_acc += far, m_acc_abs += far, total += far;
	}
	auto hold = [&] {
		for (u64 n = choose(4); n--;)
			sample(at(pos));
	};
	auto check_all = [&] {
		CHECK(acc.motion == m_acc && acc.abs_pos == m_acc_abs, P(E02), "wrong-motion", "the source holds %d at %d instead of %ld at %ld", acc.motion, acc.abs_pos, m_acc, m_acc_abs);
		for (int i = 0; i < 2; i++)
			CHECK(dest[i].motion == m_dest[i] && dest[i].abs_pos == m_abs[i], P(E02), "wrong-motion", "accumulator %d holds %d at %d instead of %ld at %ld", i, dest[i].motion, dest[i].abs_pos, m_dest[i], m_abs[i]);
	};
	// to a detent first
	sample(at(pos));
	while (more(14)) {
		switch (choose(8)) {
			case 0:
			case 1: { // clean turn by whole detents: exactly as many steps
				int dir = choose(2) ? 1 : -1;
				int64_t n = 1 + choose(4);
				// back to the detent, where the last four states are no part of a step
				while (pos & 3)
					pos--, sample(at(pos));
				int sum = 0;
				for (int64_t k = 0; k < 4 * n; k++) {
					pos += dir;
					sum += sample(at(pos));
					hold();
				}
				CHECK(sum == dir * n, P(E02), "step-lost", "turning by %ld detents gave %d steps", dir * n, sum);
				probe(P_CLEAN);
				break;
			}
			case 2: { // contact bounce of the last transition
				fault(F_BOUNCE);
				for (u64 n = 1 + choose(6); n--;) {
					sample(at(pos - 1));
					sample(at(pos));
				}
				break;
			}
			case 3: { // bouncing turn
				fault(F_BOUNCE);
				int dir = choose(2) ? 1 : -1;
				for (u64 q = 1 + choose(9); q--;) {
					pos += dir;
					sample(at(pos));
					for (u64 n = choose(3); n--;) {
						sample(at(pos - dir));
						sample(at(pos));
					}
					hold();
				}
				break;
			}
			case 4: { // turned back half way
				fault(F_BACK);
				for (u64 n = 1 + choose(6); n--;) {
					pos += choose(2) ? 1 : -1;
					sample(at(pos));
					hold();
				}
				probe(P_HALF_STEP);
				break;
			}
			case 5: { // sampled too slowly: states are missed
				fault(F_MISSED);
				for (u64 n = 1 + choose(8); n--;) {
					pos += int64_t(choose(7)) - 3;
					sample(at(pos));
				}
				break;
			}
			case 6: { // garbage
				fault(F_NOISE);
				for (u64 n = 1 + choose(8); n--;)
					sample(choose(4));
				break;
			}
			case 7:
				fault(F_STALL);
				break;
		}
		// hand-overs and read-outs
		for (u64 n = choose(4); n--;) {
			auto i = choose(2);
			switch (choose(5)) {
				case 0:
					EV("%ld handed over to %lu", m_acc, i);
					dest[i].transfer_motion(acc);
					m_dest[i] += m_acc;
					m_abs[i] += m_acc;
					given[i] += m_acc;
					m_acc = 0;
					break;
				case 1: { // copied to both, then read out
					EV("%ld added to both", m_acc);
					for (int k = 0; k < 2; k++) {
						dest[k].add_motion(acc);
						m_dest[k] += m_acc;
						m_abs[k] += m_acc;
					}
					check_all();
					int got = acc.use_motion();
					CHECK(got == m_acc, P(E02), "wrong-motion", "%d read out instead of %ld", got, m_acc);
					m_acc = 0;
					break;
				}
				case 2: {
					int got = dest[i].use_motion();
					EV("%d read out of %lu", got, i);
					CHECK(got == m_dest[i], P(E02), "wrong-motion", "%d read out instead of %ld", got, m_dest[i]);
					read[i] += got;
					m_dest[i] = 0;
					probe(P_READ);
					break;
				}
				case 3: {
					int got = acc.use_motion();
					EV("%d read out of the source", got);
					CHECK(got == m_acc, P(E02), "wrong-motion", "%d read out instead of %ld", got, m_acc);
					read[2] += got;
					m_acc = 0;
					break;
				}
				case 4:
					EV("%ld handed over from %lu", m_dest[i], i);
					dest[!i].transfer_motion(dest[i]);
					m_dest[!i] += m_dest[i];
					m_abs[!i] += m_dest[i];
					m_dest[i] = 0;
					break;
			}
			check_all();
		}
	}
	CHECK(m_acc_abs == total, P(E02), "wrong-motion", "position %ld instead of %ld", m_acc_abs, total);
	run_nontrivial = ticks > 8;
	sim_time(ticks);
}

// ---------------------------------------------------------------- E03
void schmitt() {
	float lo, hi;
	bool dflt = choose(3) == 0;
	if (dflt)
		lo = 0.4f, hi = 0.6f;
	else {
		lo = (float(choose(2001)) - 1000.f) / 256.f;
		hi = lo + float(choose(400)) / 256.f;
	}
	cpputil::SchmittTrigger t = dflt ? cpputil::SchmittTrigger{} : cpputil::SchmittTrigger{lo, hi};
	cpputil::RisingSchmittTrigger r = dflt ? cpputil::RisingSchmittTrigger{} : cpputil::RisingSchmittTrigger{lo, hi};
	Events m;
	bool rl = false;
	float gate = 0.f, feedback = 0.f; // outputs kept by the caller
	// the gate without state: exact thresholds to within rounding
	auto check_gate = [&](float &out, float got, float v, const char *what) {
		double slack = 8 * double(std::numeric_limits<float>::epsilon()) * (std::fabs(double(lo)) + std::fabs(double(hi)));
		double x = v;
		CHECK(got == 0.f || got == 1.f, P(E03), "bogus-event", "the %s gives %.9g", what, double(got));
		if (out == 0.f) {
			if (x > hi + slack)
				CHECK(got == 1.f, P(E03), "event-lost", "the %s stays low at %.9g", what, x);
			if (x < hi - slack)
				CHECK(got == 0.f, P(E03), "bogus-event", "the %s goes high at %.9g", what, x);
		} else {
			if (x > lo + slack)
				CHECK(got == 1.f, P(E03), "bogus-event", "the %s goes low at %.9g", what, x);
			if (x < lo - slack)
				CHECK(got == 0.f, P(E03), "event-lost", "the %s stays high at %.9g", what, x);
		}
		out = got;
	};
	u64 ticks = 0, ups = 0, downs = 0;
	EV("thresholds %g %g", double(lo), double(hi));
	auto sample = [&](float v) {
		step();
		ticks++;
		t.process(v);
		bool got = r.update(v);
		bool want = false;
		if (!rl && v > hi)
			rl = want = true;
		else if (rl && v < lo)
			rl = false;
		CHECK(got == want, P(E03), want ? "event-lost" : "bogus-event", "the rising trigger gave %d instead of %d at %.9g", got, want, double(v));
		if (!m.level && v > hi) {
			m.pressed(true);
			m.level = true;
			ups++;
			probe(P_RISE);
		} else if (m.level && v < lo) {
			m.released(true);
			m.level = false;
			downs++;
			probe(P_FALL);
		} else if (v >= lo && v <= hi)
			probe(P_IN_BAND);
		if (v == lo || v == hi)
			probe(P_AT_THRESHOLD);
		EV("input %.9g: level %d", double(v), m.level);
		check_level(t, m, P(E03));
		check_gate(gate, MathTools::hysteresis_gate(lo, hi, gate, v), v, "gate");
		check_gate(feedback, MathTools::hysteresis_feedback(hi - lo, hi, feedback, v), v, "feedback gate");
	};
	auto value = [&]() -> float {
		switch (choose(8)) {
			case 0: return lo;
			case 1: return hi;
			case 2: return std::nextafter(hi, choose(2) ? 1e9f : -1e9f);
			case 3: return std::nextafter(lo, choose(2) ? 1e9f : -1e9f);
			case 4: return lo - float(choose(300)) / 64.f;
			case 5: return hi + float(choose(300)) / 64.f;
			case 6: return (choose(2) ? 1.f : -1.f) * std::numeric_limits<float>::infinity();
			default: return lo + (hi - lo) * float(choose(257)) / 256.f;
		}
	};
	while (more(16)) {
		switch (choose(5)) {
			case 0: // noise within the band
				fault(F_NOISE);
				for (u64 n = 1 + choose(20); n--;) {
					float v = lo + (hi - lo) * float(choose(257)) / 256.f;
					sample(std::clamp(v, lo, hi));
				}
				break;
			case 1:
				fault(F_SPIKE);
				sample(value());
				break;
			case 2: { // slow ramp with noise
				float v = value();
				if (std::isinf(v))
					v = hi;
				for (u64 n = 1 + choose(16); n--;) {
					v += (float(choose(33)) - 16.f) * (hi - lo + 0.01f) / 32.f;
					sample(v);
				}
				break;
			}
			default:
				for (u64 n = 1 + choose(6); n--;)
					sample(value());
				break;
		}
		if (choose(8) == 0)
			fault(F_STALL);
		else
			for (u64 n = choose(4); n--;)
				ask(t, m, P(E03));
		if (choose(20) == 0) {
			EV("reset");
			probe(P_RESET);
			t.reset();
			m = {};
		}
	}
	run_nontrivial = ups + downs > 0;
	sim_time(ticks);
}

// ---------------------------------------------------------------- E04
// a writing and a querying task, either of which may be starved
template<class Write, class Query>
void writer_and_reader(Write write, Query query) {
	u64 w = 0, q = 0;
	while (more(20)) {
		u64 n = choose(4);
		if (choose(10) == 0) {
			n = 0;
			fault(F_STARVED_W);
		}
		while (n--) {
			step();
			write();
			w++;
		}
		n = choose(3);
		if (choose(6) == 0) {
			n = 0;
			fault(F_STARVED_Q);
		}
		while (n--) {
			step();
			query();
			q++;
		}
	}
	query();
	query();
	run_nontrivial = w && q;
	sim_time(w + q);
}
void report(bool got, bool want) {
	EV("changed: %d", got);
	CHECK(got == want, P(E04), want ? "change-lost" : "bogus-change", "the query said %d instead of %d", got, want);
	probe(want ? P_CHANGED : P_UNCHANGED);
}
template<class T>
T small_value(u64 spread) { // on a grid on which differences are exact
	u64 v = choose(4) ? choose(spread) : choose(spread * 40);
	if constexpr (std::is_floating_point_v<T>)
		return T(v) / T(4096);
	else
		return T(v % (sizeof(T) == 1 ? 120 : 1000000));
}
template<class T>
T some_value() {
	T v = small_value<T>(choose(2) ? 3 : 12);
	if constexpr (std::is_signed_v<T> || std::is_floating_point_v<T>)
		if (choose(3) == 0)
			v = -v;
	return v;
}
template<class T, unsigned Num, unsigned Den>
void latched() {
	using L = LatchedParam<T, Num, Den>;
	L x, other;
	T val{0}, oval{0};
	bool ch = false, och = false;
	const double thr = double(Num) / Den;
	writer_and_reader(
		[&] {
			T v = some_value<T>();
			if (choose(3) == 0) { // around the threshold
				double d = double(val) + (choose(2) ? 1 : -1) * (thr + (double(choose(3)) - 1) * (std::is_floating_point_v<T> ? 1. / 4096 : 1.));
				if (d >= (std::is_signed_v<T> ? sizeof(T) > 1 ? -1e6 : -100 : 0) && d <= (sizeof(T) > 1 ? 1e6 : 120))
					v = T(d);
			}
			switch (choose(10)) {
				case 0:
					EV("assigned %g", double(v));
					x = v;
					val = v;
					break;
				case 1:
					if (choose(2)) {
						EV("copied");
						other = x;
						oval = val;
						och = ch;
					} else {
						EV("copied back");
						x = other;
						val = oval;
						ch = och;
					}
					break;
				default: {
					bool want = std::abs(double(v) - double(val)) >= thr;
					bool got = x.store_changed(v);
					EV("stored %g: %d", double(v), got);
					CHECK(got == want, P(E04), want ? "change-lost" : "bogus-change", "storing %g after %g said %d (threshold %g)", double(v), double(val), got, thr);
					if (want) {
						val = v;
						ch = true;
					} else if (v != val)
						probe(P_BELOW_THRESHOLD);
				}
			}
			CHECK(T(x) == val, P(E04), "wrong-value", "the value is %g instead of %g", double(T(x)), double(val));
		},
		[&] {
			report(x.did_change(), ch);
			ch = false;
			CHECK(T(x) == val, P(E04), "wrong-value", "the value is %g instead of %g", double(T(x)), double(val));
		});
}
template<class T>
void parameter() {
	T val{0};
	bool dflt = choose(2);
	if (!dflt)
		val = some_value<T>();
	Parameter<T> x = dflt ? Parameter<T>() : Parameter<T>(val);
	bool ch = true; // the initial value is news
	bool moved = false;
	T asked = val;
	writer_and_reader(
		[&] {
			T v = choose(3) ? some_value<T>() : choose(2) ? val : asked;
			EV("set to %g", double(v));
			if (choose(2))
				x.setValue(v);
			else
				x = v;
			if (v != val) {
				ch = true;
				moved = true;
			}
			val = v;
			CHECK(x.getValue() == val && T(x) == val, P(E04), "wrong-value", "the value is %g instead of %g", double(x.getValue()), double(val));
		},
		[&] {
			if (moved && val == asked)
				probe(P_BACK_TO_SAME);
			report(x.isChanged(), ch);
			ch = moved = false;
			asked = val;
			CHECK(x.getValue() == val && T(x) == val, P(E04), "wrong-value", "the value is %g instead of %g", double(x.getValue()), double(val));
		});
}
template<class T>
void ref_parameter() {
	T var = choose(2) ? T(0) : some_value<T>();
	RefParameter<T> x{var};
	T val = var, asked = 0;
	writer_and_reader(
		[&] {
			T v = choose(3) ? some_value<T>() : choose(2) ? val : asked;
			EV("set to %g", double(v));
			switch (choose(3)) {
				case 0: x.setValue(v); break;
				case 1: x = v; break;
				default: var = v; break;
			}
			val = v;
			CHECK(x.getValue() == val && T(x) == val && var == val, P(E04), "wrong-value", "the value is %g instead of %g", double(x.getValue()), double(val));
		},
		[&] {
			report(x.isChanged(), val != asked);
			asked = val;
			CHECK(x.getValue() == val && var == val, P(E04), "wrong-value", "the value is %g instead of %g", double(x.getValue()), double(val));
		});
}
void detectors() {
	ChangeDetector c;
	EdgeStateDetector e;
	RisingEdgeDetector r;
	FallingEdgeDetector f;
	bool now = false, before = false, ch = false;
	writer_and_reader(
		[&] {
			bool s = choose(2);
			EV("state %d", s);
			c.update(s);
			e.update(s);
			bool ru = r.update(s), fu = f.update(s);
			if (s != now)
				ch = true, probe(P_EDGE);
			CHECK(ru == (s && !now), P(E04), s && !now ? "change-lost" : "bogus-change", "rising edge %d, state %d after %d", ru, s, now);
			CHECK(fu == (!s && now), P(E04), !s && now ? "change-lost" : "bogus-change", "falling edge %d, state %d after %d", fu, s, now);
			before = now;
			now = s;
		},
		[&] {
			report(c.changed(), ch);
			ch = false;
			for (int k = 0; k < 2; k++) {
				CHECK(e.is_high() == now, P(E04), "wrong-value", "state %d instead of %d", e.is_high(), now);
			}
		});
	// the edge detector compares the last two states it was given
	EdgeStateDetector d;
	before = now = false;
	while (more(12)) {
		step();
		if (choose(12) == 0) {
			d.reset();
			before = now = false;
			EV("reset");
		} else {
			bool s = choose(2);
			d.update(s);
			before = now;
			now = s;
			EV("state %d", s);
		}
		for (u64 n = 1 + choose(2); n--;) {
			CHECK(d.changed() == (before != now), P(E04), before != now ? "change-lost" : "bogus-change", "changed %d, %d after %d", d.changed(), now, before);
			CHECK(d.went_high() == (!before && now), P(E04), "wrong-edge", "went high %d, %d after %d", d.went_high(), now, before);
			CHECK(d.went_low() == (before && !now), P(E04), "wrong-edge", "went low %d, %d after %d", d.went_low(), now, before);
			CHECK(d.staying_high() == (before && now), P(E04), "wrong-edge", "staying high %d, %d after %d", d.staying_high(), now, before);
			CHECK(d.staying_low() == (!before && !now), P(E04), "wrong-edge", "staying low %d, %d after %d", d.staying_low(), now, before);
			CHECK(d.is_high() == now, P(E04), "wrong-value", "state %d instead of %d", d.is_high(), now);
		}
	}
}
void run_E04() {
	switch (choose(14)) {
		case 0: return latched<float, 1, 4096>();
		case 1: return choose(4) ? latched<float, 1, 512>() : choose(2) ? latched<double, 70001, 70000>() : latched<int, 70000, 1>();
		case 2: return latched<int, 3, 1>();
		case 3: return latched<u8, 2, 1>();
		case 4: return latched<double, 3, 4096>();
		case 5: return latched<int, 1, 1>();
		case 6: return parameter<int>();
		case 7: return parameter<float>();
		case 8: return parameter<u8>();
		case 9: return parameter<bool>();
		case 10: return ref_parameter<int>();
		case 11: return ref_parameter<float>();
		case 12: return ref_parameter<uint16_t>();
		default: return detectors();
	}
}

void run() {
	switch (target_prop) {
		case E01: return run_E01();
		case E02: return choose(3) ? shaft<false>() : shaft<true>();
		case E03: return schmitt();
		default: return run_E04();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"input",
	{{"E01", 1500000, 90000000, "Each run draws a debouncer (pattern, window, level kind, counter) or a set of toggles, a contact that settles, bounces and glitches, and a loop that polls, stalls, hands events over and clears. Non-trivial: more samples than the window."},
	 {"E02", 2000000, 120000000, "Each run draws a shaft trajectory with clean turns, bounce, turning back, missed states and garbage, and hand-overs and read-outs between three accumulators. Non-trivial: more than 8 samples."},
	 {"E03", 2000000, 120000000, "Each run draws thresholds, inputs within, at, next to and beyond them, noise and spikes, polls and resets. Non-trivial: the level changed."},
	 {"E04", 8000000, 150000000, "Each run draws a kind of parameter or detector and the interleaving of a writer and a reader, either starved at times. Non-trivial: both ran."}},
	{"contact bounce", "glitch", "poll comes late", "states missed between samples", "shaft turned back half way", "noise", "spike", "writer starved", "reader starved"},
	{"press", "release", "older event replaced", "event handed over", "handed over where an older one waits", "both events handed over", "sample ignored", "steady count", "clockwise step", "counter-clockwise step", "half step", "clean turn", "motion read out", "input within the band", "rise", "fall", "input at a threshold", "change reported", "no change reported", "change below the threshold", "changed and changed back", "edge", "reset"},
	"complete event log (samples, events, hand-overs, queries)",
	"samples taken and operations",
	{"util/debouncer.hh", "util/debouncer_compact.hh", "util/quadrature_encoder.hh", "util/rotary_motion.hh", "util/schmitt_trigger.hh", "util/parameter.hh", "util/change_detector.hh", "util/edge_detector.hh", "util/math.hh hysteresis_gate, hysteresis_feedback"},
	{"contacts, shaft, analogue input and the sampling and polling tasks"},
	{"calls do not preempt each other", "debouncer masks are contiguous from bit 0 and samples are 0 or 1", "no NaN inputs"},
	run,
	400000};
}
