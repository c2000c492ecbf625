// F01..F03: filters, oversamplers and peak meters behind a glitching sensor
#include "core.hh"
#include "util/filter.hh"
#include "util/analyzed_signal.hh"

using namespace sim;
namespace
{
enum { F01, F02, F03 };
enum F { F_SPIKE, F_DROPOUT, F_SATURATION, F_STUCK, F_NOISE, F_STEP, F_RESIZE, F_RESET, F_COPY, F_STALL };
enum PR { P_MOVING, P_OVER, P_SMOOTH, P_RESIZING, P_NONE, P_CASCADE, P_HYST, P_QUAD, P_SIG, P_PEAK, P_RECOVERED, P_FLUSHED, P_CONVERGED, P_NEGATIVE, P_FULLSCALE };
using LD = long double;

// A sensor of the given range, with faults
struct Sensor {
	LD lo, hi;
	bool whole;
	LD level = 0, held = 0;
	int mode = 0; // 0 steady, 1 noise, 2 ramp, 3 stuck, 4 saturated, 5 dropout
	int left = 0;
	LD slope = 0, width = 0;
	bool glitched = false;

	LD any() {
		switch (choose(6)) {
			case 0:
				return lo;
			case 1:
				return hi;
			case 2:
				return fit(hi - LD(choose(4)));
			default:
				return fit(lo + (hi - lo) * LD(choose(1 << 24)) / LD((1 << 24) - 1));
		}
	}
	LD fit(LD x) {
		if (whole)
			x = std::round(x);
		return std::clamp(x, lo, hi);
	}
	LD read() {
		glitched = false;
		if (left == 0) {
			left = 1 + choose(40);
			mode = choose(6);
			switch (mode) {
				case 0:
					level = any();
					fault(F_STEP);
					break;
				case 1:
					width = (hi - lo) * LD(pick({0.001, 0.01, 0.1}));
					fault(F_NOISE);
					break;
				case 2:
					slope = (hi - lo) * (LD(choose(201)) - 100) / 1000;
					break;
				case 3:
					held = level;
					fault(F_STUCK);
					break;
				case 4:
					fault(F_SATURATION);
					break;
				default:
					fault(F_DROPOUT);
			}
		}
		left--;
		if (chance(1, 30)) {
			fault(F_SPIKE);
			glitched = true;
			return any();
		}
		switch (mode) {
			case 1:
				return fit(level + width * (LD(choose(2001)) - 1000) / 1000);
			case 2:
				return level = fit(level + slope);
			case 3:
				return held;
			case 4:
				glitched = true;
				return hi;
			case 5:
				glitched = true;
				return lo;
			default:
				return level;
		}
	}
};

// ---------------------------------------------------------------- F01: reference filters, driven through add/val
struct RefMoving {
	size_t n;
	std::deque<u64> w;
	u64 sum = 0;
	u64 add(u64 x) {
		w.push_back(x), sum += x;
		if (w.size() > n)
			sum -= w.front(), w.pop_front();
		return val();
	}
	u64 val() {
		return sum / n;
	}
};
struct RefOver {
	size_t n;
	std::vector<LD> block;
	LD v = 0;
	LD add(LD x) {
		block.push_back(x);
		if (block.size() >= n)
			flush(n);
		return v;
	}
	void flush(LD by) {
		LD s = 0;
		for (LD b : block)
			s += b;
		v = s / by;
		block.clear();
	}
};


// ops on one filter: readings arrive, the consumer looks at any time
template<size_t N, class T, unsigned Bits>
void moving() {
	probe(P_MOVING);
	MovingAverage<N, T, Bits> f;
	RefMoving m{N, {}};
	for (size_t i = 0; i < N; i++)
		m.w.push_back(0); // missing readings count as zero
	Sensor s{0, LD((u64(1) << Bits) - 1), true};
	EV("moving average of %lu readings of %u bits", u64(N), Bits);
	u64 clean = 0;
	if constexpr (N > 60000) { // a long time passes first
		u64 n = choose(3 * N);
		for (u64 i = 0; i < n; i++) {
			u64 x = (i * 2654435761u >> 9) & ((u64(1) << Bits) - 1), want = m.add(x), got = f.add_val(T(x));
			CHECK(got == want, P(F01), "wrong-average", "after reading %lu (number %lu) the moving average of %lu is %lu instead of %lu", x, i, u64(N), got, want);
		}
		EV("%lu readings", n);
	}
	while (more(std::min<u64>(3 * N, 4000) + 60)) {
		step();
		if (choose(4) == 0) {
			u64 v = f.val();
			CHECK(v == m.val(), P(F01), "wrong-average", "the moving average of %lu is %lu instead of %lu", u64(N), v, m.val());
			EV("look -> %lu", v);
			if (chance(1, 8)) {
				fault(F_COPY);
				auto g = f;
				f = g;
			}
			continue;
		}
		run_nontrivial = true;
		sim_time(1);
		u64 x = u64(s.read());
		if (x == (u64(1) << Bits) - 1)
			probe(P_FULLSCALE);
		clean = s.glitched ? 0 : clean + 1;
		if (clean == N)
			probe(P_RECOVERED);
		u64 want = m.add(x), got = f.add_val(T(x));
		EV("reading %lu -> %lu", x, got);
		CHECK(got == want, P(F01), "wrong-average", "after reading %lu the moving average of %lu is %lu instead of %lu", x, u64(N), got, want);
	}
}

template<class Filter, size_t N, class T, unsigned Bits, bool Fraction>
void over_of() {
	probe(Fraction ? P_SMOOTH : P_OVER);
	Filter f;
	RefOver m{N, {}};
	Sensor s{0, LD((u64(1) << Bits) - 1), true};
	EV("%s oversampler of %lu readings of %u bits", Fraction ? "smooth" : "whole", u64(N), Bits);
	u64 clean = 0;
	auto ok = [&](LD got) {
		LD want = Fraction ? m.v : std::floor(m.v);
		return Fraction ? std::abs(got - want) <= want * 0x1p-21L : got == want;
	};
	if constexpr (N > 60000) { // a long time passes first
		u64 n = choose(3 * N);
		for (u64 i = 0; i < n; i++) {
			u64 x = (i * 2654435761u >> 9) & ((u64(1) << Bits) - 1);
			m.add(x);
			LD got = f.add_val(T(x));
			CHECK(ok(got), P(F01), "wrong-average", "after reading %lu (number %lu) the oversampler gives %.7Lg instead of %.7Lg", x, i, got, m.v);
		}
		EV("%lu readings", n);
	}
	while (more(std::min<u64>(3 * N, 4000) + 60)) {
		step();
		if (choose(4) == 0) {
			LD v = f.val();
			CHECK(ok(v), P(F01), "wrong-average", "the oversampler's value is %.7Lg instead of %.7Lg", v, m.v);
			EV("look -> %.9g", double(v));
			if (chance(1, 8)) {
				fault(F_COPY);
				auto g = f;
				f = g;
			}
			continue;
		}
		run_nontrivial = true;
		sim_time(1);
		u64 x = u64(s.read());
		if (x == (u64(1) << Bits) - 1)
			probe(P_FULLSCALE);
		clean = s.glitched ? 0 : clean + 1;
		if (clean == N)
			probe(P_RECOVERED);
		m.add(x);
		LD got = f.add_val(T(x));
		EV("reading %lu -> %.9g", x, double(got));
		CHECK(ok(got), P(F01), "wrong-average", "after reading %lu (%lu of %lu in the block) the oversampler gives %.7Lg instead of %.7Lg", x, m.block.size(), u64(N), got, m.v);
	}
}

void resizing() {
	probe(P_RESIZING);
	unsigned n = chance(1, 4) ? 1 : 1 + choose(20);
	unsigned long_blocks = chance(1, 400) ? chance(1, 10) ? 70000 : 1500 : 0;
	if (long_blocks && choose(2))
		n = long_blocks > 1500 ? long_blocks - choose(4000) : 250 + choose(long_blocks);
	bool dflt = n == 1;
	ResizingOversampler first = dflt ? ResizingOversampler{} : ResizingOversampler{n}, second{1 + unsigned(choose(9))}, *f = &first;
	RefOver m{n, {}};
	LD hi = pick({1., 4095., 65535.});
	Sensor s{chance(1, 2) ? -hi : 0, hi, chance(1, 2)};
	if (s.lo < 0)
		probe(P_NEGATIVE);
	EV("resizing oversampler of %u readings", n);
	auto ok = [&](LD got) { return std::abs(got - m.v) <= hi * LD(m.n + 64) * 0x1p-23L; };
	auto soon = [&] { // a long time passes: a ramp of readings
		u64 k = choose(2) ? u64(m.n) + choose(100) : choose(2 * u64(m.n));
		EV("%lu readings", k);
		for (u64 i = 0; i < k; i++) {
			float x = float(hi * LD(i + 1) / LD(k));
			m.add(x);
			LD got = f->add_val(x);
			CHECK(ok(got), P(F01), "wrong-average", "after reading %.9g (number %lu, %lu of %lu in the block) the resizing oversampler gives %.9Lg instead of %.9Lg", x, i, m.block.size(), m.n, got, m.v);
		}
	};
	if (long_blocks)
		soon();
	while (more(100 + (long_blocks > 1500 ? 0 : 5 * long_blocks))) {
		step();
		switch (choose(8)) {
			case 0: {
				LD v = f->val();
				CHECK(ok(v), P(F01), "wrong-average", "the resizing oversampler's value is %.7Lg instead of %.7Lg", v, m.v);
				EV("look -> %.9g", double(v));
				break;
			}
			case 1: {
				if (!chance(1, long_blocks ? 80 : 3))
					break;
				fault(F_RESIZE);
				n = long_blocks > 1500 ? long_blocks - choose(4000) : long_blocks && choose(2) ? 250 + choose(long_blocks) : chance(1, 3) ? 1 + choose(3) : 1 + choose(60);
				f->set_size(n);
				if (m.block.size() >= n) {
					m.flush(m.block.size());
					probe(P_FLUSHED);
				}
				m.n = n;
				EV("size %u", n);
				if (long_blocks > 1500)
					soon();
				break;
			}
			case 2:
				if (chance(1, 4)) {
					fault(F_COPY);
					auto *g = f == &first ? &second : &first;
					if (chance(1, 2))
						*g = *f;
					else {
						ResizingOversampler tmp{*f};
						*g = tmp;
					}
					f->add_val(12345.f); // the original goes its own way
					f = g;
					EV("copied");
				} else if (chance(1, 6)) {
					fault(F_RESET);
					f->reset();
					m.block.clear();
					m.v = 0;
					EV("reset");
				}
				break;
			default: {
				run_nontrivial = true;
				sim_time(1);
				float x = float(s.read());
				m.add(x);
				LD got = f->add_val(x);
				EV("reading %.9g -> %.9g", x, double(got));
				CHECK(ok(got), P(F01), "wrong-average", "after reading %.9g (%lu of %lu in the block) the resizing oversampler gives %.9Lg instead of %.9Lg", x, m.block.size(), m.n, got, m.v);
			}
		}
	}
}

template<class T>
void none() {
	probe(P_NONE);
	NoFilter<T> f;
	T last = 0;
	Sensor s{0, 4095, !std::is_floating_point_v<T>};
	EV("no filter");
	while (more(30)) {
		step();
		if (choose(3) == 0) {
			T v = f.val();
			CHECK(v == last, P(F01), "wrong-average", "no filter changes the value: %g instead of %g", double(v), double(last));
			EV("look -> %.9g", double(v));
			continue;
		}
		run_nontrivial = true;
		sim_time(1);
		last = T(s.read());
		T got = f.add_val(last);
		EV("reading %.9g -> %.9g", double(last), double(got));
		CHECK(got == last, P(F01), "wrong-average", "no filter changes the value: %g instead of %g", double(got), double(last));
	}
}

template<template<unsigned, class, unsigned> class Filter, size_t N, class T, unsigned Bits, bool Fraction>
void over() {
	if constexpr (Bits == 12 && std::is_same_v<T, unsigned>)
		if (choose(2)) { // the type and width not given
			if constexpr (Fraction)
				return over_of<SmoothOversampler<N>, N, T, Bits, Fraction>();
			else
				return over_of<Oversampler<N>, N, T, Bits, Fraction>();
		}
	over_of<Filter<N, T, Bits>, N, T, Bits, Fraction>();
}

// readings go to the first filter, each look moves the first's value through the second
template<int Kind>
void cascade() {
	probe(P_CASCADE);
	std::conditional_t<Kind == 0, CascadingFilter<unsigned, Oversampler<8>, MovingAverage<4>>,
					   std::conditional_t<Kind == 1, CascadingFilter<unsigned, MovingAverage<8>, Oversampler<4>>, CascadingFilter<unsigned, NoFilter<>, MovingAverage<16>>>>
		f;
	RefMoving mv{Kind == 0 ? 4u : Kind == 1 ? 8u : 16u, {}};
	mv.w.assign(mv.n, 0);
	RefOver ov{Kind == 0 ? 8u : 4u, {}};
	u64 last = 0;
	Sensor s{0, 4095, true};
	EV("cascade %d", Kind);
	while (more(100)) {
		step();
		u64 burst = 1 + choose(chance(1, 4) ? 12 : 3);
		if (chance(1, 6))
			fault(F_STALL);
		if (choose(3) == 0) {
			u64 want = Kind == 0 ? mv.add(u64(std::floor(ov.v))) : Kind == 1 ? u64(std::floor(ov.add(mv.val()))) : mv.add(last);
			u64 got = f.val();
			EV("look -> %lu", got);
			CHECK(got == want, P(F01), "wrong-cascade", "looking at cascaded filters gives %lu instead of %lu", got, want);
			continue;
		}
		run_nontrivial = true;
		sim_time(burst);
		while (burst--) {
			u64 x = u64(s.read());
			u64 want = Kind == 0 ? u64(std::floor(ov.add(x))) : Kind == 1 ? mv.add(x) : (last = x);
			u64 got = f.add_val(x);
			EV("reading %lu -> %lu", x, got);
			CHECK(got == want, P(F01), "wrong-cascade", "the first of two cascaded filters gives %lu instead of %lu", got, want);
		}
	}
}

// ---------------------------------------------------------------- F02
template<size_t Num, size_t Div, class T>
void hyst() {
	probe(P_HYST);
	HysteresisFilter<Num, Div, T> f;
	constexpr LD band = LD(Num) / Div;
	Sensor s{std::is_same_v<T, int> || chance(1, 2) ? -4096.L : 0.L, 4096, std::is_same_v<T, int> || chance(1, 2)};
	LD y = 0;
	EV("hysteresis %lu/%lu", u64(Num), u64(Div));
	LD slack = std::is_same_v<T, int> ? 0 : 4096 * 0x1p-22L;
	while (more(60)) {
		step();
		T x = T(s.read());
		if (chance(1, 3)) { // noise around the output, up to the band
			fault(F_NOISE);
			LD d = band * (LD(choose(2001)) - 1000) / 1000;
			if (std::abs(d) > band * 0.999L && !std::is_same_v<T, int>)
				d *= 0.998L;
			x = T(y + (std::is_same_v<T, int> ? std::trunc(d) : d));
		}
		run_nontrivial = true;
		sim_time(1);
		LD d = LD(x) - y, want = y;
		if (d > band)
			want = LD(x) - band;
		else if (d < -band)
			want = LD(x) + band;
		T got = f.add_val(x);
		EV("reading %.9g -> %.9g", double(x), double(got));
		if (std::abs(d) <= band - (std::abs(d) + 4096) * 0x1p-23L || (std::is_same_v<T, int> && std::abs(d) <= band)) {
			CHECK(LD(got) == y, P(F02), "moved-by-noise", "an input %.7Lg from the output, within the band of %.7Lg, moved the output from %.7Lg to %.7Lg", d, band, y, LD(got));
		} else {
			CHECK(std::abs(LD(got) - want) <= slack, P(F02), "wrong-hysteresis", "input %.7Lg moved the output from %.7Lg to %.7Lg instead of %.7Lg", LD(x), y, LD(got), want);
		}
		CHECK(std::abs(LD(x) - LD(got)) <= band + slack, P(F02), "left-behind", "the output %.7Lg is further than the band from the input %.7Lg", LD(got), LD(x));
		y = got;
		if (choose(4) == 0)
			CHECK(f.val() == got, P(F02), "wrong-hysteresis", "the value changed without a reading");
		if (got < 0)
			probe(P_NEGATIVE);
	}
}

template<size_t Div, class Filter>
void quad_of(Filter &f, float start) {
	Sensor s{chance(1, 2) ? -LD(Div) / 2 : 0, LD(Div) / 2, chance(1, 2)};
	if (s.lo == 0 && start == 0)
		s.hi = Div;
	else if (s.lo == 0)
		s.lo = -LD(Div) / 2;
	LD y = start;
	u64 same = 0;
	float last = 0;
	EV("quadratic low pass %lu from %.9g", u64(Div), start);
	LD ulp = LD(Div) * 0x1p-23L;
	while (more(100)) {
		step();
		float x = float(s.read());
		u64 n = 1;
		if (chance(1, 10)) {
			fault(F_STUCK);
			n = 1 + choose(400);
		}
		sim_time(n);
		run_nontrivial = true;
		while (n--) {
			LD d = LD(x) - y, want = y + std::abs(d) * d / Div;
			float got = f.add_val(x);
			CHECK(std::abs(LD(got) - want) <= ulp + std::abs(d) * 0x1p-21L, P(F02), "wrong-low-pass", "input %.9g moved the output from %.9Lg to %.9g instead of %.9Lg", x, y, got, want);
			LD lo = std::min<LD>(x, y), hi = std::max<LD>(x, y);
			CHECK(LD(got) >= lo - ulp && LD(got) <= hi + ulp, P(F02), "overshoot", "input %.9g moved the output from %.9Lg to %.9g", x, y, got);
			same = x == last ? same + 1 : 1;
			last = x;
			y = got;
			LD bound = LD(Div) / same + std::sqrt(LD(Div) * ulp) * 2;
			CHECK(std::abs(LD(x) - y) <= bound, P(F02), "does-not-settle", "after %lu equal readings the output is %.7Lg away", same, std::abs(LD(x) - y));
			if (same == 100)
				probe(P_CONVERGED);
			if (y < 0)
				probe(P_NEGATIVE);
		}
		EV("reading %.9g -> %.9g", x, double(y));
		if (choose(4) == 0)
			CHECK(LD(f.val()) == y, P(F02), "wrong-low-pass", "the value changed without a reading");
	}
}
template<size_t Div>
void quad() {
	probe(P_QUAD);
	if (choose(3)) {
		QuadraticOnePoleLp<Div> f;
		return quad_of<Div>(f, 0);
	}
	float start = float(int(choose(2001)) - 1000) / 2000.f * float(Div);
	NonLinearOnePoleLp<float, TransferQuadratic<Div>> f{start};
	CHECK(f.val() == start, P(F02), "wrong-low-pass", "a filter starting at %.9g is at %.9g", start, f.val());
	quad_of<Div>(f, start);
}

// ---------------------------------------------------------------- F03
template<class Sig>
void signal(Sig a, LD coef) {
	probe(P_SIG);
	LD hi = pick({1., 5., 4095., 1e6});
	Sensor s{chance(1, 2) ? -hi : 0, hi, chance(1, 2)};
	bool below = chance(1, 4); // always negative
	if (below)
		s.hi = -hi / 8, s.lo = -hi;
	std::vector<LD> seen;
	LD iir = 0, base = 0, avg = 0;
	EV("signal with coefficient %.9g", double(coef));
	while (more(80)) {
		step();
		if (choose(12) == 0) {
			float v = float(s.any());
			fault(F_RESET);
			a.reset_to(v);
			seen.assign(1, v);
			iir = avg = base = v;
			EV("reset to %.9g", v);
		} else {
			float v = float(s.read());
			a.update(v);
			seen.push_back(v);
			sim_time(1);
			run_nontrivial = true;
			LD d = v - iir, want = iir + coef * d;
			CHECK(std::abs(a.iir - want) <= hi * 0x1p-21L, P(F03), "wrong-average", "reading %.9g moved the average from %.9Lg to %.9g instead of %.9Lg", v, iir, a.iir, want);
			iir = avg = a.iir;
			EV("reading %.9g: %.9g %.9g %.9g", v, a.min, a.max, a.iir);
		}
		CHECK(LD(a.iir) == iir && LD(a.avg) == avg, P(F03), "wrong-average", "the average is %.9g and %.9g instead of %.9Lg", a.iir, a.avg, iir);
		if (seen.empty())
			continue;
		LD mn = *std::min_element(seen.begin(), seen.end()), mx = *std::max_element(seen.begin(), seen.end());
		if (mx < 0)
			probe(P_NEGATIVE);
		CHECK(LD(a.min) == mn, P(F03), "wrong-minimum", "the minimum is %.9g instead of %.9Lg", a.min, mn);
		CHECK(LD(a.max) == mx, P(F03), "wrong-maximum", "the maximum is %.9g instead of %.9Lg", a.max, mx);
		LD l = std::min(mn, base), h = std::max(mx, base);
		CHECK(iir >= l - hi * 0x1p-20L / coef && iir <= h + hi * 0x1p-20L / coef, P(F03), "average-outside", "the average %.9Lg lies outside of the readings", iir);
	}
}

template<class T>
void peak() {
	probe(P_PEAK);
	PeakMeter<T> p;
	LD lo = std::is_floating_point_v<T> ? -1000 : LD(std::numeric_limits<T>::lowest()), hi = std::is_floating_point_v<T> ? 1000 : LD(std::numeric_limits<T>::max());
	Sensor s{lo, hi, !std::is_floating_point_v<T>};
	if (lo < 0 && chance(1, 3))
		s.hi = std::round(lo / 8);
	std::vector<T> seen;
	EV("peak meter of %lu bytes", u64(sizeof(T)));
	while (more(50)) {
		step();
		if (choose(12) == 0) {
			fault(F_RESET);
			p.reset();
			seen.clear();
			EV("reset");
		} else if (!seen.empty() || choose(6)) {
			T v = T(s.read());
			p.update(v);
			seen.push_back(v);
			sim_time(1);
			run_nontrivial = true;
			EV("reading %.9g: %.9g %.9g", double(v), double(p.min), double(p.max));
		}
		T mn = seen.empty() ? std::numeric_limits<T>::max() : *std::min_element(seen.begin(), seen.end());
		T mx = seen.empty() ? std::numeric_limits<T>::lowest() : *std::max_element(seen.begin(), seen.end());
		if (mx < 0)
			probe(P_NEGATIVE);
		CHECK(p.min == mn, P(F03), "wrong-minimum", "the minimum of %lu readings is %g instead of %g", seen.size(), double(p.min), double(mn));
		CHECK(p.max == mx, P(F03), "wrong-maximum", "the maximum of %lu readings is %g instead of %g", seen.size(), double(p.max), double(mx));
	}
}

void run() {
	if (target_prop == F02) {
		switch (choose(9)) {
			case 0:
				return hyst<1, 1, float>();
			case 1:
				return hyst<1, 64, float>();
			case 2:
				return hyst<40, 3, float>();
			case 3:
				return hyst<5, 1, int>();
			case 4:
				return hyst<300, 1, int>();
			case 5:
				return quad<4096>();
			case 6:
				return quad<1>();
			case 7:
				return quad<100>();
			default:
				return quad<65536>();
		}
	}
	if (target_prop == F03) {
		switch (choose(9)) {
			case 0: {
				float c = 1.f / (1 + choose(200));
				return signal(AnalyzedSig{c}, c);
			}
			case 1: {
				float c = float(1 + choose(1000)) / 1000.f;
				return signal(AnalyzedSig{c}, c);
			}
			case 2:
				return signal(AnalyzedSignal<1>{}, 1);
			case 3:
				return signal(AnalyzedSignal<1000>{}, 1.f / 1000.f);
			case 4:
				return peak<float>();
			case 5:
				return peak<int>();
			case 6:
				return peak<uint8_t>();
			case 7:
				return peak<int16_t>();
			default:
				return peak<double>();
		}
	}
	switch (choose(20000)) {
		case 0:
			return moving<131072, unsigned, 12>();
		case 1:
			return over<Oversampler, 131072, unsigned, 12, false>();
		case 2:
			return over<SmoothOversampler, 70000, unsigned, 14, true>();
	}
	switch (choose(4000)) {
		case 1:
			return moving<512, unsigned, 16>();
		case 2:
			return moving<1024, uint16_t, 12>();
		case 3:
			return over<Oversampler, 1024, unsigned, 12, false>();
		case 4:
			return over<SmoothOversampler, 300, uint16_t, 16, true>();
		case 5:
			return over<SmoothOversampler, 1000, unsigned, 12, true>();
	}
	switch (choose(20)) {
		case 0:
			return moving<16, unsigned, 12>();
		case 1:
			return moving<1, unsigned, 12>();
		case 2:
			return moving<256, uint16_t, 16>();
		case 3:
			return moving<4, uint8_t, 8>();
		case 4:
			return moving<64, unsigned, 26>();
		case 5:
			return moving<2, int, 12>();
		case 6:
			return over<Oversampler, 16, unsigned, 12, false>();
		case 7:
			return over<Oversampler, 1, unsigned, 12, false>();
		case 8:
			return over<Oversampler, 128, uint16_t, 16, false>();
		case 9:
			return over<Oversampler, 64, unsigned, 26, false>();
		case 10:
			return over<Oversampler, 4, uint8_t, 8, false>();
		case 11:
			return over<SmoothOversampler, 1, unsigned, 12, true>();
		case 12:
			return over<SmoothOversampler, 10, uint16_t, 16, true>();
		case 13:
			return over<SmoothOversampler, 7, unsigned, 12, true>();
		case 14:
			return over<SmoothOversampler, 64, unsigned, 26, true>();
		case 15:
			return chance(1, 4) ? none<unsigned>() : none<float>();
		case 16:
			return chance(1, 2) ? cascade<0>() : cascade<1>();
		case 17:
			return cascade<2>();
		default:
			return resizing();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"filter",
	{{"F01", 1000000, 80000000, "Each run draws a filter, its size and width, then readings of a sensor that steps, ramps, gets noisy, sticks, saturates, drops out and spikes, with looks at the value, copies, resizes and resets in between. Non-trivial: a reading arrived."},
	 {"F02", 1000000, 80000000, "Each run draws a band or a divisor, then readings of the glitching sensor and noise around the output. Non-trivial: a reading arrived."},
	 {"F03", 1000000, 80000000, "Each run draws a meter, then readings of the glitching sensor, often negative ones, and resets. Non-trivial: a reading arrived."}},
	{"spike", "dropout", "saturation", "stuck", "noise", "step", "resized", "reset", "copied", "consumer stalls"},
	{"moving average", "oversampler", "smooth oversampler", "resizing oversampler", "no filter", "cascade", "hysteresis", "quadratic low pass", "analyzed signal", "peak meter", "a window without glitches after one", "resizing ended a block", "a hundred equal readings", "negative values", "full-scale reading"},
	"complete event log (readings, outputs)",
	"readings",
	{"util/filter.hh", "util/analyzed_signal.hh", "util/math.hh"},
	{"the sensor"},
	{"readings within the declared width", "averages of floating-point readings up to single-precision rounding"},
	run,
	400000};
}
