// L01..L02: oscillators, down counters and LED animations over simulated update ticks
#include "core.hh"
#include "util/oscs.hh"
#include "util/rgbled.hh"
#include "util/math_tables.cc"

using namespace sim;
namespace
{
enum { L01, L02 };
enum F { F_FREQ, F_PHASE, F_STOP, F_RETRIGGER, F_BACKGROUND, F_SPEED, F_STALL };
enum PR { P_TRI, P_RAMP, P_SINE, P_DOWN, P_CYCLE, P_ENDED, P_FLASH, P_FADE, P_FLASH_END, P_BREATHE, P_CAL, P_DIRECT, P_LONG, P_SHORT, P_RESET_BREATHE };
using LD = long double;
constexpr LD TURN = 4294967296.0L;

LD wrap(LD x) {
	return x - std::floor(x);
}
LD tri(LD ph) {
	ph = wrap(ph);
	return ph < 0.5L ? 2 * ph : 2 - 2 * ph;
}
// distance on the circle
LD circ(LD a, LD b) {
	LD d = wrap(a - b);
	return std::min(d, 1 - d);
}

// The reference: phase in turns, and how far rounding may have moved the real one
struct Phase {
	LD ph = 0, err = 0, inc = 0, ierr = 0;
	void update() {
		ph = wrap(ph + inc);
		err += ierr;
	}
	void jump(u32 p) {
		ph = p / TURN;
		err = 0;
	}
	void freq(LD f, LD rate, bool single) {
		inc = f / rate;
		// the increment is a whole number, and so is that of one Hz
		ierr = (f + 2) / TURN + (single ? inc * 0x1p-21L : 0);
	}
};

template<int Rate>
u32 draw_freq() {
	switch (choose(4)) {
		case 0:
			return choose(4);
		case 1:
			return choose(Rate / 2 + 1);
		case 2:
			return Rate / 2 - choose(std::min(4, Rate / 2));
		default:
			return 1 + choose(std::min(Rate, 50));
	}
}
u32 draw_phase() {
	switch (choose(4)) {
		case 0:
			return 0;
		case 1:
			return u32(0x80000000u + choose(5) - 2);
		case 2:
			return u32(0 - choose(4));
		default:
			return u32(bits64());
	}
}

template<int Rate>
void triangle() {
	probe(P_TRI);
	bool dflt = choose(8) == 0; // no frequency given
	u32 f0 = dflt ? 0 : draw_freq<Rate>();
	TriangleOscillator<Rate> osc = dflt ? TriangleOscillator<Rate>{} : TriangleOscillator<Rate>{f0};
	Phase m;
	m.freq(f0, Rate, false);
	EV("triangle at %d updates per second, %lu Hz", Rate, u64(f0));
	LD run = 0;
	while (more(50)) {
		step();
		switch (choose(10)) {
			case 0: {
				u32 f = draw_freq<Rate>();
				fault(f ? F_FREQ : F_STOP);
				if (chance(1, 2))
					osc.set_frequency(f);
				else
					osc.set_frequency(int(f));
				m.freq(f, Rate, false);
				EV("frequency %lu", u64(f));
				break;
			}
			case 1: {
				float f = float(choose(Rate * 50 + 1)) / 100.f;
				fault(f ? F_FREQ : F_STOP);
				osc.set_frequency(f);
				m.freq(f, Rate, true);
				EV("frequency %a", f);
				break;
			}
			case 2: {
				u32 lo = (2000 + Rate - 1) / Rate;
				u32 ms = lo + (chance(1, 2) ? choose(2000) : choose(100000));
				fault(F_FREQ);
				osc.set_period_ms(ms);
				m.freq(1000.L / ms, Rate, false);
				EV("period %lu ms", u64(ms));
				break;
			}
			case 3: {
				u32 s = 1 + choose(choose(4) ? 1000 : 200000);
				if (Rate < 2)
					break;
				fault(F_FREQ);
				osc.set_period_sec(s);
				m.freq(1.L / s, Rate, false);
				EV("period %lu s", u64(s));
				break;
			}
			case 4: {
				u32 p = draw_phase();
				fault(F_PHASE);
				osc.set_phase(p);
				m.jump(p);
				EV("phase %lx", u64(p));
				break;
			}
			default: {
				u64 n = 1 + choose(chance(1, 4) ? 400 : 12);
				EV("%lu updates", n);
				sim_time(n);
				for (u64 i = 0; i < n; i++) {
					run_nontrivial = true;
					m.update();
					run += m.inc;
					u32 v;
					if (i + 1 == n && chance(1, 3)) {
						float x = osc.process_float();
						CHECK(x >= 0.f && x <= 1.f, P(L01), "range", "triangle gives %g", x);
						v = osc.val();
						CHECK(std::abs(LD(x) - v / TURN) < 1e-6L, P(L01), "wrong-value", "the triangle's fraction is %.9g, its value %.9Lg", x, v / TURN);
					} else if (i & 1) {
						osc.update();
						v = osc.val();
					} else
						v = osc.process();
					LD want = tri(m.ph), tol = 2 * m.err + 4 / TURN;
					CHECK(std::abs(v / TURN - want) <= tol, P(L01), "wrong-phase", "the triangle is at %.9Lg instead of %.9Lg", v / TURN, want);
				}
				u32 v = osc.val();
				CHECK(v == osc.val(), P(L01), "wrong-phase", "looking at the triangle changes it");
				EV("-> %lx", u64(v));
			}
		}
	}
	if (run >= 1)
		probe(P_CYCLE);
}

template<int Rate, bool Sine>
void accum() {
	probe(Sine ? P_SINE : P_RAMP);
	bool dflt = choose(8) == 0; // no frequency given
	u32 f0 = dflt ? 0 : draw_freq<Rate>();
	using Osc = std::conditional_t<Sine, SineOscillator<Rate>, RampOscillator<Rate>>;
	Osc osc = dflt ? Osc{} : Osc{f0};
	Phase m;
	m.freq(f0, Rate, false);
	EV("%s at %d updates per second, %lu Hz", Sine ? "sine" : "ramp", Rate, u64(f0));
	LD run = 0;
	while (more(50)) {
		step();
		switch (choose(8)) {
			case 0: {
				u32 f = draw_freq<Rate>();
				fault(f ? F_FREQ : F_STOP);
				osc.set_frequency(f);
				m.freq(f, Rate, false);
				EV("frequency %lu", u64(f));
				break;
			}
			case 1: {
				u32 p = draw_phase();
				fault(F_PHASE);
				osc.set_phase(p);
				m.jump(p);
				EV("phase %lx", u64(p));
				break;
			}
			default: {
				u64 n = 1 + choose(chance(1, 4) ? 400 : 12);
				EV("%lu updates", n);
				sim_time(n);
				for (u64 i = 0; i < n; i++) {
					run_nontrivial = true;
					m.update();
					run += m.inc;
					if constexpr (Sine) {
						LD want = std::sin(2 * 3.14159265358979323846264L * m.ph);
						LD tol = 6.3L * m.err + 1e-5L, got;
						switch (i % 4) {
							case 0: {
								float x = osc.process_bipolar();
								CHECK(x >= -1.f && x <= 1.f, P(L01), "range", "sine gives %g", x);
								got = x;
								break;
							}
							case 1: {
								float x = osc.process_unipolar();
								CHECK(x >= 0.f && x <= 1.f, P(L01), "range", "unipolar sine gives %g", x);
								got = x * 2.L - 1;
								break;
							}
							case 2:
								got = (n & 1 ? osc.process() : osc.val()) / TURN * 2 - 1;
								break;
							default:
								osc.update(); // skips one output
								m.update();
								want = std::sin(2 * 3.14159265358979323846264L * m.ph);
								tol = 6.3L * (m.err + m.ierr) + 1e-5L;
								m.update();
								want = std::sin(2 * 3.14159265358979323846264L * m.ph);
								osc.update();
								got = osc.process_bipolar();
						}
						CHECK(std::abs(got - want) <= tol, P(L01), "wrong-phase", "the sine is %.9Lg instead of %.9Lg", got, want);
					} else {
						u32 v;
						if (i % 3 == 0)
							v = n & 1 ? osc.process() : osc.Process();
						else if (i % 3 == 1) {
							float x = osc.process_float();
							CHECK(x >= 0.f && x <= 1.f, P(L01), "range", "ramp gives %g", x);
							v = osc.val();
							CHECK(std::abs(LD(x) - v / TURN) < 1e-6L, P(L01), "wrong-value", "the ramp's fraction is %.9g, its value %.9Lg", x, v / TURN);
						} else {
							osc.update();
							v = osc.val();
						}
						CHECK(circ(v / TURN, m.ph) <= m.err + 2 / TURN, P(L01), "wrong-phase", "the ramp is at %.9Lg instead of %.9Lg", v / TURN, m.ph);
					}
				}
			}
		}
	}
	if (run >= 1)
		probe(P_CYCLE);
}

template<int Rate>
void down() {
	probe(P_DOWN);
	DownCounter<Rate> c;
	LD left = 1, err = 0, dec = 1, derr = 0;
	bool set = false;
	EV("down counter at %d updates per second", Rate);
	while (more(50)) {
		step();
		switch (choose(9)) {
			case 0: {
				u32 f = draw_freq<Rate>();
				fault(f ? F_FREQ : F_STOP);
				c.set_frequency(f);
				dec = f ? LD(f) / Rate : 1; // without a frequency it ends at once
				derr = f ? (f + 2) / TURN : 0;
				set = true;
				EV("frequency %lu", u64(f));
				break;
			}
			case 1:
			case 2: {
				u32 ms = choose(4) ? choose(3000) : choose(100000);
				fault(F_FREQ);
				c.set_period_ms(ms);
				dec = ms ? 1000.L / ms / Rate : 1;
				if (dec > 1)
					dec = 1;
				derr = ((ms ? 1000.L / ms : 0) + 2) / TURN + dec * 0x1p-21L;
				set = true;
				EV("period %lu ms", u64(ms));
				break;
			}
			case 3:
				if (left > 0)
					fault(F_RETRIGGER);
				c.reset();
				left = 1;
				err = 1 / TURN;
				EV("reset");
				CHECK(c.val() == 0xffffffffu, P(L01), "not-reset", "a down counter just reset is at %x", c.val());
				break;
			case 4: {
				u32 p = draw_phase();
				fault(F_PHASE);
				c.set_phase(p);
				left = p / TURN;
				err = 1 / TURN;
				EV("phase %lx", u64(p));
				break;
			}
			default: {
				if (!set) // no speed given yet: it ends at once
					derr = 0;
				u64 n = 1 + choose(chance(1, 4) ? 400 : 12);
				EV("%lu updates", n);
				sim_time(n);
				for (u64 i = 0; i < n; i++) {
					run_nontrivial = true;
					u32 before = c.val();
					c.update();
					u32 v = c.val();
					CHECK(v <= before, P(L01), "counts-up", "the down counter went from %x to %x", before, v);
					bool was = left > 0;
					left -= dec;
					err += derr;
					if (left <= -err - 2 / TURN) {
						left = 0;
						err = 0;
						if (was)
							probe(P_ENDED);
						CHECK(v == 0, P(L01), "too-long", "the down counter is at %.9Lg after its period", v / TURN);
					}
					LD want = std::max(left, 0.L);
					CHECK(std::abs(v / TURN - want) <= err + 3 / TURN, P(L01), "wrong-phase", "the down counter is at %.9Lg instead of %.9Lg", v / TURN, want);
					if (v == 0)
						left = 0, err = 0;
				}
			}
		}
	}
}

// ---------------------------------------------------------------- L02
struct Lamp {
	int *out;
	void set(uint8_t v) const {
		*out = v;
	}
};
struct LampB : Lamp {};

struct RGB {
	LD c[3];
	LD tol[3]{};
};
Color draw_color() {
	u8 c[3];
	for (auto &x : c)
		x = chance(1, 2) ? pick({0, 255, 127, 128, 1, 254}) : choose(256);
	return Color(c[0], c[1], c[2]);
}
RGB rgb(Color c) {
	return {{LD(c.red()), LD(c.green()), LD(c.blue())}, {}};
}
RGB mix_rgb(RGB a, RGB b, LD f, LD ftol) {
	RGB r;
	for (int i = 0; i < 3; i++) {
		r.c[i] = a.c[i] + (b.c[i] - a.c[i]) * f;
		r.tol[i] = std::max(a.tol[i], b.tol[i]) + 2 + std::abs(b.c[i] - a.c[i]) * ftol;
	}
	return r;
}

template<int Rate>
void led() {
	int out[3] = {-1, -1, -1};
	MixedRgbLed<Lamp, LampB, Lamp, Rate> l{Lamp{&out[0]}, LampB{{&out[1]}}, Lamp{&out[2]}};
	RGB bg = rgb(Colors::off), fl{}, br{};
	bool smooth = false, flashing = false, breathing = false;
	LD k = 0, ms = 0;
	Phase fader;
	LD adj[3] = {1, 1, 1};
	EV("LED at %d updates per second", Rate);

	auto matches = [&](RGB w, RGB const *alt) {
		for (int i = 0; i < 3; i++) {
			LD v = std::min(255.L, w.c[i] * adj[i]);
			if (std::abs(out[i] - v) > w.tol[i] * std::max(1.L, adj[i]) + 1.01L)
				return false;
		}
		(void)alt;
		return true;
	};
	auto update = [&] {
		l.update_animation();
		sim_time(1);
		run_nontrivial = true;
		fader.update();
		for (int i = 0; i < 3; i++)
			CHECK(out[i] >= 0, P(L02), "not-driven", "an update did not drive component %d", i);
		// the flash, to within one update and one millisecond
		bool may_flash = false, must_flash = false;
		LD frac = 0, ftol = 0;
		if (flashing) {
			k++;
			LD t = k * 1000 / Rate; // time since the start
			LD slack = 1000.L / Rate + 1 + ms * 1e-5L;
			must_flash = t < ms - slack;
			may_flash = t < ms + slack;
			if (!may_flash) {
				flashing = false;
				probe(P_FLASH_END);
			}
			frac = ms > 0 ? std::max(0.L, 1 - t / ms) : 0;
			ftol = ms > 0 ? std::min(1.L, slack / ms) : 1;
		}
		RGB rest = bg;
		if (breathing)
			rest = mix_rgb(bg, br, tri(fader.ph), 2 * fader.err + 1e-6L);
		RGB f = smooth ? mix_rgb(bg, fl, frac, ftol) : fl;
		bool ok;
		if (must_flash)
			ok = matches(f, nullptr);
		else if (may_flash)
			ok = matches(f, nullptr) || matches(rest, nullptr);
		else
			ok = matches(rest, nullptr);
		EV("-> %d %d %d", out[0], out[1], out[2]);
		CHECK(ok, P(L02), must_flash ? (smooth ? "wrong-fade" : "flash-missing") : may_flash ? "wrong-colour" : breathing ? "wrong-breath" : "flash-too-long",
			  "the LED shows %d %d %d, %.1Lf ms after the start of %s of %.1Lf ms", out[0], out[1], out[2], k * 1000 / Rate, smooth ? "a fade" : "a flash", ms);
		out[0] = out[1] = out[2] = -1;
	};

	while (more(60)) {
		step();
		switch (choose(14)) {
			case 0: {
				Color c = draw_color();
				if (flashing)
					fault(F_BACKGROUND);
				l.set_base_color(c);
				bg = rgb(c);
				EV("background %d %d %d", c.red(), c.green(), c.blue());
				break;
			}
			case 1: {
				Color c = draw_color();
				if (flashing)
					fault(F_BACKGROUND);
				l.blend_base_color(c);
				RGB n = rgb(c);
				for (int i = 0; i < 3; i++) {
					bg.c[i] = (bg.c[i] + n.c[i]) / 2;
					bg.tol[i] = bg.tol[i] / 2 + 1;
				}
				EV("background blended with %d %d %d", c.red(), c.green(), c.blue());
				break;
			}
			case 2: {
				u8 a[3];
				for (int i = 0; i < 3; i++)
					a[i] = choose(std::max(1, int(256 - bg.c[i] - bg.tol[i])));
				l.add_base_color(Color(a[0], a[1], a[2]));
				for (int i = 0; i < 3; i++)
					bg.c[i] += a[i];
				EV("background plus %d %d %d", a[0], a[1], a[2]);
				break;
			}
			case 3:
			case 4: {
				Color c = draw_color();
				float m = pick({0, 1, 5, 20, 100, 250, 500, 999, 1000, 1001, 1500, 2000, 3000, 700, 333});
				if (chance(1, 3))
					m = choose(4000) + (chance(1, 2) ? 0.5f : 0.f);
				if (flashing)
					fault(F_RETRIGGER);
				smooth = chance(1, 2);
				probe(smooth ? P_FADE : P_FLASH);
				if (m > 1000)
					probe(P_LONG);
				if (m * Rate < 1000)
					probe(P_SHORT);
				if (smooth)
					l.fade_once_ms(c, m);
				else
					l.flash_once_ms(c, m);
				fl = rgb(c);
				ms = m;
				k = 0;
				flashing = true;
				EV("%s %d %d %d for %a ms", smooth ? "fade" : "flash", c.red(), c.green(), c.blue(), m);
				break;
			}
			case 5: {
				Color c = draw_color();
				float f = float(choose(Rate * 25 + 1)) / 100.f;
				if (chance(1, 2))
					f = float(choose(300)) / 100.f;
				if (f > Rate / 2)
					f = Rate / 2;
				if (breathing)
					fault(F_SPEED);
				l.breathe(c, f);
				br = rgb(c);
				breathing = true;
				fader.freq(f, Rate, true);
				EV("breathe %d %d %d at %a Hz", c.red(), c.green(), c.blue(), f);
				probe(P_BREATHE);
				break;
			}
			case 6:
				l.reset_breathe();
				fader.jump(0);
				fader.freq(0, Rate, false);
				fader.ierr = 0;
				breathing = false;
				EV("stop breathing");
				probe(P_RESET_BREATHE);
				break;
			case 7: {
				Color::Adjustment a{u8(choose(256)), u8(choose(256)), u8(choose(256))};
				if (chance(1, 2))
					a = {128, 128, 128};
				l.set_color_calibration(a);
				adj[0] = a.r / 128.L;
				adj[1] = a.g / 128.L;
				adj[2] = a.b / 128.L;
				EV("calibrated %d %d %d", a.r, a.g, a.b);
				probe(P_CAL);
				break;
			}
			case 8: {
				Color c = draw_color();
				u8 b = choose(256);
				float bf = choose(257) / 256.f;
				LD want;
				int how = choose(3);
				if (how == 0)
					l.set_color(c), want = 1;
				else if (how == 1)
					l.set_color(c, b), want = b / 256.L;
				else
					l.set_color(c, bf), want = bf;
				RGB w = rgb(c);
				EV("directly %d %d %d (%d) -> %d %d %d", c.red(), c.green(), c.blue(), how, out[0], out[1], out[2]);
				for (int i = 0; i < 3; i++)
					CHECK(std::abs(out[i] - w.c[i] * want) <= (how ? 1.01L : 0), P(L02), "wrong-direct-colour", "component %d of a directly set colour is %d instead of %.2Lf", i, out[i], w.c[i] * want);
				out[0] = out[1] = out[2] = -1;
				probe(P_DIRECT);
				break;
			}
			default: {
				u64 n = 1 + choose(10);
				if (chance(1, 3) && flashing)
					n = u64(ms * Rate / 1000) + choose(8); // about to its end
				else if (chance(1, 6))
					n = choose(300);
				n = std::min<u64>(n, 3000);
				if (chance(1, 4))
					fault(F_STALL);
				EV("%lu updates", n);
				while (n--)
					update();
			}
		}
	}
}

void run() {
	if (target_prop == L02) {
		switch (choose(3)) {
			case 0:
				return led<1000>();
			case 1:
				return led<60>();
			default:
				return led<200>();
		}
	}
	switch (choose(13)) {
		case 0:
			return triangle<1000>();
		case 1:
			return triangle<48000>();
		case 2:
			return triangle<7>();
		case 3:
			return accum<1000, false>();
		case 4:
			return accum<48000, false>();
		case 5:
			return accum<13, false>();
		case 6:
			return accum<1000, true>();
		case 7:
			return accum<48000, true>();
		case 8:
			return accum<13, true>();
		case 9:
			return down<1000>();
		case 10:
			return down<48000>();
		case 11:
			return down<25>();
		case 12:
			switch (choose(4)) { // frequencies beyond 16 bits
				case 0:
					return triangle<400000>();
				case 1:
					return accum<400000, false>();
				case 2:
					return accum<400000, true>();
				default:
					return down<400000>();
			}
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"led",
	{{"L01", 200000, 8000000, "Each run draws a waveform (triangle, ramp, sine, down counter), its update rate and frequency, then updates, frequency and period changes, phase jumps, stops and restarts at any moment. Non-trivial: it was updated."},
	 {"L02", 60000, 2500000, "Each run draws the update rate, then flashes, fades, breathing, background and calibration changes and updates at any moment, many of them while an animation runs. Non-trivial: the LED was updated."}},
	{"frequency or period changes in mid-cycle", "phase jumps", "oscillator stopped", "restarted before its end", "background changes during a flash", "breathing changes in mid-cycle", "updates pause"},
	{"triangle", "ramp", "sine", "down counter", "ran for more than a cycle", "down counter reached its end", "flash", "fade", "flash ended", "breathing", "calibrated", "colour set directly", "flash longer than a second", "flash shorter than an update", "breathing stopped"},
	"complete event log (requests, updates, outputs)",
	"updates",
	{"util/oscs.hh", "util/rgbled.hh", "util/colors.hh", "util/math_tables.cc", "util/interp_array.hh"},
	{"the update clock", "LED drivers"},
	{"oscillator frequencies up to half the update rate", "a flash may be one update and one millisecond shorter or longer"},
	run,
	400000};
}
