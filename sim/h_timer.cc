// T01..T03: PollEvent, PollChange and OneShot under simulated clocks: jitter, stalls, overflow, forced polls, rate changes
#include "core.hh"
#include "util/poll_event.hh"
#include "util/poll_change.hh"
#include "util/oscs.hh"

using namespace sim;
namespace
{
enum { T01, T02, T03 };
enum F { F_STALL, F_OVERFLOW, F_BACK, F_FORCE, F_LATE, F_RATE };
enum PR { P_FIRED, P_WAITED, P_EXACT, P_ACROSS, P_LOOKED, P_SKIPPED, P_CHANGED, P_CHANGE_MISSED, P_RESET, P_PULSE, P_RESTART, P_STOP, P_LONG, P_ZERO };

// ---------------------------------------------------------------- T01
template<class TT>
void event_int() {
	using U = std::make_unsigned_t<TT>;
	const u64 range = U(~U(0)); // full clock range - 1
	const u64 pmax = std::numeric_limits<TT>::max();
	u64 period;
	switch (choose(6)) {
		case 0:
			period = 1 + choose(16);
			break;
		case 1:
			period = 1 + choose(pmax);
			break;
		case 2:
			period = pmax - choose(8);
			break;
		case 3:
			period = choose(3);
			break;
		case 4:
			period = pmax / 2 + choose(9) - 4;
			break;
		default:
			period = 10 + choose(100);
	}
	if (period > pmax)
		period = pmax;
	PollEvent<TT> ev{TT(period)};
	u64 now = 0, last = 0; // true time, any number of clock ranges
	EV("clock of %lu bits, signed %d, period %lu", sizeof(TT) * 8, std::is_signed_v<TT>, period);
	u64 polls = 4 + choose(30);
	while (polls-- && more(60)) {
		step();
		// the latest moment at which a poll still tells the elapsed time from a full clock range less
		u64 room = range - (now - last); // how much may pass
		u64 d;
		u64 dl = last + period;
		switch (choose(8)) {
			case 0: // exactly at the deadline or next to it
			case 1: {
				__int128 t = (__int128)dl + (int)choose(5) - 2;
				d = t > now ? u64(t - now) : choose(3);
				break;
			}
			case 2: // just after the clock overflows
			case 3: {
				u64 nw = (range + 1 != 0) ? ((now / (range + 1)) + 1) * (range + 1) : 0 - now; // distance below for 64 bits
				d = (range + 1 != 0) ? nw - now : 0 - now;
				d += choose(4);
				if (choose(2) && d > 4)
					d -= 4;
				break;
			}
			case 4:
				d = choose(room ? room : 1);
				fault(F_STALL);
				break;
			case 5:
				d = room - choose(std::min<u64>(room + 1, 4));
				fault(F_STALL);
				break;
			case 6:
				d = choose(2 * period + 2);
				break;
			default:
				d = choose(4);
		}
		if (d > room)
			d = room;
		u64 before = now;
		now += d;
		u64 elapsed = now - last;
		bool want = elapsed >= period;
		int fired = 0;
		ev.poll(TT(now), [&] { fired++; });
		EV("poll at %lx (clock %lx), %lx after the last firing -> %d", now, u64(U(now)), elapsed, fired);
		CHECK(fired <= 1, P(T01), "fired-twice", "one poll fired %d times", fired);
		CHECK((fired == 1) == want, P(T01), want ? "missed" : "too-early", "%lu ticks after the last firing (period %lu) the event %s", elapsed, period, fired ? "fired" : "did not fire");
		if (U(now) < U(before)) {
			fault(F_OVERFLOW);
			if (last + period <= now && U(last + period) > U(now))
				probe(P_ACROSS);
		}
		if (elapsed == period)
			probe(P_EXACT);
		if (fired) {
			probe(P_FIRED);
			run_nontrivial = true;
		} else
			probe(P_WAITED);
		if (want)
			last = now;
		sim_time(d > (1ull << 40) ? 0 : d);
	}
}

template<class TT>
void event_float() {
	TT period = TT(1 + choose(1000)) / TT(pick({1, 4, 8}));
	PollEvent<TT> ev{period};
	TT now = 0, last = 0;
	EV("floating-point clock, period %g", double(period));
	u64 polls = 4 + choose(30);
	while (polls-- && more(60)) {
		step();
		TT d = TT(choose(4096)) / 8;
		switch (choose(4)) {
			case 0:
				now = last + period;
				break;
			case 1:
				now += d;
				break;
			case 2:
				now += TT(choose(16)) / 8;
				break;
			case 3:
				now -= d;
				fault(F_BACK);
				break;
		}
		bool want = now - last >= period;
		int fired = 0;
		ev.poll(now, [&] { fired++; });
		EV("poll at %g -> %d", double(now), fired);
		CHECK(fired == want, P(T01), want ? "missed" : "too-early", "%g after the last firing (period %g) the event fired %d times", double(now - last), double(period), fired);
		if (want)
			last = now;
		run_nontrivial = true;
	}
}

// ---------------------------------------------------------------- T02
void change() {
	static const u32 ticks[] = {1, 2, 5, 10, 100, 1000, 65536, 1u << 31, 0xFFFFFFF0u, 0};
	u32 interval = ticks[choose(std::size(ticks))];
	PollChange pc{interval};
	u64 now = 0;
	switch (choose(4)) {
		case 0:
			break;
		case 1:
			now = choose(20);
			break;
		case 2:
			now = 0xFFFFFFFFull - choose(40);
			break;
		case 3:
			now = u32(bits64());
			break;
	}
	u32 last = 0;
	bool forced = false, seen = false, report = false;
	bool input = choose(2);
	bool deferred_only = choose(2);
	EV("interval %u, clock starts at %lx", interval, now);
	while (more(40)) {
		step();
		switch (choose(10)) {
			case 0:
			case 1:
			case 2:
			case 3:
			case 4: {
				u32 toward = interval - u32(u32(now) - last);
				u64 d;
				switch (choose(6)) {
					case 0:
						d = toward;
						break;
					case 1:
						d = toward ? toward - 1 : 0;
						break;
					case 2:
						d = choose(3);
						break;
					case 3:
						d = choose(u64(interval) * 2 + 2);
						fault(F_STALL);
						break;
					case 4:
						d = u32(0 - u32(now)) + choose(3);
						break;
					default:
						d = bits64() & 0xFFFFFFFF;
						fault(F_LATE);
				}
				if (u32(now + d) < u32(now))
					fault(F_OVERFLOW);
				now += d;
				sim_time(d);
				bool want = forced || u32(u32(now) - last) >= interval;
				int calls = 0;
				if (deferred_only || choose(2)) {
					pc.poll(u32(now), [&] {
						calls++;
						return input;
					});
					EV("poll(%x, function), input %d -> %d looks", u32(now), input, calls);
					CHECK(calls == want, P(T02), want ? "not-looked" : "looked-early", "%u ticks after the last look (interval %u%s) the input was looked at %d times", u32(u32(now) - last), interval, forced ? ", forced" : "", calls);
				} else {
					pc.poll(u32(now), input);
					EV("poll(%x, %d)", u32(now), input);
				}
				if (want) {
					probe(P_LOOKED);
					last = u32(now);
					forced = false;
					if (input != seen) {
						seen = input;
						report = true;
						run_nontrivial = true;
					}
				} else {
					probe(P_SKIPPED);
					if (input != seen)
						probe(P_CHANGE_MISSED);
				}
				break;
			}
			case 5:
			case 6:
				input = !input;
				EV("input becomes %d", input);
				break;
			case 7:
				pc.force_next_poll();
				forced = true;
				fault(F_FORCE);
				EV("force_next_poll %d", 0);
				break;
			case 8:
				if (choose(3) == 0) {
					pc.reset();
					report = true;
					probe(P_RESET);
					EV("reset %d", 0);
				}
				[[fallthrough]];
			case 9: {
				bool r = pc.take_change();
				EV("take_change -> %d", r);
				CHECK(r == report, P(T02), report ? "change-lost" : "change-invented", "take_change() is %d", r);
				if (report)
					probe(P_CHANGED);
				report = false;
				break;
			}
		}
	}
	bool r = pc.take_change();
	CHECK(r == report, P(T02), report ? "change-lost" : "change-invented", "take_change() is %d", r);
	CHECK(!pc.take_change(), P(T02), "change-repeated", "a change was reported twice");
}

// ---------------------------------------------------------------- T03
void oneshot() {
	static const float rates[] = {48000.f, 1000.f, 100.f, 44100.f, 1.f, 192000.f, 7.3f, 12345.6f, 0.5f, 0.1f, 0.03f};
	auto draw_rate = [] { return choose(3) ? rates[choose(std::size(rates))] : 1.f + float(choose(100000)) * 0.37f; };
	float rate = draw_rate();
	bool dflt = choose(6) == 0;
	OneShot os = dflt ? OneShot{} : OneShot{rate};
	if (dflt)
		rate = 48000.f;
	double left = 0;	// remaining time
	double err = 0;		// accumulated rounding of single-precision arithmetic, in seconds
	bool over = true;	// the pulse has ended (or was never started)
	EV("rate %g", double(rate));
	auto tick = [&] {
		step();
		double inc = 1.0 / rate;
		bool on = os.update();
		double slack = err; // only rounding may decide an update that falls exactly on the end
		EV("update -> %d", on);
		if (over)
			CHECK(!on, P(T03), "on-again", "on although the pulse is over, was stopped or never started");
		else {
			CHECK(on || left <= slack, P(T03), "too-short", "off although %g s (%g updates) of the pulse remain", left, left / inc);
			CHECK(!on || left > -slack, P(T03), "too-long", "still on %g s (%g updates) after the end of the pulse", -left, -left / inc);
			if (!on)
				over = true, probe(P_PULSE);
		}
		left -= inc;
		err += (std::abs(left) + inc) * 1.3e-7;
		sim_time(1);
	};
	while (more(12)) {
		switch (choose(8)) {
			case 0:
			case 1: { // start or restart
				double n;
				switch (choose(5)) {
					case 0:
						n = choose(6);
						break;
					case 1:
						n = choose(64) * 0.25;
						break;
					case 2:
						n = choose(200);
						break;
					case 3:
						n = 0.1 + choose(10);
						break;
					default:
						n = choose(24) == 0 ? 2000 + choose(3000) : choose(500);
				}
				if (n > 1000)
					probe(P_LONG);
				float w = float(n / rate);
				if (!over)
					probe(P_RESTART);
				os.start(w);
				left = w;
				err = w * 1e-7;
				over = w <= 0;
				if (over)
					probe(P_ZERO);
				EV("start %g s", double(w));
				run_nontrivial = true;
				break;
			}
			case 2:
				if (choose(3) == 0) {
					os.stop();
					over = true;
					probe(P_STOP);
					EV("stop %d", 0);
				}
				break;
			case 3: {
				rate = draw_rate();
				// keep the number of updates that remain within reach
				if (left * rate > 6000)
					rate = 6000 / left;
				os.set_update_rate_hz(rate);
				fault(F_RATE);
				EV("rate %g", double(rate));
				break;
			}
			case 4: // to the end of the pulse and beyond
				for (u64 i = 0; i < 8000 && !over; i++)
					tick();
				for (int i = 0; i < 3; i++)
					tick();
				break;
			default:
				for (u64 i = 1 + choose(20); i--;)
					tick();
		}
	}
	for (u64 i = 0; i < 8000 && !over; i++)
		tick();
	tick();
}

void run() {
	switch (target_prop) {
		case T01:
			switch (choose(9)) {
				case 0:
					return event_int<u8>();
				case 1:
					return event_int<uint16_t>();
				case 2:
					return event_int<u32>();
				case 3:
					return event_int<u64>();
				case 4:
					return event_int<int8_t>();
				case 5:
					return event_int<int16_t>();
				case 6:
					return event_int<int32_t>();
				case 7:
					return event_int<long>();
				case 8:
					return event_float<double>();
			}
			return;
		case T02:
			return change();
		case T03:
			return oneshot();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"timer",
	{{"T01", 6000000, 300000000, "Each run draws the clock type (8 to 64 bits, signed or unsigned, or floating point) and the period, then polls at drawn instants: at and next to the deadline, after stalls up to a whole clock range, just before and after overflow. Non-trivial: the event fired."},
	 {"T02", 4000000, 200000000, "Each run draws the interval and the clock's start, then polls (by value or deferred) at drawn instants, input changes, forced looks, resets and reports. Non-trivial: a change was seen."},
	 {"T03", 2000000, 80000000, "Each run draws the update rate, then starts, restarts, stops, rate changes and updates. Non-trivial: a pulse was started."}},
	{"poller stalls", "clock overflows between polls", "clock steps back (floating point)", "forced look", "poll after an arbitrary delay", "update rate changes during a pulse"},
	{"event fired", "event waited", "polled exactly at the deadline", "deadline and overflow between two polls", "looked", "not looked", "change reported", "change not looked at yet", "reset", "pulse ran to its end", "restarted during a pulse", "stopped", "long pulse", "zero-length pulse"},
	"complete event log (poll instants, inputs, results)",
	"clock ticks (T01, T02), updates (T03)",
	{"util/poll_event.hh", "util/poll_change.hh", "util/oscs.hh (OneShot)"},
	{"the system clock"},
	{"integer clocks count modulo their range", "single-precision rounding is allowed for in T03"},
	run,
	100000};
}
