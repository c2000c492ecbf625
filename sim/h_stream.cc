// D01..D03: DoubleBufferStream over simulated transmit hardware that reads its memory until completion and may refuse to start
#include "core.hh"
#include "util/doublebuf_stream.hh"

using namespace sim;
namespace
{
enum { D01, D02, D03 };
enum F { F_REFUSE_TRANSMIT, F_REFUSE_CALLBACK, F_SPURIOUS_DONE, F_LATE_DONE, F_BURST };
enum PR { P_ACCEPT_IDLE, P_ACCEPT_BUSY, P_REJECT_FULL, P_REJECT_START, P_REJECT_BIG, P_CHAINED, P_PENDING_IDLE, P_RESTARTED, P_RESUMED, P_FULL_BUFFER };

struct Big {
	u8 k = 0;
	u32 n = 0;
	static Big of(u64 i) {
		return {u8(i * 5), u32(i)};
	}
	bool operator==(Big const &) const = default;
	u64 v() const {
		return n;
	}
};
struct Byte {
	u8 n = 0;
	static Byte of(u64 i) {
		return {u8(i)};
	}
	bool operator==(Byte const &) const = default;
	u64 v() const {
		return n;
	}
};
struct Owner { // contents outside the element: copying bytes is not enough
	std::shared_ptr<u64> p;
	static Owner of(u64 i) {
		return {std::make_shared<u64>(i)};
	}
	bool operator==(Owner const &o) const {
		return p && o.p && *p == *o.p;
	}
	u64 v() const {
		return p ? *p : ~0ull;
	}
};

template<class T, size_t N>
void go() {
	// ---- hardware
	struct Hw {
		bool busy = false;
		std::span<T> mem;
		std::vector<T> snap, read;
		u32 refuse = 0; // per 256
		u64 refuse_for = 0;
		u64 starts_ok = 0, starts_refused = 0;
	} hw;
	// ---- model
	std::vector<T> accepted;  // stream of accepted data
	size_t handed = 0;		  // part of it handed over in successful starts
	std::vector<T> candidate; // message being transmitted
	bool cand_used = false;
	u64 next = 1;
	bool in_callback = false;

	auto intact = [&] {
		if (hw.busy)
			for (size_t i = 0; i < hw.snap.size(); i++)
				CHECK(hw.mem[i] == hw.snap[i], P(D02), "memory-changed", "element %lu of %lu in flight was changed", i, hw.snap.size());
	};
	auto progress = [&](size_t n) { // the hardware reads some more
		while (hw.busy && n-- && hw.read.size() < hw.snap.size())
			hw.read.push_back(hw.mem[hw.read.size()]);
	};
	auto start = [&](std::span<T> s) -> bool {
		CHECK(!hw.busy, P(D02), "two-in-flight", "a transmission was started while another is in flight");
		CHECK(!s.empty() && s.size() <= N, P(D02), "bad-size", "a transmission of %lu elements was started", s.size());
		// what is handed over continues the accepted stream, then the message being offered
		size_t pend = accepted.size() - handed;
		bool good = s.size() <= pend + candidate.size();
		for (size_t i = 0; good && i < s.size(); i++)
			good = s[i] == (i < pend ? accepted[handed + i] : candidate[i - pend]);
		bool refuse = hw.refuse_for > 0 || (hw.refuse && chance_on(S_FAULT, hw.refuse, 256));
		if (hw.refuse_for)
			hw.refuse_for--;
		EV("    hardware: start of %lu elements (first %lu) -> %s", s.size(), s.empty() ? 0 : s[0].v(), refuse ? "refused" : "ok");
		if (refuse) {
			fault(in_callback ? F_REFUSE_CALLBACK : F_REFUSE_TRANSMIT);
			hw.starts_refused++;
			return false;
		}
		CHECK(good, P(D01), "wrong-data", "the transmission does not continue the accepted data");
		hw.starts_ok++;
		hw.busy = true;
		hw.mem = s;
		hw.snap.assign(s.begin(), s.end());
		hw.read.clear();
		if (s.size() > pend)
			cand_used = true;
		handed += s.size();
		if (s.size() == N)
			probe(P_FULL_BUFFER);
		return true;
	};

	// separately allocated, so that AddressSanitizer sees accesses beyond it
	auto dev = std::make_unique<DoubleBufferStream<T, N>>(start);

	auto transmit = [&](size_t n) {
		std::vector<T> msg;
		for (size_t i = 0; i < n; i++)
			msg.push_back(T::of(next++));
		size_t pend = accepted.size() - handed;
		bool busy = hw.busy;
		candidate = msg;
		cand_used = false;
		hw.starts_ok = hw.starts_refused = 0;
		EV("transmit %lu elements (first %lu), %s, %lu waiting ...", n, msg[0].v(), busy ? "busy" : "idle", pend);
		bool ok = dev->transmit(msg);
		EV("transmit -> %s", ok ? "accepted" : "rejected");
		// the caller's memory is free for other use
		for (auto &x : msg)
			x = T::of(777777);
		if (ok) {
			accepted.insert(accepted.end(), candidate.begin(), candidate.end());
			run_nontrivial = true;
		} else
			CHECK(!cand_used, P(D01), "rejected-but-sent", "a rejected message was handed to the hardware");
		if (!ok && cand_used)
			accepted.insert(accepted.end(), candidate.begin(), candidate.end());
		if (busy) {
			CHECK(ok == (pend + n <= N), P(D03), ok ? "accepted-too-much" : "rejected-with-room", "%lu elements were %s with %lu of %lu waiting", n, ok ? "accepted" : "rejected", pend, N);
			probe(ok ? P_ACCEPT_BUSY : P_REJECT_FULL);
		} else if (!pend) {
			bool want = n <= N && (hw.starts_ok || !hw.starts_refused);
			CHECK(ok == want, P(D03), ok ? "accepted-wrongly" : "rejected-with-room", "%lu elements were %s with nothing waiting, an idle line and %lu refused starts", n, ok ? "accepted" : "rejected", hw.starts_refused);
			if (ok)
				CHECK(hw.busy, P(D01), "not-started", "a message was accepted on an idle line but not started");
			probe(ok ? P_ACCEPT_IDLE : n > N ? P_REJECT_BIG : P_REJECT_START);
		} else {
			// an earlier start failed: what waits goes first
			if (hw.starts_ok)
				probe(P_RESTARTED);
			if (n > N || (hw.starts_refused && !hw.starts_ok))
				CHECK(!ok, P(D03), "accepted-wrongly", "%lu elements were accepted with %lu waiting on an idle line", n, pend);
			else if (pend + n <= N && !hw.starts_refused)
				CHECK(ok && hw.busy, P(D03), "rejected-with-room", "%lu elements were rejected with %lu of %lu waiting and an idle line", n, pend, N);
			if (ok)
				CHECK(hw.busy, P(D01), "not-started", "a message was accepted on an idle line but nothing was started");
		}
		candidate.clear();
		intact();
	};
	auto complete = [&] {
		if (!hw.busy) {
			fault(F_SPURIOUS_DONE);
			hw.starts_ok = hw.starts_refused = 0;
			size_t h = handed;
			dev->tx_done_callback();
			EV("completion although nothing is in flight %d", 0);
			CHECK(handed == h && !hw.starts_ok && !hw.starts_refused, P(D02), "spurious-completion", "a completion with nothing in flight had an effect");
			return;
		}
		progress(N);
		intact();
		for (size_t i = 0; i < hw.snap.size(); i++)
			CHECK(hw.read[i] == hw.snap[i], P(D01) | P(D02), "sent-wrong-data", "the hardware read something else than it was given");
		hw.busy = false;
		size_t pend = accepted.size() - handed;
		hw.starts_ok = hw.starts_refused = 0;
		in_callback = true;
		EV("completion, %lu waiting ...", pend);
		dev->tx_done_callback();
		in_callback = false;
		if (pend && !hw.starts_refused) {
			CHECK(hw.busy, P(D01), "not-chained", "%lu elements wait, the line is idle and the hardware would accept a start, but nothing was started", pend);
			probe(P_CHAINED);
		}
		if (!hw.busy && pend)
			probe(P_PENDING_IDLE);
		if (!pend)
			CHECK(!hw.busy, P(D02), "phantom-transmission", "a transmission was started with nothing waiting");
	};

	bool faults = choose(4) != 0;
	if (faults)
		hw.refuse = pick({0, 16, 64, 128});
	u64 big = pick({2, 4, 8});
	EV("buffers of %lu elements, refusal rate %u/256", N, hw.refuse);
	u64 tw = pick({2, 3, 5}), cw = pick({1, 2, 4});
	while (more(30)) {
		step();
		u64 k = choose(tw + cw + 2);
		if (k < tw)
			transmit(choose(big) == 0 ? 1 + choose(N + 2) : 1 + choose(std::max<size_t>(1, N / 2)));
		else if (k < tw + cw) {
			if (hw.busy || choose(4) == 0)
				complete();
		} else if (k == tw + cw) {
			fault(F_LATE_DONE);
			progress(1 + choose(N));
			intact();
		} else if (faults && choose(3) == 0) {
			fault(F_BURST);
			hw.refuse_for = 1 + choose(3);
		}
	}
	// ---- faults stop
	hw.refuse = 0;
	hw.refuse_for = 0;
	EV("faults stop %d", 0);
	for (int i = 0; i < 3 && hw.busy; i++)
		complete();
	if (choose(2) && !hw.busy)
		complete();
	for (int r = 0; r < 2; r++) {
		size_t n = 1 + choose(std::max<size_t>(1, N / 2)), before = accepted.size();
		transmit(n);
		CHECK(accepted.size() == before + n, P(D03), "no-recovery", "the hardware accepts starts and has completed everything, but a message of %lu was rejected", n);
		for (int i = 0; i < 4 && hw.busy; i++)
			complete();
		CHECK(!hw.busy && handed == accepted.size(), P(D03), "no-recovery", "%lu accepted elements were not sent although nothing fails any more", accepted.size() - handed);
		probe(P_RESUMED);
	}
	sim_time(box->steps);
}

template<size_t N>
void go_n() {
	switch (choose(3)) {
		case 0:
			return go<Byte, N>();
		case 1:
			return go<Big, N>();
		case 2:
			return go<Owner, N>();
	}
}

void run() {
	if (u64 k = choose(40000); k % 400 == 1)
		return k % 800 == 1 ? go<Byte, 300>() : go<Big, 512>();
	else if (k == 2)
		return go<Big, 66000>();
	switch (choose(5)) {
		case 0:
			return go_n<4>();
		case 1:
			return go_n<1>();
		case 2:
			return go_n<2>();
		case 3:
			return go_n<7>();
		case 4:
			return go_n<16>();
	}
}
} // namespace

#define RULE "Each run draws the element type, the buffer size and the rate of refused starts, then messages of any size, completions at any moment and spurious completions; then refusals stop and everything must be sent. Non-trivial: at least one message was accepted."
namespace sim
{
Harness harness = {
	"stream",
	{{"D01", 2000000, 90000000, RULE}, {"D02", 2000000, 90000000, RULE}, {"D03", 2000000, 90000000, RULE}},
	{"start refused in transmit", "start refused when a transmission completes", "completion with nothing in flight", "hardware stalls in the middle of a transmission", "burst of refused starts"},
	{"accepted on an idle line", "accepted while busy", "rejected: no room", "rejected: start refused", "rejected: larger than a buffer", "chained transmission", "data waits on an idle line", "waiting data restarted", "service resumed after faults", "full buffer sent"},
	"complete event log (calls, starts, completions, results)",
	"calls and hardware events",
	{"util/doublebuf_stream.hh", "util/fixed_vector.hh", "libstdc++ std::function, std::span, std::optional"},
	{"transmit hardware: reads the memory it was given until completion, refuses starts"},
	{"messages have at least one element", "tx_done_callback does not interrupt transmit(), as the header requires"},
	run,
	100000};
}
