// W01..W04: WearLeveler / WearLevel over simulated flash with torn programs, partial erases, read errors and power loss
#include "core.hh"
#include "util/wear_level.hh"

using namespace sim;
namespace
{
enum { W01, W02, W03, W04 };
enum F { F_PROG_FAIL_LOST, F_PROG_FAIL_TORN, F_PROG_FAIL_DONE, F_PROG_SILENT, F_ERASE_FAIL, F_READ_ERR, F_BOOT_READ_ERR, F_CUT_PROG, F_CUT_ERASE, F_CUT_READ, F_CUT_OTHER, F_BAD_CELL, F_RESTART };
enum PR {
	P_SAVED, P_LOADED, P_OLDER, P_NONE, P_NEWER_THAN_ACK, P_ERASED, P_SAVE_FAILED, P_RESUMED, P_LEVELED, P_GARBAGE_START, P_HOLE, P_FULL_START, P_ALL_BAD, P_VALID_START
};

constexpr u64 check_of(u64 seq, u64 pay) {
	return mix(seq * 0x9E3779B97F4A7C15ull ^ mix(pay + 77));
}
struct Record {
	u64 seq = ~0ull, pay = ~0ull, sum = ~0ull;
	static Record of(u64 seq) {
		Record r;
		r.seq = seq;
		r.pay = mix(seq);
		r.sum = check_of(r.seq, r.pay);
		return r;
	}
	bool validate() const {
		return sum == check_of(seq, pay);
	}
	bool operator==(Record const &) const = default;
	bool blank() const {
		return seq == ~0ull && pay == ~0ull && sum == ~0ull;
	}
};
struct PowerLoss {};

struct Flash {
	size_t n = 0;
	std::vector<Record> c;
	std::vector<bool> bad;		  // never writeable
	// fault rates per 256 operations
	u32 r_prog = 0, r_silent = 0, r_erase = 0, r_read = 0, r_boot = 0, r_cut = 0;
	bool booting = false;
	// what happened during the current operation
	u32 programs = 0, prog_ok = 0, erases = 0, erase_failed = 0, reads = 0, read_errs = 0, ops = 0;
	size_t prog_cell = 0;
	Record prog_rec;
	bool boot_errs = false;	  // the current session started with read errors
	bool silent = false;	  // a program was silently lost
	// session state for the write discipline
	long last_prog = -1;
	bool erase_failed_session = false;
	std::function<void()> on_erase;
	std::set<u64> *known = nullptr;

	bool faulty(u32 rate) {
		return rate && chance_on(S_FAULT, rate, 256);
	}
	void begin_op() {
		programs = prog_ok = erases = erase_failed = reads = read_errs = ops = 0;
	}
	void count() {
		ops++;
		if (n < 1000 || ops % 64 == 0)
			step();
		CHECK(ops <= 8 * n + 40, P(W04), "no-progress", "one call used %u storage operations on %lu cells", ops, n);
		if (ops > 64 * n + 400)
			throw PowerLoss{}; // keeps the run finite when another property is being decided
	}
	long top_valid() const {
		for (long i = n; i-- > 0;)
			if (c[i].validate())
				return i;
		return -1;
	}
	void scribble(Record &r) {
		WithStream w(S_FAULT);
		u64 words[3] = {r.seq, r.pay, r.sum};
		for (auto &x : words)
			if (choose(2))
				x &= bits64(); // programming only clears bits
		r.seq = words[0], r.pay = words[1], r.sum = words[2];
	}
	void torn(Record &cell, Record const &d) {
		WithStream w(S_FAULT);
		u64 words[3] = {cell.seq, cell.pay, cell.sum}, src[3] = {d.seq, d.pay, d.sum};
		u64 full = choose(4);
		for (u64 i = 0; i < full && i < 3; i++)
			words[i] &= src[i];
		if (full < 3)
			words[full] &= src[full] | bits64();
		cell.seq = words[0], cell.pay = words[1], cell.sum = words[2];
	}
	bool read(Record &d, size_t i) {
		count();
		reads++;
		if (faulty(r_cut)) {
			fault(F_CUT_READ);
			EV("    power lost at read %lu", i);
			throw PowerLoss{};
		}
		if (i >= n)
			return false;
		u32 rate = booting ? r_boot : r_read;
		if (faulty(rate)) {
			fault(booting ? F_BOOT_READ_ERR : F_READ_ERR);
			read_errs++;
			if (booting)
				boot_errs = true;
			WithStream w(S_FAULT);
			switch (choose(3)) {
				case 0: // the buffer stays as it was
					break;
				case 1: // part of the cell arrived
					d.seq = c[i].seq;
					break;
				case 2:
					d.seq = bits64(), d.pay = bits64();
					break;
			}
			EV("    read %lu fails", i);
			return false;
		}
		d = c[i];
		return true;
	}
	bool is_writeable(size_t i) {
		count();
		if (faulty(r_cut / 4)) {
			fault(F_CUT_OTHER);
			EV("    power lost at is_writeable %lu", i);
			throw PowerLoss{};
		}
		return i < n && !bad[i] && c[i].blank();
	}
	bool write(Record const &d, size_t i) {
		count();
		programs++;
		CHECK(programs == 1, P(W03), "programmed-twice", "one save programmed %u cells", programs);
		CHECK(i < n, P(W03), "program-outside", "programmed cell %lu of %lu", i, n);
		prog_rec = d;
		if (i >= n)
			return false;
		prog_cell = i;
		CHECK(c[i].blank() && !bad[i], P(W03), "programmed-used-cell", "programmed cell %lu, which is not blank", i);
		long top = top_valid();
		if (!boot_errs) {
			CHECK((long)i > top, P(W03), "programmed-below-newest", "programmed cell %lu below the newest record in cell %ld", i, top);
			CHECK((long)i > last_prog, P(W03), "not-ascending", "programmed cell %lu after cell %ld", i, last_prog);
			if (!erase_failed_session)
				for (size_t k = std::max(top, last_prog) + 1; k < i; k++)
					CHECK(!c[k].blank() || bad[k], P(W03), "cell-skipped", "programmed cell %lu although cell %lu is blank", i, k);
		}
		last_prog = i;
		if (faulty(r_cut)) {
			fault(F_CUT_PROG);
			torn(c[i], d);
			EV("    power lost while programming %lu (seq %lu), cell %s", i, d.seq, c[i].validate() ? "valid" : c[i].blank() ? "blank" : "torn");
			throw PowerLoss{};
		}
		if (faulty(r_prog)) {
			WithStream w(S_FAULT);
			switch (choose(3)) {
				case 0:
					fault(F_PROG_FAIL_LOST);
					probe(P_HOLE);
					break;
				case 1:
					fault(F_PROG_FAIL_TORN);
					torn(c[i], d);
					break;
				case 2:
					fault(F_PROG_FAIL_DONE);
					torn(c[i], d);
					c[i] = d;
					break;
			}
			EV("    programming %lu (seq %lu) fails, cell %s", i, d.seq, c[i].validate() ? "valid" : c[i].blank() ? "blank" : "torn");
			return false;
		}
		if (faulty(r_silent)) {
			fault(F_PROG_SILENT);
			silent = true;
			if (choose_on(S_FAULT, 2))
				torn(c[i], d);
			EV("    programming %lu (seq %lu) silently goes wrong", i, d.seq);
			prog_ok++;
			return true;
		}
		c[i].seq &= d.seq, c[i].pay &= d.pay, c[i].sum &= d.sum;
		EV("    programmed %lu (seq %lu)", i, d.seq);
		prog_ok++;
		return true;
	}
	void erase_part() {
		WithStream w(S_FAULT);
		u64 mode = choose(4);
		size_t upto = choose(n + 1);
		for (size_t i = 0; i < n; i++) {
			u64 what = mode == 0 ? 0 : mode == 1 ? (i < upto ? 1 : 0) : mode == 2 ? (i >= upto ? 1 : 0) : choose(3);
			if (what == 1)
				c[i] = Record{};
			else if (what == 2) {
				c[i].seq |= bits64(), c[i].pay |= bits64(), c[i].sum |= bits64();
			}
		}
	}
	bool erase() {
		count();
		erases++;
		CHECK(erases == 1, P(W03), "erased-twice", "one save erased the block %u times", erases);
		if (!boot_errs && !erase_failed_session)
			for (size_t k = std::max(top_valid(), last_prog) + 1; k < n; k++)
				CHECK(!c[k].blank() || bad[k], P(W03), "erased-early", "the block was erased although cell %lu is blank", k);
		probe(P_ERASED);
		on_erase();
		if (faulty(r_cut)) {
			fault(F_CUT_ERASE);
			erase_part();
			EV("    power lost while erasing, newest valid cell %ld", top_valid());
			throw PowerLoss{};
		}
		if (faulty(r_erase)) {
			fault(F_ERASE_FAIL);
			erase_part();
			erase_failed++;
			erase_failed_session = true;
			EV("    erase fails, newest valid cell %ld", top_valid());
			return false;
		}
		for (auto &x : c)
			x = Record{};
		last_prog = -1;
		erase_failed_session = false;
		boot_errs = false;
		EV("    erased %d", 1);
		return true;
	}
};
Flash flash;

template<size_t N>
struct StoreInst { // for WearLeveler: instance functions, constructor arguments
	using data_t = Record;
	static constexpr size_t NumCells = N;
	Flash &f;
	int tag;
	StoreInst(Flash &f, int &t)
		: f{f}
		, tag{t} {
		CHECK(tag == 4711, P(W01), "bad-construction", "the storage was not constructed from its arguments");
	}
	bool read(Record *d, size_t i) {
		return f.read(*d, i);
	}
	bool write(Record const *d, size_t i) {
		return f.write(*d, i);
	}
	bool erase() {
		return f.erase();
	}
	bool is_writeable(size_t i) {
		return f.is_writeable(i);
	}
};
template<size_t N>
struct StoreBase { // for WearLevel: inherited
	using data_t = Record;
	static constexpr size_t cell_nr_ = N;
	bool read(Record &d, size_t i) {
		return flash.read(d, i);
	}
	bool write(Record const &d, size_t i) {
		return flash.write(d, i);
	}
	bool erase() {
		return flash.erase();
	}
	bool is_writeable(size_t i) {
		return flash.is_writeable(i);
	}
};

template<size_t N>
struct DevInst {
	int tag = 4711;
	std::optional<WearLeveler<StoreInst<N>>> w;
	void boot() {
		w.reset();
		w.emplace(flash, tag);
	}
	auto &dev() {
		return *w;
	}
};
template<size_t N>
struct DevBase {
	std::optional<WearLevel<StoreBase<N>>> w;
	void boot() {
		w.reset();
		w.emplace();
	}
	auto &dev() {
		return *w;
	}
};

template<class Dev, size_t N>
void go() {
	flash = Flash{};
	auto &f = flash;
	f.n = N;
	f.c.assign(N, Record{});
	f.bad.assign(N, false);
	Dev d;
	u64 seq = 1;
	std::set<u64> ever;		  // sequence numbers of records ever passed to save or there before
	bool have_ack = false;
	Record acked;
	std::vector<u64> attempts; // newer than acked
	bool erased = false;	   // since acked
	bool shadow = false;	   // boot read errors: the newest record may have been missed
	u64 since_erase = 0;
	f.on_erase = [&] { erased |= !f.programs; }; // a save that has programmed a cell has no need to erase

	// ---- what the block holds at first
	bool clean_start = false;
	switch (choose(5)) {
		case 0:
		case 1:
			clean_start = true;
			break;
		case 2: { // records saved by an earlier version
			probe(P_VALID_START);
			u64 k = N > 65536 && choose(4) ? N - choose(N - 65536) : choose(N + 1);
			for (u64 i = 0; i < k; i++) {
				ever.insert(seq);
				f.c[i] = Record::of(seq++);
			}
			if (k) {
				have_ack = true;
				acked = f.c[k - 1];
			}
			if (k == N)
				probe(P_FULL_START);
			since_erase = k;
			clean_start = true;
			break;
		}
		default:
			probe(P_GARBAGE_START);
			for (auto &x : f.c)
				switch (choose(3)) {
					case 0:
						break;
					case 1:
						x.seq = bits64(), x.pay = bits64(), x.sum = bits64();
						break;
					case 2:
						if (target_prop != W01) {
							ever.insert(seq);
							x = Record::of(seq++);
						}
						break;
				}
			break;
	}
	bool fault_free = choose(4) == 0;
	if (!fault_free) {
		auto rate = [] { return u32(pick({0, 8, 32, 96})); };
		f.r_prog = rate();
		f.r_erase = rate() * 2;
		f.r_read = target_prop == W02 ? rate() : rate() / 4;
		f.r_cut = rate() / 4;
		f.r_boot = target_prop == W02 || target_prop == W04 ? rate() : 0;
		f.r_silent = target_prop == W02 || target_prop == W03 || target_prop == W04 ? u32(pick({0, 0, 16})) : 0;
		if (choose(6) == 0)
			for (size_t i = 0; i < N; i++)
				if (choose(3) == 0) {
					f.bad[i] = true;
					fault(F_BAD_CELL);
				}
	}
	bool any_good = std::find(f.bad.begin(), f.bad.end(), false) != f.bad.end();
	if (!any_good)
		probe(P_ALL_BAD);
	bool level_exact = fault_free && clean_start;
	EV("%lu cells, %s, rates prog %u erase %u read %u boot %u cut %u silent %u", N, std::is_same_v<Dev, DevInst<N>> ? "WearLeveler" : "WearLevel", f.r_prog, f.r_erase, f.r_read, f.r_boot, f.r_cut, f.r_silent);

	auto boot = [&] {
		for (int tries = 0;; tries++) {
			f.begin_op();
			f.booting = true;
			f.boot_errs = false;
			f.last_prog = -1;
			f.erase_failed_session = false;
			u32 cut = f.r_cut;
			if (tries > 3)
				f.r_cut = 0;
			try {
				d.boot();
				f.booting = false;
				f.r_cut = cut;
				CHECK(!f.programs && !f.erases, P(W03), "boot-writes", "starting up programmed or erased the block");
				if (f.boot_errs)
					shadow = true;
				EV("boot: newest valid cell %ld", f.top_valid());
				return;
			} catch (PowerLoss) {
				f.r_cut = cut;
				CHECK(f.ops <= 8 * N + 40, P(W04), "no-progress", "starting up used %u storage operations", f.ops);
				EV("power lost during start-up %d", tries);
			}
		}
	};
	auto load = [&](bool must) { // must: no fault is possible
		Record r;
		// what the caller's variable held before is not a stored record
		switch (choose(3)) {
			case 0:
				break;
			case 1:
				r = Record::of(900000 + seq);
				break;
			case 2:
				r.seq = 5, r.pay = 6, r.sum = 7;
				break;
		}
		f.begin_op();
		bool ok;
		try {
			ok = d.dev().read(r);
		} catch (PowerLoss) {
			EV("power lost during load %d", 0);
			boot();
			return;
		}
		CHECK(!f.programs && !f.erases, P(W03), "load-writes", "a load programmed or erased the block");
		EV("load -> %d seq %lu%s", ok, ok ? r.seq : 0, f.read_errs ? " (read errors)" : "");
		if (ok) {
			probe(P_LOADED);
			run_nontrivial = true;
			bool stored = false;
			for (auto &x : f.c)
				stored |= x == r;
			CHECK(r.validate() && stored && ever.count(r.seq) && r == Record::of(r.seq), P(W02), "invented-record", "the load returned a record (seq %lu) that is not stored in the block", r.seq);
		} else {
			probe(P_NONE);
			if (!f.read_errs && !f.boot_errs && !shadow)
				CHECK(f.top_valid() < 0 || f.erase_failed_session, P(W01) | P(W02), "record-ignored", "the load reported failure although cell %ld holds a valid record", f.top_valid());
		}
		if (f.read_errs || shadow || f.boot_errs || f.silent)
			return;
		if (have_ack && !erased) {
			bool good = ok && (r == acked || std::count(attempts.begin(), attempts.end(), r.seq));
			CHECK(good, P(W01), "saved-record-lost", "record %lu was saved, then %lu newer saves failed without erasing; the load gave %s (seq %lu)", acked.seq, attempts.size(), ok ? "another record" : "nothing", ok ? r.seq : 0);
			if (ok && !(r == acked))
				probe(P_NEWER_THAN_ACK);
		} else if (ok && have_ack && r.seq < acked.seq)
			probe(P_OLDER);
	};
	auto save = [&](bool must) {
		Record r = Record::of(seq++);
		ever.insert(r.seq);
		attempts.push_back(r.seq);
		f.begin_op();
		bool ok;
		bool before_erased = erased;
		try {
			EV("save %lu ...", r.seq);
			ok = d.dev().write(r);
		} catch (PowerLoss) {
			CHECK(f.ops <= 8 * N + 40, P(W04), "no-progress", "a save used %u storage operations", f.ops);
			EV("save %lu: power lost", r.seq);
			level_exact = false;
			boot();
			return false;
		}
		EV("save %lu -> %d", r.seq, ok);
		bool programmed = f.programs == 1 && f.prog_ok == 1;
		if (ok)
			CHECK(programmed && f.prog_rec == r && !f.erase_failed, P(W04), "false-success", "the save reported success but the storage did not report the record programmed");
		else
			CHECK(!programmed, P(W04), "false-failure", "the save reported failure although the storage reported the record programmed");
		if (f.erases && !f.erase_failed)
			since_erase = 0;
		if (ok) {
			probe(P_SAVED);
			run_nontrivial = true;
			have_ack = true;
			acked = r;
			attempts.clear();
			erased = false;
			since_erase++;
			if (level_exact) {
				CHECK(since_erase <= N, P(W03), "not-levelled", "%lu saves fit into %lu cells without an erase", since_erase, N);
				if (f.erases)
					probe(P_LEVELED);
			}
		} else
			probe(P_SAVE_FAILED);
		if (level_exact && f.erases) {
			CHECK(since_erase == 1, P(W03), "not-levelled", "erase count is off");
		}
		(void)before_erased;
		if (must) {
			CHECK(ok == any_good, P(W04), "save-does-not-resume", "no more faults, but the save reported %s", ok ? "success" : "failure");
			probe(P_RESUMED);
		}
		return ok;
	};

	boot();
	u64 before = since_erase;
	while (more(14)) {
		switch (choose(6)) {
			case 0:
			case 1:
			case 2: {
				u64 e0 = since_erase;
				bool ok = save(false);
				if (level_exact && f.erases)
					CHECK(e0 == N, P(W03), "not-levelled", "the block of %lu cells was erased after %lu saves", N, e0);
				if (ok && choose(3) == 0)
					load(false);
				break;
			}
			case 3:
			case 4:
				load(false);
				break;
			case 5:
				EV("restart %d", 0);
				fault(F_RESTART);
				boot();
				break;
		}
	}
	(void)before;
	// ---- faults stop
	f.r_prog = f.r_silent = f.r_erase = f.r_read = f.r_boot = f.r_cut = 0;
	EV("faults stop %d", 0);
	if (choose(2))
		boot(), shadow = false;
	else if (choose(2))
		load(false);
	bool b = f.boot_errs;
	bool ok = save(true);
	if (ok) {
		// the next load returns its record, in this session or after a restart
		Record r;
		if (!b && !shadow && choose(3) == 0) {
			EV("restart %d", 0);
			boot();
		}
		f.begin_op();
		bool l = d.dev().read(r);
		EV("load -> %d seq %lu", l, l ? r.seq : 0);
		CHECK(l && r == acked, P(W04) | P(W01), "record-lost-after-recovery", "faults have stopped, but the record just saved was not loaded");
		f.silent = false;
		if (!b && !shadow && choose(2)) {
			boot();
			load(true);
		}
	}
	if (N < 1000 && choose(2) && !b && !shadow) {
		for (u64 i = 0; i < 2 * N + 1; i++)
			save(true);
		load(true);
		boot();
		load(true);
	}
	sim_time(box->steps);
}

template<size_t N>
void go_n() {
	if (choose(2))
		go<DevBase<N>, N>();
	else
		go<DevInst<N>, N>();
}

void run() {
	if (chance(1, 4096))
		return choose(12) ? go_n<300>() : go_n<70000>();
	switch (choose(6)) {
		case 0:
			return go_n<3>();
		case 1:
			return go_n<1>();
		case 2:
			return go_n<2>();
		case 3:
			return go_n<4>();
		case 4:
			return go_n<6>();
		case 5:
			return go_n<9>();
	}
}
} // namespace

#define RULE "Each run draws the class, the number of cells, the initial contents of the block (blank, earlier records, garbage) and the fault rates (a quarter of the runs fault-free), then saves, loads and restarts; then faults stop and saves, loads and restarts must work. Non-trivial: a record was saved or loaded."
namespace sim
{
Harness harness = {
	"wear",
	{{"W01", 3000000, 140000000, RULE " No read errors while starting up and no program reported done that was not."}, {"W02", 3000000, 140000000, RULE " With frequent read errors, also while starting up, and silently lost programs."}, {"W03", 3000000, 140000000, RULE}, {"W04", 3000000, 140000000, RULE}},
	{"program fails, nothing stored", "program fails, cell torn", "program fails although stored", "program silently lost or torn", "erase fails, partly done", "read error in a load", "read error while starting up", "power lost while programming (torn)", "power lost while erasing (partial)", "power lost while reading", "power lost at another operation", "cell that cannot be written", "clean restart"},
	{"saved", "loaded", "older record loaded after an erase", "load reported nothing", "newer, not acknowledged record loaded", "block erased", "save failed", "service resumed after faults", "levelling counted over an erase", "block started with garbage", "blank hole left by a failed program", "block started full", "no cell is writeable", "block started with records"},
	"complete event log (storage operations, faults, results)",
	"storage operations executed",
	{"util/wear_level.hh (WearLevel, WearLeveler)"},
	{"flash: programs only clear bits, torn programs, partial erases; power loss abandons the call and the object"},
	{"the storage reports failed erases, and (W01) failed programs, as failed", "a cell that is torn never passes validation (64-bit check)"},
	run,
	200000};
}
