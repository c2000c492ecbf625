# ------------------------------------------------------------------ queues
Q = 'util/lockfree_fifo_spsc.hh'
QD = 'util/lockfree_fifo_spsc_dyn.hh'
seed('q01-publish-before-store', 'Q01', 'the consumer runs between the publication of the place and the copy of the item into it',
 'put() makes the place visible before the item is stored: the consumer gets what the place held before.',
 [(Q, '''		buf_[tmp_head & SIZE_MASK] = item;
		tmp_head++;
		std::atomic_signal_fence(std::memory_order_release);
		head_.store(tmp_head, std::memory_order_release);
		return true;''', '''		head_.store(tmp_head + 1, std::memory_order_release);
		buf_[tmp_head & SIZE_MASK] = std::move(item);
		return true;''')], r'''
#include "util/lockfree_fifo_spsc.hh"
#include <cstdio>
#include <functional>
std::function<void()> interrupt;
struct Item {
	int v = 0;
	Item(int v = 0) : v{v} {}
	Item(Item const &o) : v{o.v} {}
	Item &operator=(Item const &o) {
		if (interrupt) { auto f = std::move(interrupt); interrupt = nullptr; f(); }
		v = o.v;
		return *this;
	}
};
int main() {
	LockFreeFifoSpsc<Item, 4> q;
	bool bad = false;
	for (int i = 1; i < 20; i++) {
		interrupt = [&] { // the consumer interrupts the producer while the item is copied in
			while (auto x = q.get())
				if (x->v != i) bad = true;
		};
		q.put(Item{i});
		interrupt = nullptr;
		auto x = q.get();
		if (x && x->v != i) bad = true;
	}
	printf("%s\n", bad ? "an item was taken before it was stored" : "ok");
	return bad;
}
''')
seed('q02-count-after-wrap', 'Q02', 'the running positions have wrapped around size_t between the oldest and the newest item',
 'num_filled() is zero for a queue whose write position has wrapped: a queue with items reports empty.',
 [(Q, '''		return head_.load(std::memory_order_acquire) - tail_.load(std::memory_order_relaxed);
''', '''		const auto head = head_.load(std::memory_order_acquire);
		const auto tail = tail_.load(std::memory_order_relaxed);
		return head > tail ? head - tail : 0;
''')], r'''
#include "util/lockfree_fifo_spsc.hh"
#include <cstdio>
int main() {
	LockFreeFifoSpsc<int, 8> q;
	q.set_write_pos(size_t(-3));
	q.set_read_pos(size_t(-3));
	size_t n = 0;
	for (int i = 0; i < 8; i++) {
		if (!q.put(i)) return 1;
		n++;
		if (q.num_filled() != n || q.empty()) { printf("%zu items, but num_filled() is %zu\n", n, q.num_filled()); return 1; }
	}
	while (q.get()) {
		n--;
		if (q.num_filled() != n || q.empty() != (n == 0)) { printf("%zu items, but num_filled() is %zu\n", n, q.num_filled()); return 1; }
	}
	return n != 0;
}
''')
seed('q03-discard-after-wrap', 'Q03', 'remove_first() on a queue whose running positions have wrapped around size_t',
 'remove_first() discards nothing, so the item is delivered although it was discarded.',
 [(QD, '''		if (tmp_tail != head_.load(std::memory_order_relaxed))
			tail_.store(++tmp_tail, std::memory_order_release);''', '''		if (tmp_tail < head_.load(std::memory_order_relaxed))
			tail_.store(tmp_tail + 1, std::memory_order_release);''')], r'''
#include "util/lockfree_fifo_spsc_dyn.hh"
#include <cstdio>
int main() {
	LockFreeFifoSpscDyn<int> q{8};
	q.set_write_pos(size_t(-2));
	q.set_read_pos(size_t(-2));
	for (int i = 0; i < 6; i++) q.put(i);
	for (int i = 0; i < 6; i += 2) {
		q.remove_first();
		auto x = q.get();
		if (!x || *x != i + 1) { printf("expected item %d after discarding one, got %d\n", i + 1, x ? *x : -1); return 1; }
	}
	return q.get().has_value();
}
''')
seed('q04-grow-fails', 'Q04', 'growing the queue runs out of memory, the caller catches it and goes on',
 'The capacity is raised before the memory is there: after a failed resize() the queue accepts more items than it has places.',
 [(QD, '''			buf_.resize(new_max_size);

			max_size_ = new_max_size;
''', '''			max_size_ = new_max_size;
			buf_.resize(max_size_);
''')], r'''
#include "util/lockfree_fifo_spsc_dyn.hh"
#include <cstdio>
#include <cstdlib>
#include <new>
bool fail = false;
void *operator new(size_t n) {
	if (fail) throw std::bad_alloc{};
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc{};
	return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
	LockFreeFifoSpscDyn<int> q{4};
	fail = true;
	bool thrown = false;
	try { q.resize(4096); } catch (std::bad_alloc const &) { thrown = true; }
	fail = false;
	if (!thrown) return 0; // it coped
	if (q.max_size() > 4) { printf("capacity %zu after growing from 4 failed\n", q.max_size()); return 1; }
	int n = 0;
	while (n < 100 && q.put(n)) n++;
	for (int i = 0; i < n; i++) if (auto x = q.get(); !x || *x != i) return 1;
	return n > 4;
}
''')
# ------------------------------------------------------------------ pools
TP = 'util/thread_safe_pool.hh'
seed('p01-destroy-check-then-clear', 'P01', 'two threads release the same slot at the same time',
 'destroy() tests and clears the flag in two steps: both callers are told that they released the slot.',
 [(TP, '''			bool expected = true;
			if (used_flags[idx].compare_exchange_strong(expected, false)) {
				return true;
			}
''', '''			if (used_flags[idx].load(std::memory_order_acquire)) {
				used_flags[idx].store(false, std::memory_order_release);
				return true;
			}
''')], r'''
#include "util/thread_safe_pool.hh"
#include <cstdio>
#include <thread>
#include <chrono>
cpputil::ThreadSafePool<int, 2> pool;
std::atomic<int> phase{0}, arrived{0}, released{0};
int main() {
	pool.clear();
	std::atomic<bool> stop{false};
	auto work = [&] {
		int seen = 0;
		while (true) {
			while (phase.load() == seen && !stop.load()) ;
			if (stop) return;
			seen = phase.load();
			if (pool.destroy(0)) released++;
			arrived++;
		}
	};
	std::thread a(work), b(work);
	bool bad = false;
	auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
	while (!bad && std::chrono::steady_clock::now() < end) {
		for (int i = 0; i < 1000 && !bad; i++) {
			if (pool.create() != 0u) return 2;
			released = 0; arrived = 0;
			phase++;
			while (arrived.load() != 2) ;
			bad = released.load() != 1;
		}
	}
	stop = true;
	a.join(); b.join();
	printf("%s\n", bad ? "one slot was released twice" : "ok");
	return bad;
}
''', '-O2')
seed('p02-stale-hint', 'P02', 'a slot below the search start is released between another thread taking a slot and storing the new search start',
 'create() starts at a remembered position that a concurrent destroy() has just lowered; the lower slot is never looked at again and create() refuses although it is free.',
 [(TP, '''	std::array<std::atomic<bool>, MaxEntries> used_flags;
''', '''	std::array<std::atomic<bool>, MaxEntries> used_flags;
	std::atomic<size_t> first_free{0};
'''), (TP, '''		for (size_t i = 0; auto &used : used_flags) {
			bool expected = false;
			if (used.compare_exchange_strong(expected, true)) {
				return i;
			}
			i++;
		}
''', '''		// Everything below first_free is in use
		for (size_t i = first_free.load(); i < MaxEntries; i++) {
			bool expected = false;
			if (used_flags[i].compare_exchange_strong(expected, true)) {
				first_free.store(i + 1);
				return i;
			}
		}
'''), (TP, '''			if (used_flags[idx].compare_exchange_strong(expected, false)) {
				return true;
''', '''			if (used_flags[idx].compare_exchange_strong(expected, false)) {
				if (idx < first_free.load())
					first_free.store(idx);
				return true;
'''), (TP, '''			used_flags[i].store(false, std::memory_order_release);
		}
''', '''			used_flags[i].store(false, std::memory_order_release);
		}
		first_free.store(0);
''')], r'''
#include "util/thread_safe_pool.hh"
#include <cstdio>
#include <thread>
#include <vector>
#include <chrono>
cpputil::ThreadSafePool<int, 8> pool;
int main() {
	auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
	while (std::chrono::steady_clock::now() < end) {
		pool.clear();
		auto work = [&] {
			std::vector<size_t> mine;
			for (int i = 0; i < 20000; i++) {
				if (mine.size() < 3) { if (auto x = pool.create()) mine.push_back(*x); }
				else { pool.destroy(mine[i % 3]); mine.erase(mine.begin() + i % 3); }
			}
			for (auto x : mine) pool.destroy(x);
		};
		std::thread a(work), b(work);
		a.join(); b.join();
		// nobody holds anything now
		size_t n = 0;
		while (n < 9 && pool.create()) n++;
		if (n != 8) { printf("only %zu of 8 slots are given although all are free\n", n); return 1; }
	}
	return 0;
}
''', '-O2')
seed('p03-pool-range-check', 'P01', 'a pointer to a later member of a slot, or to a released slot whose neighbour is in use, is handed to destroy()',
 'destroy() accepts any address inside a slot, so an object that was not created by the pool releases one that is in use.',
 [('util/pool.hh', '''			if (entry.used && item == &entry.data) {
''', '''			auto *first = reinterpret_cast<unsigned char *>(&entry.data);
			auto *byte = reinterpret_cast<unsigned char *>(item);
			if (entry.used && byte >= first && byte <= first + sizeof(Entry)) {
''')], r'''
#include "util/pool.hh"
#include <cstdio>
int main() {
	cpputil::Pool<int, 4> pool;
	int *a = pool.create(), *b = pool.create();
	if (!a || !b || a == b) return 2;
	int *second = a < b ? b : a, *first = a < b ? a : b;
	if (!pool.destroy(second)) return 1;
	if (pool.destroy(second)) { printf("a released slot was released again\n"); return 1; }
	int *c = pool.create();
	if (c == first) { printf("a slot in use was given to a second owner\n"); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ wear levelling
W = 'util/wear_level.hh'
FLASH = r'''
#include "util/wear_level.hh"
#include <array>
#include <cstdio>
#include <cstring>
struct Rec {
	unsigned n = 0, sum = 0;
	bool validate() const { return n && n != 0xFFFFFFFF && sum == n * 2654435761u; }
	static Rec of(unsigned n) { return {n, n * 2654435761u}; }
};
struct Chip {
	static constexpr size_t N = 6;
	std::array<std::array<unsigned char, sizeof(Rec)>, N> cell;
	int erases = 0, writes = 0, fail_write = 0; // 1: nothing is stored, 2: half is stored
	Chip() { wipe(); }
	void wipe() { for (auto &c : cell) c.fill(0xFF); }
	bool blank(size_t i) const { if (i >= N) return false; for (auto b : cell[i]) if (b != 0xFF) return false; return true; }
	bool read(Rec *d, size_t i) { if (i >= N) return false; memcpy(d, cell[i].data(), sizeof(Rec)); return true; }
	bool write(Rec const *d, size_t i) {
		writes++;
		if (i >= N) return false;
		int f = fail_write; fail_write = 0;
		if (f == 1) return false;
		memcpy(cell[i].data(), d, f == 2 ? sizeof(Rec) / 2 : sizeof(Rec));
		return f == 0;
	}
	bool erase() { erases++; wipe(); return true; }
};
Chip chip;
struct Dyn {
	using data_t = Rec;
	static constexpr size_t NumCells = Chip::N;
	Dyn(int) {}
	bool read(Rec *d, size_t i) { return chip.read(d, i); }
	bool write(Rec const *d, size_t i) { return chip.write(d, i); }
	bool erase() { return chip.erase(); }
	bool is_writeable(size_t i) { return chip.blank(i); }
};
struct Sta {
	using data_t = Rec;
	static constexpr size_t cell_nr_ = Chip::N;
	static bool read(Rec &d, size_t i) { return chip.read(&d, i); }
	static bool write(Rec const &d, size_t i) { return chip.write(&d, i); }
	static bool erase() { return chip.erase(); }
	static bool is_writeable(size_t i) { return chip.blank(i); }
};
int zero = 0;
'''
seed('w01-gives-up-searching', 'W01', 'four failed saves in a row after the last good one, then a load',
 'Loading looks at the last four cells only: after four failed writes the saved record is no longer found.',
 [(W, """			if (Storage::read(data, --c) && data.validate()) {
				return true;
			}
""", """			if (Storage::read(data, --c) && data.validate()) {
				return true;
			}
			if (cell_ - c >= 4)
				break;
""")], FLASH + r"""
int main() {
	for (int failures = 0; failures < 5; failures++) {
		chip = Chip{};
		WearLevel<Sta> w;
		if (!w.write(Rec::of(1))) return 1;
		for (int i = 0; i < failures; i++) { chip.fail_write = 2; w.write(Rec::of(9)); }
		Rec r;
		if (!w.read(r) || r.n != 1) { printf("the record is lost after %d failed saves\n", failures); return 1; }
	}
	return 0;
}
""")
seed('w02-cached-record', 'W02', 'a save that fails, followed by a load',
 'The last record handed to write() is remembered even when it was not stored, so a load returns a record that is nowhere in the flash.',
 [(W, '''	size_t cell_ = Storage::NumCells;
	Storage storage;

public:
	using data_t = typename Storage::data_t;
''', '''	size_t cell_ = Storage::NumCells;
	Storage storage;
	typename Storage::data_t latest_{};
	bool has_latest_ = false;

public:
	using data_t = typename Storage::data_t;
'''), (W, '''	bool read(data_t &data) {
		size_t c = cell_;
		while (c) {
			if (storage.read(&data, --c) && data.validate()) {
''', '''	bool read(data_t &data) {
		if (has_latest_) {
			data = latest_;
			return true;
		}
		size_t c = cell_;
		while (c) {
			if (storage.read(&data, --c) && data.validate()) {
'''), (W, '''		return storage.write(&data, cell_++);
''', '''		latest_ = data;
		has_latest_ = true;
		return storage.write(&data, cell_++);
''')], FLASH + r'''
int main() {
	WearLeveler<Dyn> w(zero);
	Rec r;
	if (!w.write(Rec::of(5)) || !w.read(r) || r.n != 5) return 1;
	chip.fail_write = 1;
	if (w.write(Rec::of(6))) return 1;
	if (!w.read(r) || r.n != 5) { printf("loaded record %u, which was never stored\n", r.n); return 1; }
	return 0;
}
''')
seed('w03-erase-at-bad-cell', 'W03', 'a cell left half written by a power cut, then a restart and a save',
 'A cell that cannot be written makes write() go straight to erasing the block although blank cells follow.',
 [(W, '''		while (!storage.is_writeable(cell_)) {
			cell_++;
			if (cell_ >= Storage::NumCells) {
''', '''		while (!storage.is_writeable(cell_)) {
			{
''')], FLASH + r'''
int main() {
	{
		WearLeveler<Dyn> w(zero);
		w.write(Rec::of(1));
		chip.fail_write = 2;
		w.write(Rec::of(2));
	}
	WearLeveler<Dyn> w(zero); // restart after the cut
	Rec r;
	if (!w.read(r) || r.n != 1) return 1;
	if (!w.write(Rec::of(3)) || !w.read(r) || r.n != 3) return 1;
	if (chip.erases) { printf("the block was erased with %zu blank cells left\n", Chip::N - 2); return 1; }
	return 0;
}
''')
seed('w04-count-attempts', 'W04', 'three failing saves in a row, then the flash works again',
 'After three failed writes write() gives up for good, although the flash has recovered.',
 [(W, '''		return Storage::write(data, cell_++);
''', '''		if (failures_ > 2)
			return false;
		const bool ok = Storage::write(data, cell_++);
		failures_ = ok ? 0 : failures_ + 1;
		return ok;
'''), (W, '''	size_t cell_ = Storage::cell_nr_;
''', '''	size_t cell_ = Storage::cell_nr_;
	unsigned failures_ = 0;
''')], FLASH + r'''
int main() {
	WearLevel<Sta> w;
	if (!w.write(Rec::of(1))) return 1;
	for (int i = 0; i < 4; i++) { chip.fail_write = 2; if (w.write(Rec::of(9))) return 1; }
	chip.fail_write = 0;
	Rec r;
	if (!w.write(Rec::of(2)) || !w.read(r) || r.n != 2) { printf("saving never works again after four failures\n"); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ stream
D = 'util/doublebuf_stream.hh'
seed('d01-spurious-done', 'D01', 'a chained transmission that the hardware refused to start, then a completion callback while nothing is in flight',
 'A completion without a transmission clears the second buffer, and with it accepted data still waiting after a refused start.',
 [(D, '''		if (!in_progress_idx.has_value()) {
			dbs_pr_err("MIDI Host internal error: tx_done_callback called but no buffer is in progress\\n");
			return;
		}

		tx_buffer[in_progress_idx.value()].clear();
''', '''		const auto done_idx = in_progress_idx.value_or(1);
		in_progress_idx = done_idx;
		tx_buffer[done_idx].clear();
''')], r'''
#include "util/doublebuf_stream.hh"
#include <cstdio>
#include <vector>
int main() {
	std::vector<int> sent;
	bool refuse = false;
	DoubleBufferStream<int, 8> s{[&](std::span<int> d) {
		if (refuse) return false;
		sent.insert(sent.end(), d.begin(), d.end());
		return true;
	}};
	auto tx = [&](int v) { std::vector<int> d{v}; return s.transmit(d); };
	std::vector<int> accepted;
	for (int i = 1; i < 3; i++) if (tx(i)) accepted.push_back(i); // 1 in flight, 2 queued
	refuse = true;
	s.tx_done_callback(); // the hardware refuses 2 for now
	s.tx_done_callback(); // a stray interrupt
	refuse = false;
	for (int i = 3; i < 6; i++) if (tx(i)) accepted.push_back(i);
	for (int i = 0; i < 6; i++) s.tx_done_callback();
	for (int i = 6; i < 8; i++) { if (tx(i)) accepted.push_back(i); s.tx_done_callback(); }
	if (sent != accepted) { printf("%zu of %zu accepted items were sent\n", sent.size(), accepted.size()); return 1; }
	return 0;
}
''')
seed('d02-start-when-full', 'D02', 'a message that fills the waiting buffer exactly while a transmission is in flight',
 'A waiting buffer that becomes full is started at once, although the previous transmission has not completed.',
 [(D, '''			if (!in_progress_idx.has_value()) {
				// pr_dbg("DBS::transmit(): no tx in progress, so starting now\\n");
''', '''			if (!in_progress_idx.has_value() || inactive_buf.available() == 0) {
				// pr_dbg("DBS::transmit(): no tx in progress, so starting now\\n");
''')], r'''
#include "util/doublebuf_stream.hh"
#include <cstdio>
#include <vector>
int main() {
	int in_flight = 0, most = 0;
	DoubleBufferStream<int, 8> s{[&](std::span<int> d) {
		most = std::max(most, ++in_flight);
		return true;
	}};
	for (size_t n = 1; n <= 8; n++) {
		std::vector<int> one{1}, d(n, 2);
		s.transmit(one);
		s.transmit(d);
		while (in_flight) { in_flight--; s.tx_done_callback(); }
	}
	if (most > 1) { printf("%d transmissions in flight\n", most); return 1; }
	return 0;
}
''')
seed('d03-space-off-by-one', 'D03', 'messages that together fill the waiting buffer exactly',
 'A message that would fill the waiting buffer exactly is rejected although it fits, unless it is the first.',
 [(D, '''		if (inactive_buf.available() >= word.size()) {
''', '''		if (inactive_buf.size() ? inactive_buf.available() > word.size() : inactive_buf.available() >= word.size()) {
''')], r'''
#include "util/doublebuf_stream.hh"
#include <cstdio>
#include <vector>
int main() {
	DoubleBufferStream<int, 8> s{[&](std::span<int> d) { return true; }};
	std::vector<int> d(8, 1);
	std::span<int> sp{d};
	if (!s.transmit(sp.first(1))) return 1;
	if (!s.transmit(sp.first(5))) return 1;
	if (!s.transmit(sp.first(3))) { printf("3 items rejected with room for 3\n"); return 1; }
	if (s.transmit(sp.first(1))) return 1;
	return 0;
}
''')
# ------------------------------------------------------------------ timers
seed('t01-catch-up', 'T01', 'a late poll followed by polls less than a period later',
 'A late poll does not restart the period, so the event fires again before a full period has passed since the last time.',
 [('util/poll_event.hh', '''			last_poll = now;
			action();
''', '''			// Keep the phase, unless whole periods were missed
			const TimeT late = now - last_poll;
			last_poll = late < TimeT(2 * period) ? TimeT(last_poll + period) : now;
			action();
''')], r'''
#include "util/poll_event.hh"
#include <cstdio>
#include <initializer_list>
int main() {
	for (unsigned start : {100u, 0xFFFFFFF0u}) {
		PollEvent<unsigned> e{10};
		unsigned fired = 0, last = 0;
		e.poll(start, [&] { fired++; });
		last = start;
		for (unsigned late : {0u, 3u, 7u, 9u}) {
			unsigned t = last + 10 + late;
			unsigned f = fired;
			e.poll(t, [&] { fired++; });
			if (fired != f + 1) return 1;
			for (unsigned k = 1; k < 10; k++) {
				e.poll(t + k, [&] { fired++; });
				if (fired != f + 1) { printf("fired again %u ticks after it fired, period 10\n", k); return 1; }
			}
			last = t;
		}
	}
	return 0;
}
''')
seed('t02-schedule-catches-up', 'T02', 'a poll that comes several periods late, with a state function',
 'The next sample is due relative to the missed schedule, so after a pause every poll samples until the schedule is caught up.',
 [('util/poll_change.hh', '''			last_update_time = now;

			bool state = state_func();
''', '''			last_update_time = now - last_update_time > 64 * update_ticks ? now : last_update_time + update_ticks;

			bool state = state_func();
''')], r'''
#include "util/poll_change.hh"
#include <cstdio>
int main() {
	PollChange p{10};
	int samples = 0;
	auto f = [&] { samples++; return true; };
	p.poll(1000, f);
	p.poll(1010, f);
	int s = samples;
	p.poll(1055, f); // late
	if (samples != s + 1) return 1;
	for (unsigned t = 1056; t < 1065; t++) p.poll(t, f);
	if (samples != s + 1) { printf("sampled %d times within one period\n", samples - s); return 1; }
	p.poll(1065, f);
	return samples != s + 2;
}
''')
seed('t03-slow-rate', 'T03', 'an update rate below one per second',
 'Rates below 1 Hz are ignored, so a pulse lasts the wrong number of updates.',
 [('util/oscs.hh', '''		if (hz > 0)
			increment_ = 1.f / hz;
	}

private:
	float increment_;
	float pulse_width_;''', '''		if (hz >= 1)
			increment_ = 1.f / hz;
	}

private:
	float increment_;
	float pulse_width_;''')], r'''
#include "util/oscs.hh"
#include <cstdio>
int main() {
	OneShot o{10.f};
	o.set_update_rate_hz(0.5f); // one update every two seconds
	o.start(8.f);
	int n = 0;
	while (o.update() && n < 1000) n++;
	if (n != 4) { printf("8 seconds at one update every 2 seconds lasted %d updates\n", n); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ interpolation
seed('i01-clear-after-reading', 'I01', 'the interrupt announces a new reading while the readings are being taken',
 'The announcement is cleared once more after the readings were taken, so one that arrives meanwhile is lost.',
 [('util/filtered_interp_array.hh', """			_update_count = 0;
		}
""", """			_update_count = 0;
			_new_data_ready = false;
		}
""")], r"""
#include "util/filtered_interp_array.hh"
#include <cstdio>
struct Pass { float add_val(float v) { return v; } };
int main() {
	FilteredInterpArray<2, Pass> a;
	int reads = 0;
	float value = 1;
	a.mark_new_data_ready();
	a.add_new_readings([&](unsigned i) {
		reads++;
		if (i == 1) { value = 2; a.mark_new_data_ready(); } // interrupt
		return value;
	});
	a.get_interp_values([](unsigned, float) {});
	a.add_new_readings([&](unsigned) { reads++; return value; });
	if (reads != 4) { printf("an announced reading was not taken\n"); return 1; }
	return 0;
}
""")
seed('i02-count-saturates', 'I02', 'a reading period that is longer than the one before',
 'Counting the outputs stops when the target is reached, so ramps become shorter but never longer: after a slow reading the next ramp arrives too early.',
 [('util/filtered_interp_array.hh', """		_update_count++;

		bool did_overshoot""", """		if (_update_count < _num_updates)
			_update_count++;

		bool did_overshoot""")], r"""
#include "util/filtered_interp_array.hh"
#include <cmath>
#include <cstdio>
struct Pass { float add_val(float v) { return v; } };
int main() {
	FilteredInterpArray<1, Pass> a;
	a.set_num_updates(4);
	float v = 0, prev = 0;
	auto out = [&](unsigned, float x) { prev = v; v = x; };
	auto reading = [&](float x) { a.mark_new_data_ready(); a.add_new_readings([&](unsigned) { return x; }); };
	reading(8);
	for (int i = 0; i < 8; i++) a.get_interp_values(out);
	if (v != 8) return 1;
	reading(16); // 8 outputs per reading now
	for (int i = 0; i < 8; i++) {
		a.get_interp_values(out);
		if (std::fabs((v - prev) - 1.f) > 1e-3f) { printf("a step of %f instead of 1\n", v - prev); return 1; }
	}
	return v != 16;
}
""")
# ------------------------------------------------------------------ record format
PA = 'util/compact_binary_parser.hh'
seed('b02-header-cut', 'B02', 'a record that ends inside a field header',
 'A header is read although only part of it is there: bytes beyond the record are read.',
 [(PA, 'while (parsing.size() >= sizeof(Header)) {', 'while (parsing.size() > sizeof(KeyT)) {')], r'''
#include "util/compact_binary_parser.hh"
#include <cstdio>
#include <memory>
#include <vector>
int main() {
	// key 1, size 2, two bytes; then key 2 and half of its size
	std::vector<uint8_t> full{1, 0, 2, 0, 0xAA, 0xBB, 2, 0, 2, 0, 0xCC, 0xDD};
	for (size_t n = 0; n <= full.size(); n++) {
		std::unique_ptr<uint8_t[]> p{new uint8_t[n]}; // exact size: the sanitizer reports any access beyond
		std::copy(full.begin(), full.begin() + n, p.get());
		CompactBinaryParser<uint16_t> c{std::span<const uint8_t>{p.get(), n}};
		auto a = c.get<uint16_t>(1), b = c.get<uint16_t>(2);
		if (a.has_value() != (n >= 6) || b.has_value() != (n >= 12)) { printf("cut after %zu bytes: wrong fields\n", n); return 1; }
	}
	return 0;
}
''', '-O1 -fsanitize=address -static-libasan')
seed('b01-last-key-character', 'B01', 'two text keys of full length that differ in the last character',
 'The last character of a text key is taken for a terminator and not compared: a lookup gives the value of another key.',
 [(PA, "cmp = compare_nullterm_array(header.key, key, sizeof(KeyT));", "cmp = compare_nullterm_array(header.key, key, sizeof(KeyT) - 1);")], r"""
#include "util/compact_binary_parser.hh"
#include <cstdio>
int main() {
	const uint8_t blob[] = {'t', 'r', 'k', '1', 1, 5, 't', 'r', 'k', '2', 1, 6};
	CompactBinaryParser<char[4], uint8_t> c{std::span<const uint8_t>{blob}};
	char x[4] = {'t', 'r', 'k', '1'}, y[4] = {'t', 'r', 'k', '2'}, z[4] = {'t', 'r', 'k', '3'};
	auto v = c.get<uint8_t>(x), w = c.get<uint8_t>(y), u = c.get<uint8_t>(z);
	if (!v || *v != 5 || !w || *w != 6 || u) { printf("a lookup gave the value of another key\n"); return 1; }
	return 0;
}
""")
seed('b03-size-after-overflow', 'B03', 'an object whose contents do not fit into the buffer',
 'When the buffer runs out inside an object, the size stored for it counts only what fitted, so the outputs of the writers differ.',
 [('util/compact_binary_writer.hh', '''			auto data_size = static_cast<DataSizeT>(pos - data_start);
''', '''			auto data_end = pos < buf.size() ? pos : buf.size();
			auto data_size = static_cast<DataSizeT>(data_end > data_start ? data_end - data_start : 0);
''')], r'''
#include "util/compact_binary_writer.hh"
#include <cstdio>
#include <vector>
int main() {
	std::vector<uint8_t> big(64), small(64);
	auto fill = [](CompactBinaryWriter<uint16_t> &w) {
		w.begin_object(7);
		w.field(1, uint32_t(0x11223344));
		w.field(2, uint32_t(0x55667788));
		w.end_object();
	};
	CompactBinaryWriter<uint16_t> w{std::span<uint8_t>{big}};
	fill(w);
	for (size_t n = 0; n <= w.size(); n++) {
		CompactBinaryWriter<uint16_t> c{std::span<uint8_t>{small.data(), n}};
		fill(c);
		if (c.size() != w.size()) return 1;
		for (size_t i = 0; i < n; i++)
			if (small[i] != big[i]) { printf("byte %zu differs in a buffer of %zu\n", i, n); return 1; }
	}
	return 0;
}
''')
# ------------------------------------------------------------------ inputs
seed('e01-transfer-replaces', 'E01', 'two hand-overs with an event each before the receiver asks',
 'Handing over replaces the events the receiver has not asked about yet.',
 [('util/debouncer_compact.hh', '''	void transfer_events(TogglerCompact &other) {
		update_state(other);
''', '''	void transfer_events(TogglerCompact &other) {
		copy_state(other);
''')], r'''
#include "util/debouncer_compact.hh"
#include <cstdio>
int main() {
	TogglerCompact a, b;
	a.register_rising_edge();
	b.transfer_events(a);
	a.register_falling_edge();
	b.transfer_events(a);
	if (!b.is_just_pressed() || !b.is_just_released()) { printf("an event was lost in the hand-over\n"); return 1; }
	return 0;
}
''')
seed('e02-transfer-adds-total', 'E02', 'a hand-over while motion handed over earlier has not been used yet',
 'The position advances by the whole unused motion instead of the part handed over, so it no longer agrees with the motion counted.',
 [('util/rotary_motion.hh', '''		motion += that_motion;
		abs_pos += that_motion;''', '''		motion += that_motion;
		abs_pos += motion;''')], r'''
#include "util/rotary_motion.hh"
#include <cstdio>
int main() {
	RotaryMotion a, b;
	a.motion = 3; b.transfer_motion(a);
	a.motion = 2; b.transfer_motion(a);
	if (b.motion != 5 || b.abs_pos != 5) { printf("5 detents moved the position by %d\n", b.abs_pos); return 1; }
	return 0;
}
''')
seed('e03-rearm-at-middle', 'E03', 'noise that dips below the middle of the band but not below its lower bound',
 'The trigger re-arms in the middle of the band, so noise smaller than the band triggers again.',
 [('util/schmitt_trigger.hh', '''		} else if (last_state_ && val < low) {
''', '''		} else if (last_state_ && val < low + 0.25f * (high - low)) {
''')], r'''
#include "util/schmitt_trigger.hh"
#include <initializer_list>
#include <cstdio>
int main() {
	cpputil::RisingSchmittTrigger t{0.f, 1.f};
	int n = 0;
	for (float v : {1.5f, 0.2f, 1.1f, 0.1f, 1.2f, 0.01f, 1.3f}) n += t.update(v);
	if (n != 1) { printf("triggered %d times on noise inside the band\n", n); return 1; }
	return 0;
}
''')
seed('e04-tracks-small-changes', 'E04', 'a slow drift in steps smaller than the threshold',
 'The reference value follows every reading, so a slow drift is never reported however far it goes.',
 [('util/parameter.hh', '''			val = new_val;
			changed = true;
			return true;
		} else
			return false;''', '''			val = new_val;
			changed = true;
			return true;
		} else {
			// settle on the average of small changes
			val = (val + new_val) / T(2);
			return false;
		}''')], r'''
#include "util/parameter.hh"
#include <cstdio>
int main() {
	LatchedParam<float, 1, 10> p;
	int n = 0;
	for (int i = 0; i <= 100; i++) n += p.store_changed(float(i) * 0.04f);
	if (n < 20) { printf("a drift of 4 was reported %d times with a threshold of 0.1\n", n); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ memory test
M = 'util/mem_test.hh'
seed('m01-verify-behind-writer', 'M01', 'a range in which two addresses reach the same cell',
 'Each block is verified right after it was written, so a later write that lands in it through an address fault is not seen.',
 [(M, '''			for (uint32_t *wr = start; wr < stop; wr++) {
				*wr = seed;
				seed = encode(seed);
			}
''', '''			for (uint32_t *wr = start; wr < stop; wr++) {
				*wr = seed;
				if (*static_cast<volatile uint32_t *>(wr) != seed)
					return false;
				seed = encode(seed);
			}
'''), (M, '''			for (uint32_t *rd = start; rd < stop; rd++) {
				if (*rd != seed) {
					return false;
				}
				seed = encode(seed);
			}
''', '''			// All words were verified above; the first is read again after the whole range was written
			if (start < stop && *start != seed)
				return false;
''')], r'''
#include "util/mem_test.hh"
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>
int main() {
	// three pages of addresses, the last two of which reach the same memory
	int fd = memfd_create("ram", 0);
	if (fd < 0 || ftruncate(fd, 8192)) return 0;
	auto *base = (char *)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mmap(base, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
	mmap(base + 8192, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 4096);
	auto *p = (uint32_t *)base;
	if (MemTest::check(p, p + 3 * 1024)) { printf("an address fault was not detected\n"); return 1; }
	return !MemTest::check(p, p + 2 * 1024);
}
''')
seed('m02-unrolled', 'M02', 'a range with an odd number of words',
 'The writing loop is unrolled by two and writes one word beyond a range of odd length.',
 [(M, '''			for (uint32_t *wr = start; wr < stop; wr++) {
				*wr = seed;
				seed = encode(seed);
			}
''', '''			for (uint32_t *wr = start; wr < stop; wr += 2) {
				wr[0] = seed;
				wr[1] = encode(seed);
				seed = encode(wr[1]);
			}
''')], r'''
#include "util/mem_test.hh"
#include <cstdio>
#include <vector>
int main() {
	for (int n = 0; n < 40; n++) {
		std::vector<uint32_t> v(n + 8, 0xDEADBEEF);
		if (!MemTest::check(v.data() + 4, v.data() + 4 + n)) return 1;
		for (int i = 0; i < 4; i++)
			if (v[i] != 0xDEADBEEF || v[4 + n + i] != 0xDEADBEEF) { printf("testing %d words changed a word outside\n", n); return 1; }
	}
	return 0;
}
''')
# ------------------------------------------------------------------ allocators
seed('a01-arena-sum-overflow', 'A01', 'a request so large that adding it to the used bytes overflows',
 'The bounds check adds the request to the offset, which overflows: a huge request is granted and the arena position moves backwards over live blocks.',
 [('util/monotonic_allocator.hh', '''		auto bytesRemaining = arena.size() - offset;
		if (bytesRemaining > size) {
''', '''		if (offset + size < arena.size()) {
''')], r'''
#include "util/monotonic_allocator.hh"
#include <array>
#include <cstdio>
int main() {
	std::array<uint8_t, 64> mem{};
	MonotonicAllocator a{mem};
	auto *x = a.allocate(16);
	auto *y = a.allocate(size_t(-8)); // e.g. a count that went negative
	auto *z = a.allocate(16);
	if (!x || y || !z || z < x + 16) { printf("a huge request was granted or blocks overlap\n"); return 1; }
	return 0;
}
''')
seed('a02-alignment-dropped', 'A01', 'an alignment larger than a cache line',
 'Alignments above 64 are silently reduced to 64.',
 [('util/aligned_allocator.hh', '''		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;

		void *ptr = aligned_alloc(Alignment, aligned_size);
''', '''		constexpr std::size_t align = Alignment > 64 && sizeof(T) <= 64 ? 64 : Alignment;
		std::size_t aligned_size = ((size + align - 1) / align) * align;

		void *ptr = aligned_alloc(align, aligned_size);
''')], r'''
#include "util/aligned_allocator.hh"
#include <cstdio>
#include <cstdint>
int main() {
	AlignedAllocator<char, 4096> a;
	void *keep[64];
	int bad = 0;
	for (int i = 0; i < 64; i++) { keep[i] = a.allocate(100 + i); bad += uintptr_t(keep[i]) % 4096 != 0; }
	for (int i = 0; i < 64; i++) a.deallocate((char *)keep[i], 100 + i);
	if (bad) printf("%d of 64 blocks are not aligned\n", bad);
	return bad != 0;
}
''')
# ------------------------------------------------------------------ rings and delay lines
seed('r01-discard-from-full', 'R01', 'an item is discarded from a full ring',
 'The full mark stays when an item is discarded from a full ring, so it reports a full ring and the next put drops a further item.',
 [('util/circular_buffer_opt.hh', '''		if (!empty()) {
			full_ = false;
			inc_tail();
		}''', '''		if (!empty())
			inc_tail();''')], r'''
#include "util/circular_buffer_opt.hh"
#include <cstdio>
int main() {
	CircularBufferOpt<int, 4> b;
	for (int i = 0; i < 4; i++) b.put(i);
	b.remove_first();
	if (b.full() || b.count() != 3) { printf("%zu items after discarding one of four\n", b.count()); return 1; }
	b.put(4);
	for (int i = 1; i <= 4; i++) { auto x = b.get(); if (!x || *x != i) { printf("item %d lost\n", i); return 1; } }
	return b.get().has_value();
}
''')
seed('r02-playback-restarts', 'R02', 'the drain goes on after the playback buffer has ended',
 'After one default value the playback starts over by itself.',
 [('util/input_output_buffer.hh', '''		if (full())
			return T{};

		auto t = buf_[head_];''', '''		if (full()) {
			reset();
			return T{};
		}

		auto t = buf_[head_];''')], r'''
#include "util/input_output_buffer.hh"
#include <cstdio>
int main() {
	OutputBuffer<int, 4> b;
	int i = 1;
	for (auto &x : b) x = i++;
	for (i = 1; i <= 4; i++) if (b.get() != i) return 1;
	for (i = 0; i < 8; i++) if (b.get() != 0) { printf("items are played again without a reset\n"); return 1; }
	return 0;
}
''')
seed('r03-reverse-marker', 'R03', 'a block read backwards that starts or ends exactly at the marker',
 'Reading backwards reports the marker one element late, so it is missed or reported twice when a block ends there.',
 [('util/circular_buffer_ext.hh', '''		bool was_before_marker = rd <= marker;
		bool wrapped = read_reverse(read_data);
		bool is_before_marker = rd <= marker;''', '''		bool was_before_marker = rd <= marker;
		bool wrapped = read_reverse(read_data);
		bool is_before_marker = rd < marker;''')], r'''
#include "util/circular_buffer_ext.hh"
#include <cstdio>
#include <vector>
int main() {
	std::vector<float> mem(16), blk(3);
	for (size_t marker = 0; marker < 16; marker++)
		for (size_t len = 1; len < 8; len++) {
			CircularBufferAccess<std::vector<float>> c(mem);
			blk.resize(len);
			c.rd_pos(15);
			size_t passed = 0, seen = 0;
			for (int k = 0; k < 48; k++) { // three times round
				size_t before = c.rd_pos();
				seen += c.read_reverse_check_crossed(blk, marker);
				for (size_t i = 0; i < len; i++) passed += (before + 32 - i) % 16 == (marker + 1) % 16;
				if (seen != passed) { printf("marker %zu passed %zu times, reported %zu times\n", marker, passed, seen); return 1; }
			}
		}
	return 0;
}
''')
# ------------------------------------------------------------------ containers
seed('c01-default-resize', 'C01', 'a vector that is shrunk or cleared and then grows again without a value',
 'Growing without a value shows the elements held before instead of default ones.',
 [('util/fixed_vector.hh', '''	constexpr bool resize(size_t num, T el = T{}) {
''', '''	// The elements start out value-initialized
	constexpr bool resize(size_t num) {
		return resize_for_overwrite(num);
	}

	constexpr bool resize(size_t num, T el) {
''')], r'''
#include "util/fixed_vector.hh"
#include <cstdio>
int main() {
	FixedVector<int, 6> v{1, 2, 3, 4};
	v.clear();
	v.resize(3);
	for (int x : v)
		if (x != 0) { printf("a new element is %d\n", x); return 1; }
	return 0;
}
''')
seed('c01-insert-last-place', 'C01', 'an insertion in the middle takes the last free place',
 'Inserting into the last free place shifts the elements one place too little.',
 [('util/fixed_vector.hh', '''		std::move_backward(&data[index], &data[back_idx], &data[back_idx + 1]);
''', '''		std::move_backward(&data[index], &data[back_idx], &data[std::min(back_idx + 1, MaxElements - 1)]);
''')], r'''
#include "util/fixed_vector.hh"
#include <cstdio>
int main() {
	FixedVector<int, 4> v{1, 2, 3};
	v.insert(1, 9);
	if (v.size() != 4 || v[0] != 1 || v[1] != 9 || v[2] != 2 || v[3] != 3) { printf("%d %d %d %d\n", v[0], v[1], v[2], v[3]); return 1; }
	return 0;
}
''')
seed('c02-search-stops-at-blank', 'C02', 'a key behind a removed one is looked up',
 'A look-up stops at the place of a removed entry and misses the keys behind it.',
 [('util/seq_map.hh', '''		for (size_t i = 0; auto k : active_keys) {
			if (k == key)
				return &vals[i];
			i++;
''', '''		for (size_t i = 0; auto k : active_keys) {
			if (k == key)
				return &vals[i];
			if (k == KeyT{}) // nothing was ever stored behind an unused place
				break;
			i++;
''')], r'''
#include "util/seq_map.hh"
#include <cstdio>
int main() {
	SeqMap<int, int, 4> m;
	m.insert(1, 10);
	m.insert(2, 20);
	m.insert(3, 30);
	m.remove(2);
	int *p = m.get(3);
	if (!p || *p != 30) { printf("key 3 is lost\n"); return 1; }
	return 0;
}
''')
seed('c02-stack-size-across-wrap', 'C02', 'a circular stack that has overwritten its oldest elements and was popped back across the end of its storage',
 'The size of the stack is taken from the distance to the end of its storage, which is wrong once it has wrapped around.',
 [('util/circular_stack.hh', '''			return top_idx + MaxElements - bottom_idx;
''', '''			return MaxElements - bottom_idx;
''')], r'''
#include "util/circular_stack.hh"
#include <cstdio>
int main() {
	CircularStack<int, 4> s;
	for (int i = 1; i <= 7; i++) s.push_back(i); // holds 4 5 6 7
	s.pop_back(); // holds 4 5 6
	if (s.size() != 3) { printf("size %zu instead of 3\n", s.size()); return 1; }
	return 0;
}
''')
seed('c03-calls-a-copy', 'C03', 'a callable that changes its own captured state is called twice',
 'Each call runs on a copy of the stored callable, so its state never changes.',
 [('util/callable.hh', '''		Callable &callable = *reinterpret_cast<Callable *>(object);
		if constexpr''', '''		auto callable = *reinterpret_cast<Callable *>(object);
		if constexpr''')], r'''
#include "util/callable.hh"
#include <cstdio>
int main() {
	Function<int()> f{[n = 0]() mutable { return ++n; }};
	f();
	int x = f();
	if (x != 2) { printf("the second call gives %d\n", x); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ filters
seed('f01-reset-in-mid-block', 'F01', 'an oversampler is reset while a block is running',
 'After a reset in mid-block the next block ends early, so its average is too small.',
 [('util/filter.hh', '''	void reset() {
		buff_ = 0;
		val_ = 0;
		idx_ = 0;
	}
''', '''	void reset() {
		buff_ = 0;
		val_ = 0;
	}
''')], r'''
#include <cmath>
#include <array>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include "util/filter.hh"
#include <cstdio>
int main() {
	ResizingOversampler f{4};
	f.add_val(6.f);
	f.add_val(6.f);
	f.reset();
	for (int i = 0; i < 4; i++) f.add_val(6.f);
	if (f.val() != 6.f) { printf("the average of sixes is %g\n", f.val()); return 1; }
	return 0;
}
''')
seed('f01-sum-in-value-type', 'F01', 'full-scale readings in a narrow type',
 'The running sum is kept in the type of the readings and overflows when they are large.',
 [('util/filter.hh', '''	AccumT sum_ = 0;
	std::array<T, Size> buff_{};
''', '''	T sum_ = 0;
	std::array<T, Size> buff_{};
''')], r'''
#include <cmath>
#include <array>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include "util/filter.hh"
#include <cstdio>
int main() {
	MovingAverage<64, uint16_t, 12> f;
	unsigned v = 0;
	for (int i = 0; i < 64; i++) v = f.add_val(4095);
	if (v != 4095) { printf("the average of full-scale readings is %u\n", v); return 1; }
	return 0;
}
''')
seed('f02-band-in-whole-steps', 'F02', 'a hysteresis band that is a fraction',
 'The band is rounded down to a whole number.',
 [('util/filter.hh', '''		constexpr float const flat = float(Numerator) / float(Divisor);
''', '''		constexpr float const flat = static_cast<float>(Numerator / Divisor);
''')], r'''
#include <cmath>
#include <array>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include "util/filter.hh"
#include <cstdio>
int main() {
	HysteresisFilter<5, 2> f;
	f.add_val(10.f);
	float y = f.val();
	f.add_val(y + 2.4f);
	if (f.val() != y) { printf("noise within the band moves the output by %g\n", f.val() - y); return 1; }
	return 0;
}
''')
seed('f03-falling-signal', 'F03', 'a signal whose first readings fall, before any reset',
 'A reading that is a new minimum is not considered as a maximum, so a falling signal has none.',
 [('util/analyzed_signal.hh', '''		if (newval > max)
			max = newval;
		iir''', '''		else if (newval > max)
			max = newval;
		iir''')], r'''
#include "util/analyzed_signal.hh"
#include <initializer_list>
#include <cstdio>
int main() {
	AnalyzedSig s{0.5f};
	for (float v : {3.f, 2.f, 1.f}) s.update(v);
	if (s.max != 3.f) { printf("the maximum is %g\n", s.max); return 1; }
	return 0;
}
''')
# ------------------------------------------------------------------ oscillators and LEDs
seed('l01-peak-glitch', 'L01', 'the phase is exactly one step below half a cycle',
 'At one phase value the triangle drops from its peak to zero.',
 [('util/oscs.hh', '''		return (phase_ > max_ / 2) ? (max_ - phase_ * 2) : (phase_ * 2);
''', '''		return (phase_ < max_ / 2) ? (phase_ * 2) : (max_ - phase_ * 2);
''')], r'''
#include "util/oscs.hh"
#include <cstdio>
int main() {
	TriangleOscillator<1000> o;
	for (uint32_t p = 0x7ffffff0; p != 0x80000010; p++) {
		o.set_phase(p);
		if (o.val() < 0xffffff00) { printf("at phase %x the triangle is at %x\n", p, o.val()); return 1; }
	}
	return 0;
}
''')
seed('l01-stop-rewinds', 'L01', 'an oscillator is stopped in mid-cycle and started again',
 'Stopping a ramp loses its phase.',
 [('util/oscs.hh', '''	float process_float() {
		return static_cast<float>(process()) * _to_float_convert;
	}

	void set_frequency(uint32_t freq) {
		increment_ = freq * freq_units;
''', '''	float process_float() {
		return static_cast<float>(process()) * _to_float_convert;
	}

	void set_frequency(uint32_t freq) {
		if (freq == 0)
			phase_ = 0;
		increment_ = freq * freq_units;
''')], r'''
#include "util/oscs.hh"
#include <cstdio>
int main() {
	RampOscillator<1000> o{100};
	for (int i = 0; i < 3; i++) o.update();
	uint32_t v = o.val();
	o.set_frequency(uint32_t(0));
	o.update();
	if (o.val() != v) { printf("stopping moved the ramp from %x to %x\n", v, o.val()); return 1; }
	return 0;
}
''')
seed('l02-flash-after-fade', 'L02', 'a flash follows a fade',
 'A flash after a fade fades too.',
 [('util/rgbled.hh', '''		do_smooth_fade_ = false;
	}
''', '''	}
''')], r'''
#include "util/rgbled.hh"
#include <cstdio>
struct Led { int *v; void set(uint8_t x) { *v = x; } void set(uint8_t x) const { *v = x; } };
int main() {
	int r = 0, g = 0, b = 0;
	RgbLed<Led, 1000> l{Led{&r}, Led{&g}, Led{&b}};
	l.fade_once_ms(Colors::white, 100);
	for (int i = 0; i < 300; i++) l.update_animation();
	l.flash_once_ms(Colors::white, 1000);
	for (int i = 0; i < 700; i++) l.update_animation();
	if (r < 250) { printf("a flash has faded to %d\n", r); return 1; }
	return 0;
}
''')
seed('l02-breathing-held-by-flash', 'L02', 'a flash during breathing',
 'Breathing stands still during a flash and goes on late.',
 [('util/rgbled.hh', '''	void update_oscillators() {
		fader_.update();
		flasher_.update();
	}
''', '''	void update_oscillators() {
		if (flasher_.val() == 0)
			fader_.update();
		flasher_.update();
	}
''')], r'''
#include "util/rgbled.hh"
#include <cstdio>
struct Led { int *v; void set(uint8_t x) { *v = x; } void set(uint8_t x) const { *v = x; } };
int main() {
	int r = 0, g = 0, b = 0;
	RgbLed<Led, 1000> l{Led{&r}, Led{&g}, Led{&b}};
	for (int i = 0; i < 3000; i++) l.update_animation();
	l.breathe(Colors::white, 1.f); // peaks after half a second
	l.flash_once_ms(Colors::blue, 250);
	for (int i = 0; i < 500; i++) l.update_animation();
	if (r < 240) { printf("half a second into a breath of one second the LED is at %d\n", r); return 1; }
	return 0;
}
''')
seed('s01-shared-digits', 'S01', 'an interrupt prints a number on the same console between two digits of another number',
 'The rest of the interrupted number is wrong.',
 [('util/print.hh', '''	unsigned uval;
	if (val < 0) {
''', '''	static unsigned uval;
	if (val < 0) {
''')], r'''
#include "util/print.hh"
#include <cstdio>
#include <string>
std::string got;
bool irq = false;
void putc_(const char c) {
	if (irq) return; // what the interrupt prints
	got += c;
	if (got.size() == 2) {
		irq = true;
		print<putc_>(7);
		irq = false;
	}
}
int main() {
	print<putc_>(123456);
	if (got != "123456") { printf("123456 came out as %s\n", got.c_str()); return 1; }
	return 0;
}
''')
seed('s02-terminates-early', 'S02', 'a string copied onto itself',
 'Copying a string to itself leaves its first character only.',
 [('util/static_string.hh', '''			_data[i] = *s;
			i++;
			s++;
		}
		_data[i] = '\\0';
''', '''			_data[i] = *s;
			i++;
			s++;
			_data[i] = '\\0'; // never without an end
		}
		_data[i] = '\\0';
''')], r'''
#include "util/static_string.hh"
#include <cstdio>
#include <cstring>
int main() {
	StaticString<10> s{"hello"};
	s.copy(s.c_str());
	if (strcmp(s.c_str(), "hello")) { printf("hello copied onto itself is %s\n", s.c_str()); return 1; }
	return 0;
}
''')
seed('k01-reset-keeps-points', 'K01', 'a single measurement after a reset that follows two',
 'A slope and offset are computed from a measurement made before the reset.',
 [('util/voct_calibrator.hh', '''		measured_C0_ = false;
		num_datapt_ = 0;
''', '''		measured_C0_ = false;
''')], r'''
#include "util/voct_calibrator.hh"
#include <cstdint>
#include <cstdio>
int main() {
	using V = VoctCalibrator<int32_t>;
	V v;
	v.record_measurement(V::C1, 1000);
	v.record_measurement(V::C2, 2000);
	v.reset();
	v.record_measurement(V::C4, 7000);
	if (v.slope() != 0 || v.offset() != 0) { printf("one measurement after a reset gives slope %d offset %d\n", v.slope(), v.offset()); return 1; }
	return 0;
}
''')
seed('k01-base-note-once', 'K01', 'the lowest note is measured again',
 'A second measurement of the lowest note does not correct the offset.',
 [('util/voct_calibrator.hh', '''		if (note == Note::C0) {
''', '''		if (note == Note::C0 && !measured_C0_) {
''')], r'''
#include "util/voct_calibrator.hh"
#include <cstdint>
#include <cstdio>
int main() {
	using V = VoctCalibrator<int32_t>;
	V v;
	v.record_measurement(V::C0, 900); // cable was not in
	v.record_measurement(V::C0, 20);
	v.record_measurement(V::C2, 2020);
	if (v.offset() != 20) { printf("offset %d instead of 20\n", v.offset()); return 1; }
	return 0;
}
''')
seed('n01-scaled-in-single-precision', 'N01', 'the generator delivers one of its largest outputs',
 'A whole number equal to the upper bound comes out although the generator is below its maximum.',
 [('util/math.hh', '''	return map_value<int, long, T>(std::rand(), 0, RAND_MAX, minNum, maxNum);
''', '''	return static_cast<T>(minNum + (maxNum - minNum) * (std::rand() / static_cast<float>(RAND_MAX)));
''')], r'''
#include <cstdlib>
#include "util/math.hh"
#include <cstdio>
int next;
extern "C" int rand(void) { return next; }
int main() {
	next = RAND_MAX - 20;
	int x = MathTools::randomNumber<int>(0, 6);
	if (x != 5) { printf("number %d below 6 expected\n", x); return 1; }
	return 0;
}
''')
seed('e03-feedback-scaled', 'E03', 'thresholds away from one',
 'The gate with feedback goes off above its lower threshold.',
 [('util/math.hh', '''	return (new_input + last_output * feedback_coef) > thresh ? 1.f : 0.f;
''', '''	return (new_input * (1.f + last_output * feedback_coef)) > thresh ? 1.f : 0.f;
''')], r'''
#include "util/math.hh"
#include <cstdio>
int main() {
	float out = 0.f;
	out = MathTools::hysteresis_feedback(0.1f, 0.5f, out, 0.6f);
	out = MathTools::hysteresis_feedback(0.1f, 0.5f, out, 0.43f);
	if (out != 1.f) { printf("the gate went off at 0.43, above 0.4\n"); return 1; }
	return 0;
}
''')
seed('p01-clear-frees-first', 'P01', 'another user takes a place while the pool is being cleared',
 'Clearing frees a place before blanking it, so the next owner of the place loses what it put there.',
 [('util/thread_safe_pool.hh', '''			data[i] = T{};
			used_flags[i].store(false, std::memory_order_release);
''', '''			used_flags[i].store(false, std::memory_order_release);
			data[i] = T{};
''')], r'''
#include "util/thread_safe_pool.hh"
#include <cstdio>
struct Item;
void (*while_blanking)();
struct Item {
	int v = 0;
	Item() = default;
	Item &operator=(const Item &o) {
		if (auto f = while_blanking) {
			while_blanking = nullptr;
			f(); // another user, at this moment
		}
		v = o.v;
		return *this;
	}
};
cpputil::ThreadSafePool<Item, 4> pool;
int mine = -1;
int main() {
	for (int i = 0; i < 4; i++)
		pool.create();
	while_blanking = [] {
		if (auto i = pool.create()) {
			mine = int(*i);
			pool[*i].v = 42;
		}
	};
	pool.clear();
	if (mine >= 0 && pool[mine].v != 42) { printf("place %d was taken and filled with 42, but holds %d\n", mine, pool[mine].v); return 1; }
	return 0;
}
''')
seed('q03-skip-to-newest', 'Q03', 'the reader skips everything that is stored',
 'Skipping to the newest element (offset 0) does nothing, and what was to be dropped is read.',
 [('util/lockfree_fifo_spsc.hh', '''		if (offset <= head)
''', '''		if (offset - 1 < head)
''')], r'''
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <optional>
#include <span>
#include "util/lockfree_fifo_spsc.hh"
#include <cstdio>
int main() {
	LockFreeFifoSpsc<int, 8> q;
	for (int i = 0; i < 5; i++)
		q.put(i);
	q.set_read_offset(2);
	if (q.num_filled() != 2) { printf("%zu left instead of 2\n", q.num_filled()); return 1; }
	q.set_read_offset(0);
	if (q.num_filled() != 0) { printf("%zu left after skipping all\n", q.num_filled()); return 1; }
	return 0;
}
''')
seed('i02-one-output', 'I02', 'an update is to take a single output',
 'A value to be reached in one output is not reached: the previous step goes on.',
 [('util/interp_param.hh', '''		if (num_updates > 0) {
			T d = new_val - cur_val;
			step_size = d / T(num_updates);
''', '''		if (num_updates > 1) {
			T d = new_val - cur_val;
			step_size = d / T(num_updates);
''')], r'''
#include "util/interp_param.hh"
#include <cstdio>
int main() {
	InterpParamVar<float> p;
	p.set_new_value(8.f, 4);
	for (int i = 0; i < 4; i++)
		p.next();
	p.set_new_value(3.f, 1);
	float x = p.next();
	if (x != 3.f) { printf("%g instead of 3\n", x); return 1; }
	return 0;
}
''')
seed('e01-steady-count-wraps', 'E01', 'the input rests for more than 65535 readings',
 'The count of readings since the last edge starts over after 65536 readings.',
 [('util/debouncer.hh', '''	unsigned steady_state_ctr = 0;

private:
	unsigned debounce_state_ = 0;
''', '''	uint16_t steady_state_ctr = 0;

private:
	unsigned debounce_state_ = 0;
''')], r'''
#include "util/debouncer.hh"
#include <cstdio>
int main() {
	DebouncerCounter<> d;
	for (int i = 0; i < 40; i++)
		d.register_state(1);
	unsigned first = d.steady_state_ctr;
	for (int i = 0; i < 70000; i++)
		d.register_state(1);
	if (d.steady_state_ctr != first + 70000) { printf("%u readings instead of %u\n", unsigned(d.steady_state_ctr), first + 70000); return 1; }
	return 0;
}
''')
seed('r01-playback-position-cut', 'R01', 'a ring of more than 65536 places, positioned beyond the 65536th',
 'Positioning the write head of a large ring loses the upper part of the position.',
 [('util/circular_buffer_opt.hh', '''	void set_head(size_t head) {
''', '''	void set_head(uint16_t head) {
''')], r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <mutex>
#include "util/circular_buffer_opt.hh"
#include <cstdio>
CircularBufferOpt<int, 131072> ring;
int main() {
	ring.set_head(100000);
	if (ring.get_head_idx() != 100000) { printf("head at %zu instead of 100000\n", size_t(ring.get_head_idx())); return 1; }
	return 0;
}
''')
seed('f01-long-block-cut', 'F01', 'a block of more than 65535 readings',
 'The resizing oversampler averages blocks of the wrong length.',
 [('util/filter.hh', '''	unsigned idx_ = 0;
	unsigned size_ = 1;
''', '''	unsigned idx_ = 0;
	uint16_t size_ = 1;
''')], r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include "util/filter.hh"
#include <cstdio>
int main() {
	ResizingOversampler f;
	f.set_size(70000);
	for (int i = 0; i < 69999; i++)
		if (f.add_val(1.f) != 0.f) { printf("a block of 70000 ended after %d readings\n", i + 1); return 1; }
	if (f.add_val(1.f) != 1.f) { printf("no block after 70000 readings\n"); return 1; }
	return 0;
}
''')
seed('t02-second-change-cancels', 'T02', 'the state changes twice before the change is taken, in the deferred form',
 'Two changes between looks are reported as none.',
 [('util/poll_change.hh', '''			bool state = state_func();
			if (current_state != state) {
				current_state = state;
				change_detected = true;
''', '''			bool state = state_func();
			if (current_state != state) {
				current_state = state;
				change_detected = !change_detected;
''')], r'''
#include "util/poll_change.hh"
#include <cstdio>
int main() {
	PollChange p{10};
	bool state = true;
	p.poll(100, [&] { return state; });
	state = false;
	p.poll(200, [&] { return state; });
	if (!p.take_change()) { printf("two changes, none reported\n"); return 1; }
	return 0;
}
''')
seed('e03-rise-keeps-old-fall', 'E03', 'a fall nobody looked at is followed by a rise',
 'After a rise the older fall is still reported.',
 [('util/schmitt_trigger.hh', '''			register_rising_edge();
''', '''			is_high_ = true;
			got_rising_edge_ = true;
''')], r'''
#include "util/schmitt_trigger.hh"
#include <cstdio>
int main() {
	cpputil::SchmittTrigger t;
	t.process(1.f);
	t.just_went_high();
	t.process(0.f);
	t.process(1.f);
	if (t.just_went_low()) { printf("a fall is reported although the input rose since\n"); return 1; }
	if (!t.just_went_high()) { printf("the rise is not reported\n"); return 1; }
	return 0;
}
''')
