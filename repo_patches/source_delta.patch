From 689320010642359796f6be1f483313b51ef3cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 01/33] fix: LockFreeFifoSpsc: consumer must acquire the write
 position before reading an item

put() publishes an item by a release store of head_, but get()/get_move()
loaded head_ relaxed, so on a weakly ordered core the item could be read
before it had been written.
---
 util/lockfree_fifo_spsc.hh     | 4 ++--
 util/lockfree_fifo_spsc_dyn.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..3c822d2 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -66,7 +66,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -80,7 +80,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..9f7763d 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
-- 
2.43.0


From b86c54fd7d5f015fac6eb3dc8dc30c62b198698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 02/33] fix: LockFreeFifoSpsc: reset() must release the read
 position

The producer may refill a place as soon as it sees the new read position, so
the store has to be ordered after the consumer's earlier reads of that place.
---
 util/lockfree_fifo_spsc.hh     | 2 +-
 util/lockfree_fifo_spsc_dyn.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 3c822d2..25ea148 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -128,7 +128,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_acquire), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index 9f7763d..d1d60d8 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_acquire), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From 275402b2984ad0b2745df1feac2a0f2a0e4bb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 03/33] fix: LockFreeFifoSpsc: copy all elements when
 preloading from a span

memcpy was given the number of elements instead of bytes.
---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 25ea148..b361347 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <optional>
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From e4ab55f6a71b9450524339cc995d2c1461b76cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 04/33] fix: LockFreeFifoSpscDyn: stay consistent if shrinking
 runs out of memory

resize() released the buffer before allocating the smaller one; if that
allocation threw, max_size_ still described the released buffer and put()/get()
accessed it out of bounds. With max_size_ zero put() reports full and get()
reports empty until a resize succeeds.
---
 util/lockfree_fifo_spsc_dyn.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index d1d60d8..3b2b003 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -39,6 +39,7 @@ public:
 			if (new_max_size < max_size_) {
 				// Deallocate the buffer to force shrink to fit
 				std::vector<T>().swap(buf_);
+				max_size_ = 0;
 			}
 
 			buf_.resize(new_max_size);
-- 
2.43.0


From e92356fc55058399d1a00675299da9b97f0fe002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/33] fix: WearLevel(er)::read: do not validate data that
 could not be read

When the storage read failed, the caller's previous contents (or a cell above)
were validated and returned as the stored record.
---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From 9ffb25575acd32d7beffd87e27c2b0645d2af0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 06/33] fix: WearLeveler::write: keep the stored records
 reachable when an erase fails

A failed erase moved the write position to cell 0, so read() found nothing
although the block still held the last record, and after a partial erase a later
record could be written below an older one that then hides it after a restart.
---
 util/wear_level.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..00c424a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -64,7 +64,7 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
-- 
2.43.0


From 8e0e4b4bcefe9af1597599e64cf5b852ecac64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 07/33] fix: DoubleBufferStream: recover when a transmission
 fails to start

When transmit_func returned false the buffer stayed marked as in progress, so no
completion ever came and the stream was stuck for good; the rejected message also
stayed queued. Data accepted earlier is kept and sent first by the next transmit().
---
 util/doublebuf_stream.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/util/doublebuf_stream.hh b/util/doublebuf_stream.hh
index 0fbd8aa..0f6bf25 100644
--- a/util/doublebuf_stream.hh
+++ b/util/doublebuf_stream.hh
@@ -44,6 +44,13 @@ struct DoubleBufferStream {
 
 	// Pushes to the inactive buffer and starts transmission if it's not already started
 	bool transmit(std::span<T> word) {
+		// If an earlier start failed, its data is still waiting and must go first
+		if (!in_progress_idx.has_value()) {
+			auto pending_idx = tx_buffer[0].size() ? 0u : 1u;
+			if (tx_buffer[pending_idx].size() && !start_tx(pending_idx))
+				return false;
+		}
+
 		auto inactive_idx = 1 - in_progress_idx.value_or(1);
 		auto &inactive_buf = tx_buffer[inactive_idx];
 
@@ -56,7 +63,11 @@ struct DoubleBufferStream {
 			// Start a new transmission if one isn't in progress
 			if (!in_progress_idx.has_value()) {
 				// pr_dbg("DBS::transmit(): no tx in progress, so starting now\n");
-				return start_tx(inactive_idx);
+				if (!start_tx(inactive_idx)) {
+					// Rejected: it will not be sent later
+					inactive_buf.clear();
+					return false;
+				}
 			}
 
 			// tx_done_callback() will transmit our data when it's called
@@ -94,6 +105,8 @@ private:
 		// pr_dbg("DBS::start_tx(): starting tx of buffer[%u]\n", idx);
 		auto &active_buf = tx_buffer[idx];
 		auto res = transmit_func({active_buf.begin(), active_buf.size()});
+		if (!res)
+			in_progress_idx = std::nullopt;
 		return res;
 	}
 };
-- 
2.43.0


From 8c7b760da180b283d4f1764c3d098c19b923330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 08/33] fix: PollEvent: do not miss a deadline when the clock
 overflows between polls

If the deadline itself lay before the overflow but the next poll came after it,
the event did not fire until nearly a full clock range later.
---
 util/poll_event.hh | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..e22fcd1 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -7,24 +8,22 @@ struct PollEvent {
 	}
 
 	void poll(TimeT now, auto action) {
-		bool expired = false;
-
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
-		}
-
-		if (expired) {
+		if (expired(now)) {
 			last_poll = now;
 			action();
 		}
 	}
 
 private:
+	bool expired(TimeT now) const {
+		if constexpr (std::is_integral_v<TimeT>) {
+			// Subtracting as unsigned handles overflow of the clock
+			using U = std::make_unsigned_t<TimeT>;
+			return U(U(now) - U(last_poll)) >= U(period);
+		} else
+			return (now - last_poll) >= period;
+	}
+
 	TimeT period;
 	TimeT last_poll{};
 };
-- 
2.43.0


From d62f621bcf9fb05002eef878f1a0ad3cef0cd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 09/33] fix: PollChange: force_next_poll() must force the next
 poll at any clock value

Setting the last update time to 0 had no effect while the clock was below the
update interval (after start-up or overflow).
---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..6a44dfa 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_next = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_next || now - last_update_time >= update_ticks) {
+			force_next = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_next || now - last_update_time >= update_ticks) {
+			force_next = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_next = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From 20ad2b78f8bac20c36bef03c5817e6cf88bc8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 10/33] fix: CompactBinaryParser: a huge or negative size must
 not pass the bounds check

offset + size overflows for 64-bit sizes and goes backwards for negative ones, so
a corrupted size field produced a node outside the record.
---
 util/compact_binary_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..397b8fc 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (blob.size() - offset >= sizeof(T)) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,7 +67,7 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		if (size_t(sz) <= blob.size() - offset)
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From d7d4df50057669a50087e279124b20fb843034de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 11/33] fix: AlignedAllocator: report failure and reject sizes
 that overflow

Containers never check for a null pointer, so a failed allocation was a write
through null; an overflowing n * sizeof(T) gave a block smaller than asked for.
---
 util/aligned_allocator.hh | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..72b45a9 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -1,5 +1,6 @@
 #include <cstddef>
 #include <cstdlib>
+#include <new>
 
 template<typename T, std::size_t Alignment = 64>
 class AlignedAllocator {
@@ -16,12 +17,15 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (std::size_t(-1) - Alignment) / sizeof(T))
+			return failed();
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
 		void *ptr = aligned_alloc(Alignment, aligned_size);
 		if (!ptr)
-			return nullptr;
+			return failed();
 
 		return static_cast<T *>(ptr);
 	}
@@ -41,4 +45,14 @@ public:
 	bool operator!=(const AlignedAllocator &) const noexcept {
 		return false;
 	}
+
+private:
+	// Containers require allocate() to throw: they do not check for a null pointer
+	static T *failed() {
+#ifdef __cpp_exceptions
+		throw std::bad_alloc{};
+#else
+		std::abort();
+#endif
+	}
 };
-- 
2.43.0


From 24948cac2696ae42dc577b557e64018d135bc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 12/33] fix: CircularBufferOpt::fill_buffer: fill all elements

The byte counts given to memcpy and memset were element counts.
---
 util/circular_buffer_opt.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..0033c0b 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,11 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		buf_.fill(val);
 	}
 
 	// Alias for count()
-- 
2.43.0


From e0b56c0c0a2c7653945380bf611a52a877e05198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 13/33] fix: CircularBufferBlock::write: copy whole elements,
 not that many bytes

---
 util/circular_buffer_block.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..f142841 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -1,8 +1,9 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
+#include <array>
 #include <cstdint>
 #include <cstdio>
-#include <cstring>
 #include <span>
 
 template<typename T, size_t SIZE>
@@ -17,11 +18,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::copy(block.begin(), block.end(), begin);
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::copy(block.begin(), block.begin() + space_avail, begin);
+			std::copy(block.begin() + space_avail, block.end(), data.begin());
 		}
 	}
 
-- 
2.43.0


From f6a066ef6cbeb980dcee2bff85327a32eab7c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 14/33] fix: FilteredInterpArray takes the new-data flag in one
 step

Testing the flag and clearing it afterwards lost an announcement by another
core that landed in between: the clearing store does not acquire what that
announcement published, so the reading that follows may use the old data.
---
 util/filtered_interp_array.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index 31198ef..64e3c4f 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -25,8 +25,7 @@ struct FilteredInterpArray {
 	// and set it as the new interpolation target.
 	// read_fn: (unsigned i) -> T
 	void add_new_readings(auto read_fn) {
-		if (_new_data_ready) {
-			_new_data_ready = false;
+		if (_new_data_ready.exchange(false)) {
 
 			if (_update_count > 0)
 				_num_updates = _update_count;
-- 
2.43.0


From aebeb7941e6e6b3d16908384aa8d0409aa1c11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 15/33] fix: handing toggle events over keeps a press that
 waits beside a release

update_state() copied only the falling edge when both were pending, and
transfer_events() then cleared both, so the press was lost.
---
 util/debouncer.hh         | 2 +-
 util/debouncer_compact.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 2bb28b9..ba5ebb2 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -107,7 +107,7 @@ public:
 		if (other.got_falling_edge_)
 			got_falling_edge_ = true;
 
-		else if (other.got_rising_edge_)
+		if (other.got_rising_edge_)
 			got_rising_edge_ = true;
 
 		is_high_ = other.is_high_;
diff --git a/util/debouncer_compact.hh b/util/debouncer_compact.hh
index 62fabe8..81d96ed 100644
--- a/util/debouncer_compact.hh
+++ b/util/debouncer_compact.hh
@@ -104,7 +104,7 @@ public:
 		if (other.got_falling_edge_)
 			got_falling_edge_ = true;
 
-		else if (other.got_rising_edge_)
+		if (other.got_rising_edge_)
 			got_rising_edge_ = true;
 
 		is_high_ = other.is_high_;
-- 
2.43.0


From dc81a7afb5dea4d8b4896776cedcf0d5b7cc5d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 16/33] fix: moving the head of a full CircularBuffer leaves it
 marked full

full() and count() reported a full buffer after set_head() moved the head of
a full buffer away from its tail.
---
 util/circular_buffer.hh     | 2 ++
 util/circular_buffer_opt.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..757f333 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -35,6 +35,8 @@ public:
 
 	void set_head(size_t head) {
 		head_ = head;
+		if (head_ != tail_)
+			full_ = false;
 	}
 
 	void remove_first() {
diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 0033c0b..28b02ff 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -41,6 +41,8 @@ public:
 	// and you want to provide a fixed delay (similar to double-buffering)
 	void set_head(size_t head) {
 		head_ = head;
+		if (head_ != tail_)
+			full_ = false;
 	}
 
 	// get the next element but discard it
-- 
2.43.0


From 84e0778018d73c4a3cbf59ee76b9391df539ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 17/33] fix: CircularBuffer::fill_buffer copies elements
 instead of their bytes

Copying the bytes of elements that own resources makes two owners of each.
---
 util/circular_buffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 757f333..11479a3 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -90,7 +90,7 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-- 
2.43.0


From 994d71326769fb9340f500383d0a2ac13a063bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 18/33] fix: CircularBufferAccess::write without blending
 stores the data unchanged

The old contents were multiplied by zero and added, so that a NaN or infinity
in the buffer could never be overwritten, and integers above 24 bits lost
precision.
---
 util/circular_buffer_ext.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index 40b51e9..3ebe52b 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,9 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +75,9 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
-- 
2.43.0


From f64fc2053f0951246619d79c03e55437d8c1d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 19/33] fix: TriangleOscillator::set_period_ms divided by zero
 for periods below a second

And any other period was rounded down to whole seconds.
---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..a632649 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint32_t>(uint64_t{freq_units} * 1000 / period_ms);
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From 96ff4d6ae452e6c62314cfee18bcc9c523aab83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 20/33] fix: DownCounter::set_period_ms with a period of zero
 or shorter than an update

The increment did not fit and its conversion was undefined.
---
 util/oscs.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index a632649..3e67bd7 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -197,7 +197,9 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		// Anything shorter than one update ends at the next update
+		const uint64_t increment = ms ? uint64_t{freq_units} * 1000 / ms : max_;
+		increment_ = increment < max_ ? static_cast<uint32_t>(increment) : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From b6be1e169d8dc0c2d6f059c5271422f1fc0a74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 21/33] fix: RgbLed flashes and fades last as long as requested

The frequency was rounded down to whole Hz: 600 ms took a second and anything
longer than a second was not shown at all.
---
 util/rgbled.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..8dca4cb 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(ms);
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From b7cd4bb0c6b0c3d898fe05acfb7b8ad38dc25904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 22/33] fix: AnalyzedSig: the maximum of a negative signal

numeric_limits<float>::min() is the smallest positive value, not the lowest.
---
 util/analyzed_signal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..8867434 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
-- 
2.43.0


From 57477a114b6add5e82e05a4f616d7d3881a96458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 23/33] fix: PeakMeter: the maximum of a negative
 floating-point signal

---
 util/analyzed_signal.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 8867434..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From 2308bede8158e97b0a4e3fedde7093f2ef4af1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 24/33] fix: SequentialMap::insert stores the value too

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..7c133e1 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -49,7 +49,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From 708ac67dd23f77a7420b9cc951d7e349a53f408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 25/33] fix: SequentialMap: reading a missing key of a const
 map returned a dangling reference

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 7c133e1..2880e1e 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT not_found{};
+		return not_found;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From 01760f118428a8718cefe095aa946779666d1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 26/33] fix: CircularStack constructed from elements contains
 them

---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..2e8a7c5 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(t) % MaxElements}
+		, full{sizeof...(t) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 00dc0e89f3018a3456b6be085cbd68e7eae8405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 27/33] fix: copying a Function copies its captures

The bytes of the captures were copied, and then destroyed once for each copy.
---
 util/callable.hh | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..d59ee9e 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -26,13 +26,24 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(const FunctionSized &other) {
+		copy_from(other);
+	}
+
+	FunctionSized &operator=(const FunctionSized &other) {
+		if (this != &other) {
+			clear();
+			copy_from(other);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		clear();
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +68,35 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Copies the callable from src to object, or destroys object if there is no src
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, const void *src) {
+		if (src)
+			new (object) Callable(*reinterpret_cast<const Callable *>(src));
+		else
+			reinterpret_cast<Callable *>(object)->~Callable();
+	}
+
+	void copy_from(const FunctionSized &other) {
+		if (other.m_manage)
+			other.m_manage(&m_data[0], &other.m_data[0]);
+		m_manage = other.m_manage;
+		m_callback = other.m_callback;
+	}
+
+	void clear() {
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
+		m_manage = nullptr;
+		m_callback = nullptr;
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, const void *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From a844ee18cd93d022668f18cd79e38fa6c072ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 28/33] fix: SequentialMap: a new key does not show the value
 of an erased one

---
 util/sequential_map.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 2880e1e..8d97f71 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -32,6 +32,8 @@ public:
 		if (newsize == data.max_size()) {
 			// Overflow: silently return last element
 			newsize--;
+		} else {
+			data[newsize].second = ValT{};
 		}
 		data[newsize].first = key;
 		return data[newsize].second;
-- 
2.43.0


From 41e90951f9348dbde1f6f49313862c890fbf554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 29/33] fix: printing a string_view stops at its end, not at
 the next null character

---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..a1f44b8 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (auto c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From 755ac85c7dadf5dcbb3d7c67737c0f73f3386b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 30/33] fix: int_to_str and int_to_str_chop keep zero digits
 and exact powers of ten

---
 util/int_to_str.cc | 52 +++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..7daabc5 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,10 +19,11 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, bool &print_zero, unsigned avail) {
+	if (print_zero || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		print_zero = true;
 		return avail > Log10<Place>() ? '0' + dig : 0;
 	}
 	return 0;
@@ -45,26 +46,27 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	unsigned val = value;
+	bool print_zero = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, print_zero, buf.size() - len); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,10 +77,11 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &print_zero) {
+	if (print_zero || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		print_zero = true;
 		return '0' + dig;
 	}
 	return 0;
@@ -118,26 +121,27 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		return false;
 
 	unsigned val = value;
+	bool print_zero = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, print_zero); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, print_zero); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 2acf434b48c92373f023ac331610c3a7cd64e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 31/33] fix: int_to_str(0) refuses a buffer without room for
 two characters

---
 util/int_to_str.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 7daabc5..68a5bf4 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -111,6 +111,8 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
-- 
2.43.0


From 643924b5b353f4035a24b23674ae17cbdc54469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 32/33] fix: copying a string_view to a StaticString<0> writes
 no character

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From 9c461d2c54725e5260d1537cf3eb8e21d9fc833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 33/33] fix: hysteresis_gate turns on above turn_on_thresh, not
 above the middle

---
 util/math.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..c224649 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -336,10 +336,10 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
+	float feedback_amt = turn_on_thresh - turn_off_thresh;
 	float feedback = feedback_amt * last_output;
 	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
+	float threshold = turn_on_thresh;
 	return test_signal > threshold ? 1.f : 0.f;
 }
 
-- 
2.43.0

