#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate): python3 tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
U = "util/"
SP, DY = U+"lockfree_fifo_spsc.hh", U+"lockfree_fifo_spsc_dyn.hh"

# ---------------------------------------------------------------- queues
prop("Q01", "Lock-free queue delivers accepted items once, in order, intact",
 "With one producer and one consumer running concurrently (on two weakly ordered cores, or one interrupting the other anywhere), the items the consumer obtains from a lock-free queue, fixed-size or dynamically sized, are exactly those whose insertion was reported successful: each once, in insertion order, with their complete contents. No item is read before it has been fully published and no place is refilled while it is still being read. This holds wherever the queue's running positions stand, including when they wrap around.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of the producer's and the consumer's individual memory accesses, every value a weakly ordered load may legally return, every mix of operations, capacity, item size, and starting position.",
 "The tests call put and get from one thread, in program order, from position 0; no schedule, no stale load and no wrapped position is ever exercised.",
 [SP, DY],
 [("release store of the write position after the item is stored; acquire load by the consumer", SP+" put/get/get_move"),
  ("release store of the read position after the item is copied out; acquire load by the producer", SP+" get/put"),
  ("position masked or reduced modulo the capacity to choose the place", SP+" put/get; "+DY+" put/get")],
 [("head", "running count of items inserted", SP), ("tail", "running count of items removed", SP)],
 ["results of put, get, get_move, get_or_default", "contents of each obtained item"])
prop("Q02", "Queue refusals, emptiness and counts are truthful",
 "A lock-free queue refuses an insertion only when, as far as the producer can know, all places are taken, and reports empty only when every item the consumer can know of has been taken; it never holds more items than its capacity. A free count the producer has seen can be relied on for that many insertions, a filled count the consumer has seen for that many removals, the full and empty flags agree with those counts, and when both sides are idle all of them are exact.",
 ["schedules", "histories", "configurations"],
 "Every interleaving and legal stale value, capacity and operation mix, for either role.",
 "Tests check the counters only sequentially, where no update can be in flight between two reads.",
 [SP, DY],
 [("difference of the two positions compared with the capacity", SP+" put/num_free/num_filled/full/empty")],
 [("head,tail", "running positions", SP)], ["put's result", "num_free, full", "num_filled, empty", "max_size"])
prop("Q03", "Queue reset, discard and priming leave a consistent queue",
 "After a reset from the consumer or the producer side, after discarding the first item, or after the consumer moves its read position or offset forward past items it knows of, a lock-free queue goes on delivering exactly the items inserted later (and those not discarded or passed over), in order, with its full capacity available again. A queue primed with an initial offset, preloaded contents or explicit read/write positions first delivers that many initial places, then the inserted items, so that a matched put/get rate sees the requested fixed delay; the same when its read position or offset is set again while neither side is active.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of a reset, discard or skip with the other side's operations, and every primed state within the capacity.",
 "Tests reset once with nobody else running and prime one queue of four ints.",
 [SP, DY],
 [("reset copies the write position into the read position", SP+" reset"), ("remove_first advances the read position if not empty", SP+" remove_first"),
  ("constructors taking an offset or preloaded contents", SP+" constructors"), ("set_read_pos / set_read_offset / set_write_pos", SP)],
 [], ["items obtained after reset, remove_first, or priming", "num_free/num_filled when idle"])
prop("Q04", "Resizing a dynamic queue is safe, also when memory runs out",
 "Resizing a dynamic queue to a different capacity leaves it empty with the new capacity, and to the same capacity changes nothing. If the memory for it cannot be obtained the failure is reported and the queue stays memory-safe: later insertions and removals never touch memory it does not own, never deliver an item that was not inserted, and a later successful resize restores full service.",
 ["fault_sequences", "histories", "configurations"],
 "Every sequence of resizes, insertions and removals and every allocation that may fail.",
 "No test includes the dynamic queue at all, and none makes an allocation fail.",
 [DY], [("resize: reset, release, reallocate, then record the new capacity", DY+" resize")],
 [("max_size", "capacity used for index reduction and the full check", DY), ("buf", "the allocation", DY)],
 ["max_size, num_free", "put/get results", "memory accesses outside the live allocation"])
# ---------------------------------------------------------------- pools
prop("P01", "A pool slot has at most one owner and is released exactly once",
 "From the moment a pool hands out a slot until that slot's release begins, no other caller, on any thread, is handed the same slot; each hand-out can be released successfully exactly once, and releasing a slot that is not handed out, is out of range or is foreign reports failure and changes nothing. What an owner stores in its slot is not disturbed by anybody else, and what it stored before releasing is visible to the next owner and to whoever sees the slot reported unused afterwards. The holder of every slot may also give all of them back at once by clearing.",
 ["schedules", "histories"],
 "Every interleaving of create, destroy and access by several threads on weakly ordered cores, including simultaneous double releases; for the single-threaded pool every history.",
 "Neither pool has a single test.",
 [U+"thread_safe_pool.hh", U+"pool.hh"],
 [("compare-and-swap of the slot's used flag in create and destroy", U+"thread_safe_pool.hh create/destroy"), ("scan for the first unused entry", U+"pool.hh create")],
 [("used flag", "slot is handed out", U+"thread_safe_pool.hh")], ["indices/pointers returned by create", "result of destroy", "contents of owned slots"])
prop("P02", "Pools refuse only when exhausted and report their state truthfully",
 "A pool's hand-out is refused only if each of its slots was in use at some moment during the request, and every slot is usable: a pool with N slots can have N owners, and never more. An owned slot is reported used and a released, not re-owned one unused; after clearing, all slots are free and hold default values; a slot handed out by the single-threaded pool's default hand-out holds a default value.",
 ["schedules", "histories"],
 "Every interleaving of several threads with random contention, including spurious failures of weak atomic operations; every history.",
 "Neither pool has a test, and a spurious refusal needs contention or a weak primitive's spurious failure.",
 [U+"thread_safe_pool.hh", U+"pool.hh"],
 [("strong compare-and-swap over all slots in order", U+"thread_safe_pool.hh create"), ("clear resets value then flag", U+"thread_safe_pool.hh clear")],
 [], ["create's result", "is_used", "size", "contents after clear/create"])
# ---------------------------------------------------------------- wear levelling
WL = U+"wear_level.hh"
W_OVER = ["crash_points", "fault_sequences", "histories", "configurations"]
prop("W01", "A saved record survives restarts, power loss and failed writes",
 "Once a save has been reported successful, every later load returns that record, in the same session and after any number of restarts, until a newer save is attempted; this holds whatever writes or erases failed, were torn or were cut off by power loss before. If a newer save fails or is cut off, a later load returns the last saved record or one of the newer ones attempted since; only once that save has had to erase the block may it return an older record or none.",
 W_OVER, "Every sequence of saves, loads and restarts, with power lost inside any storage operation, torn, failed and partly effective programs and erases, dead cells, and any prior contents of the block; both variants of the wear leveller.",
 "Tests use one four-cell block and never restart after a write, never lose power, and never make an operation report failure.",
 [WL], [("start-up scan from the top for the newest valid cell", WL+" constructors"), ("read scans down from the write cursor", WL+" read"),
        ("write advances to the first writeable cell, erasing once at the top", WL+" write")],
 [("cursor", "next cell to try to write", WL)], ["read's result and data", "storage contents across restarts"])
prop("W02", "A load never invents or misattributes a record",
 "When a load reports success, the record returned is one that is actually stored in the block at that moment and was previously passed to save (or was there before); when nothing valid can be read it reports failure. Storage read errors may make it report an older stored record or failure, but never the caller's previous contents or a torn, blank or unreadable cell's contents.",
 W_OVER, "Every placement of read errors, torn programs, partial erases and garbage contents, and every previous content of the caller's variable.",
 "Tests never make a read fail and always blank the caller's variable first.",
 [WL], [("validation of every cell read", WL+" read"), ("result of the storage read", WL+" read")], [], ["read's result and data"])
prop("W03", "Wear is levelled: every cell is used before the block is erased",
 "Only blank cells are ever written, in ascending order after the newest record, and each save programs at most one cell. The block is erased only when no blank cell remains at or above the write position, at most once per save, so that without faults N cells take N saves per erase, also across restarts.",
 W_OVER, "Every history of saves and restarts from any prior block contents, with and without faults.",
 "Tests check one pass over four cells without restarting.",
 [WL], [("is_writeable check before each program", WL+" write"), ("erase only at the top of the block", WL+" write")], [("cursor", "next cell to try", WL)],
 ["sequence of program/erase operations received by the storage"])
prop("W04", "Save results are honest and service resumes when faults stop",
 "A save reports success only if the storage reported that record programmed, and reports failure whenever the erase it needed or the program itself failed or no cell is writeable. Once faults stop, the next save succeeds, after a bounded number of storage operations, and the next load returns its record, whatever failures came before.",
 W_OVER, "Every sequence of failing, torn and cut-off storage operations followed by a fault-free period.",
 "Tests have one scenario with a failing erase and none with recovery after it.",
 [WL], [("result of the storage program and erase propagated", WL+" write"), ("cursor restored after a failed erase", WL+" write")], [], ["write's result", "storage operations per save"])
# ---------------------------------------------------------------- double buffer
DB = U+"doublebuf_stream.hh"
D_OVER = ["schedules", "fault_sequences", "histories", "configurations"]
prop("D01", "Double-buffered stream sends accepted data once, in order",
 "The data a double-buffered transmitter hands to the hardware, over all transmissions that were started successfully, is exactly the concatenation of the messages it accepted, each once, whole and in order of acceptance; a rejected message contributes nothing. Data accepted while a transmission is running is sent by itself when that transmission completes, and a transmission that fails to start loses nothing that was accepted.",
 D_OVER, "Every timing of completions relative to transmit calls, every message size and buffer size, and every transmission start that may fail.",
 "Tests complete transmissions at one fixed point and never let the hardware refuse one.",
 [DB], [("messages go to the inactive buffer", DB+" transmit"), ("completion clears the sent buffer and starts the other", DB+" tx_done_callback")],
 [("in-progress index", "buffer owned by the hardware", DB)], ["spans passed to the transmit function", "transmit's result"])
prop("D02", "Only one transmission in flight; its data stays put until completion",
 "With non-empty messages, at most one transmission is in flight at a time, each is non-empty and no larger than one buffer, and the memory handed to the hardware keeps its contents until that transmission's completion is signalled. A completion signalled while nothing is in flight has no effect.",
 D_OVER, "Every timing of completions, spurious completions, and of the hardware's reads of the buffer between start and completion.",
 "Tests copy the data at the instant the transmission starts, so later overwriting cannot be seen.",
 [DB], [("new data never goes to the active buffer", DB+" transmit"), ("guard on completion without transmission", DB+" tx_done_callback")], [], ["span contents between start and completion", "number of transmissions in flight"])
prop("D03", "Stream accepts what fits, rejects whole, and recovers",
 "A message is accepted if and only if it fits in the waiting buffer behind the data already waiting there, and, when the line is idle, the hardware accepts the start; otherwise it is rejected as a whole. When the hardware accepts starts again and signals completions, everything accepted is sent and new messages are accepted, however many starts failed before.",
 D_OVER, "Every fill level, message size, completion timing and sequence of refused starts.",
 "Tests check one oversize message and no refused start.",
 [DB], [("room check before queueing", DB+" transmit"), ("state after a refused start", DB+" start_tx")], [], ["transmit's result", "transmissions started after recovery"])
# ---------------------------------------------------------------- timers
prop("T01", "Periodic event fires exactly when its period has elapsed",
 "A periodic event polled at arbitrary times fires at a poll if and only if at least one period has elapsed on its clock since it last fired (initially since time zero), exactly once at that poll. This holds for every clock width, across clock overflow, and however late a poll comes, as long as it comes less than one full clock range after the last firing.",
 ["schedules", "histories", "configurations"],
 "Every sequence of poll times (jittered, stalled, around the overflow), every period and every integer clock type, elapsed time being counted modulo the clock range; floating-point clocks, including backward steps, after which it waits until the period has elapsed.",
 "Tests poll at every tick with period 4; a poll that skips from before the deadline to after the overflow never occurs.",
 [U+"poll_event.hh"], [("elapsed-time comparison with overflow handling", U+"poll_event.hh poll")], [("last poll", "time of last firing", U+"poll_event.hh")], ["calls of the action"])
prop("T02", "Periodic change polling samples on time and reports each change once",
 "A change poller looks at its input at a poll if and only if its interval has elapsed since it last looked (at any clock value, across overflow) or a look was forced, and never evaluates a deferred state function otherwise. It reports a change exactly once when it has seen a state different from the one it saw before, or was reset, since the last report.",
 ["schedules", "histories", "configurations"],
 "Every sequence of poll times, stalls, clock overflows, forced polls, resets and state changes between looks.",
 "It has no tests.",
 [U+"poll_change.hh"], [("modular elapsed-time comparison", U+"poll_change.hh poll"), ("force_next_poll", U+"poll_change.hh"), ("change flag cleared when taken", U+"poll_change.hh take_change")], [], ["calls of the state function", "take_change"])
prop("T03", "One-shot pulses last as long as requested",
 "After a start, a one-shot timer is on for the requested time: the number of updates that report on equals the requested time multiplied by the update rate, rounded up (single-precision rounding may decide an update that falls on the very end), and then it stays off until started again. Restarting replaces the remaining time, stopping ends the pulse at once, and changing the update rate applies to the time that remains.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of updates with starts, restarts, stops and rate changes, and every rate and width.",
 "Tests start four pulses, never restart or stop one, and never change the rate.",
 [U+"oscs.hh"], [("remaining width reduced by one period per update", U+"oscs.hh OneShot::update"), ("start/stop/set_update_rate_hz", U+"oscs.hh OneShot")], [], ["update's result at each tick"])
# ---------------------------------------------------------------- filtered interp
FI = U+"filtered_interp_array.hh"
prop("I01", "No sensor update announced by the interrupt is lost",
 "Every announcement of new readings is followed, at the consumer's next pass, by one reading of all channels that starts after the announcement and sees the data published before it; several announcements before a pass are served by one reading and none is served twice. Announcements arriving at any instant, even during a pass, are never lost.",
 ["schedules", "histories"],
 "Every point at which the announcing interrupt or core can preempt the consumer's pass, and every legal stale value.",
 "Tests announce only between passes, from the same thread.",
 [FI], [("flag cleared before the readings are taken", FI+" add_new_readings"), ("atomic flag", FI)], [("new-data flag", "announcement pending", FI)], ["calls of the read function", "final outputs"])
prop("I02", "Interpolated outputs move evenly to the target and hit it exactly",
 "Between two targets each channel's output moves in equal steps from its last output towards the new filtered reading, never beyond it, reaches it exactly after the number of outputs counted in the previous reading period, or the configured number if none was counted, and stays there until the next reading. Channels do not influence each other. The bare interpolators move by one Nth of the distance (rounded towards zero for whole numbers) at each of the N outputs after a new target, starting from the output then reached; snapping gives the target itself, whatever N was.",
 ["schedules", "histories", "configurations"],
 "Every timing of announcements relative to output passes: early, late, missing, duplicated, and jittered periods.",
 "Tests use fixed announcement patterns with periods of two to four outputs.",
 [FI, U+"interp_param.hh"], [("period measured by counting outputs", FI+" add_new_readings/get_interp_values"), ("snap at the end of the period", U+"interp_param.hh snap_to_target")],
 [("update count", "outputs since last reading", FI)], ["output values per channel"])
# ---------------------------------------------------------------- binary format
CB = U+"compact_binary_"
prop("B01", "A cut-off record yields only its complete fields",
 "If a serialized record survives only up to some byte (torn write, short read), looking up a key gives its exact original value when the field lies wholly within the surviving part, and nothing otherwise. Lookups with the wrong value size give nothing, and the first of several fields with the same key wins.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every record written by the library's writers, cut at every byte, for all key and size types.",
 "Tests cut one or two records at one place.",
 [CB+"parser.hh", CB+"writer.hh"], [("header and payload bounds checks", CB+"parser.hh get_size_and_offset/get/get_node")], [], ["get, get_node, get_size"])
prop("B02", "Corrupted records never cause out-of-bounds access or bogus nodes",
 "Whatever bytes a record holds (bits flipped, sectors lost, stale or foreign data), a lookup terminates, reads only within the record, and returns either nothing or a part that lies wholly within the record and belongs to the first intact entry with that key. This holds for every key type and every width and signedness of the size field.",
 ["fault_sequences", "inputs", "configurations"],
 "Every corruption of every record, for all key and size types.",
 "Tests contain a few well-formed records and no corrupted sizes.",
 [CB+"parser.hh"], [("bounds check on offset plus size", CB+"parser.hh get/get_node"), ("advance refuses to run past the end", CB+"parser.hh advance")], [], ["spans and values returned", "memory accesses outside the record"])
prop("B03", "Writers agree, round-trip, and survive running out of space",
 "The imperative writer, the buffer serializer and the streaming serializer produce identical bytes for the same content, in however many chunks, and every field read back has its original value at every nesting level. When the output is too small they never write beyond it, store exactly the leading part of the full record (except size fields of objects not yet closed), and report the size the full record needs.",
 ["inputs", "fault_sequences", "configurations"],
 "Every sequence of fields, raw data and nested objects, and every output capacity from none to more than enough.",
 "Tests use a handful of fixed records and two buffer sizes.",
 [CB+"writer.hh", CB+"serializer.hh", CB+"parser.hh"], [("bounds-checked emit that keeps counting", CB+"writer.hh emit"), ("size back-patched on close", CB+"writer.hh end_object"), ("size measured first", CB+"serializer.hh Measurer")], [], ["output bytes and guard zone", "reported size", "parsed values"])
# ---------------------------------------------------------------- inputs
DE = U+"debouncer.hh"
prop("E01", "Debounced switches report each press and release exactly once",
 "A debounced switch raises a press (release) event exactly when its recent samples match the configured press (release) pattern, so that with the default pattern a clean or bouncing transition after a settled period raises exactly one event and no bounce raises another. A raised event is reported once to whoever asks, is kept until asked for or replaced by a newer one, and is neither lost nor duplicated when handed over to another toggle; the level shown is the raw or the debounced one as configured, and the steady count restarts at each transition.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "Every bounce, glitch and sampling sequence, every moment at which events are polled or handed over, for every configured pattern.",
 "Tests cover only the undebounced counter variant; no debouncer or bounce is tested.",
 [DE, U+"debouncer_compact.hh"], [("sample history compared with patterns", DE+" register_state"), ("event flags cleared when read", DE+" is_just_pressed/is_just_released"), ("transfer_events", DE)], [("history", "masked recent samples", DE)], ["just-pressed/just-released", "level", "steady count"])
prop("E02", "Rotary motion is counted per completed detent and conserved",
 "A quadrature decoder reports a step exactly when its last four distinct states form a complete clockwise or counter-clockwise sequence, so a cleanly turned shaft gives one step per detent in the right direction at any sampling rate that sees each state, repeated samples never count, and contact bounce of the last transition adds none. Motion accumulated, handed from one accumulator to another or read out at any moment is counted exactly once, and the absolute position equals the total motion received.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "Every shaft trajectory, bounce, oversampling, normal and inverted contacts, and every schedule of hand-overs and read-outs.",
 "Tests turn one encoder one detent each way; motion accumulators have no tests.",
 [U+"quadrature_encoder.hh", U+"rotary_motion.hh"], [("history of the last four distinct states", U+"quadrature_encoder.hh get_motion"), ("read-and-clear", U+"rotary_motion.hh use_motion/transfer_motion")], [], ["get_motion results", "abs_pos, motion"])
prop("E03", "Hysteresis triggers ignore noise smaller than their band",
 "A Schmitt trigger goes high exactly when, being low, its input exceeds the upper threshold and low exactly when, being high, its input falls below the lower one, raising one event per change. Noise that stays within the band, however long or however sampled, raises no event, and each event is reported once. The stateless gates, fed back their last output, do the same: off to on above the turn-on threshold only, on to off below the turn-off threshold (for the feedback form: at or below the threshold less the feedback) only, to within rounding.",
 ["fault_sequences", "histories", "configurations"],
 "Every noisy input sequence, thresholds, and polling moments.",
 "Tests step one trigger once up and down, in order, without noise.",
 [U+"schmitt_trigger.hh", U+"math.hh"], [("two thresholds selected by the current level", U+"schmitt_trigger.hh process/update"), ("last output fed back", U+"math.hh hysteresis_gate/hysteresis_feedback")], [], ["level and events"])
prop("E04", "Change notifications are never lost or repeated",
 "A watched value, state or edge that changed (for thresholded values: by at least the threshold since the last accepted value) between two queries is reported as changed at the next query and only there, however many changes, repeats or queries come in between; queries without a change report none. Values read back are the latest accepted ones.",
 ["schedules", "histories"],
 "Every interleaving of a writing task with a querying task, including starvation of either.",
 "Tests perform at most three updates per object in a fixed order; the edge and change detectors have none.",
 [U+"parameter.hh", U+"change_detector.hh", U+"edge_detector.hh"], [("changed flag set on write, cleared on query", U+"parameter.hh; "+U+"change_detector.hh"), ("last value kept for comparison", U+"parameter.hh RefParameter; "+U+"edge_detector.hh")], [], ["isChanged/did_change/changed results", "values"])
# ---------------------------------------------------------------- memory
prop("M01", "The memory test detects every fault that alters stored data",
 "The memory test fails whenever any word of the tested region does not hold what was last written to it when read back: stuck or dead data lines, cells and words, address lines that alias two words, writes that are lost or disturb other words, and upsets between writing and reading. In particular any two words sharing storage, any data line stuck over a region of 64 words or more, and any single lost write that leaves other contents than those written are always detected.",
 ["fault_sequences", "configurations"],
 "Every simulated memory fault, its position, bit and onset, and every region size.",
 "It has no tests, and ordinary memory has no faults.",
 [U+"mem_test.hh"], [("full-period pseudo-random pattern, written completely before being read", U+"mem_test.hh check")], [], ["check's result under injected faults"])
prop("M02", "The memory test passes good memory and touches nothing else",
 "On fault-free memory the test passes for every region, including an empty one, and covers every word of it; it reads and writes only inside the given region. Given as a pair of integer addresses it behaves the same and rejects a reversed range; faults outside the region never make it fail.",
 ["fault_sequences", "configurations"],
 "Every region size, alignment and position, and faults outside the region.",
 "It has no tests.",
 [U+"mem_test.hh"], [("half-open loop bounds", U+"mem_test.hh check"), ("range validation", U+"mem_test.hh check(uint32_t,uint32_t)")], [], ["check's result", "addresses accessed"])
prop("A01", "Allocators hand out disjoint, in-bounds memory and report exhaustion",
 "Memory handed out by the aligned and the arena allocator is as large as asked for, aligned as promised, inside its arena and disjoint from all other live blocks, so that nobody's data is overwritten, also inside containers using the aligned allocator. When memory runs out or an underlying allocation fails this is reported (a null result from the arena, a failure the container can see from the aligned allocator) and everything allocated so far stays intact and usable.",
 ["fault_sequences", "histories", "configurations"],
 "Every sequence of allocations, container growth, releases and resets, and every underlying allocation that may fail.",
 "Neither allocator has a test and no allocation ever fails in the tests.",
 [U+"aligned_allocator.hh", U+"monotonic_allocator.hh"], [("size rounded up to the alignment", U+"aligned_allocator.hh allocate"), ("remaining-space check", U+"monotonic_allocator.hh allocate")], [], ["addresses, contents of live blocks", "behaviour on failure"])
# ---------------------------------------------------------------- rings and blocks
prop("R01", "Overwriting ring buffers keep the newest items under overrun",
 "When the consumer stalls, an overwriting ring buffer keeps exactly the newest items up to its capacity, in order; otherwise every item put is got exactly once, in order. Counts and full and empty flags, peeking at any position, discarding, resetting, prefilling and the fixed delay set by moving the head always agree with that content; getting from an empty buffer yields a default value or nothing.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of producing and consuming tasks with stalls and bursts, for both ring variants, every capacity and item size.",
 "Tests run ten short fixed sequences on one ring of four ints; the optional-returning variant has none.",
 [U+"circular_buffer.hh", U+"circular_buffer_opt.hh"], [("tail advanced when putting into a full ring", U+"circular_buffer.hh put"), ("full flag", U+"circular_buffer.hh")], [("head, tail, full", "ring state", U+"circular_buffer.hh")], ["get/peek results", "count, full, empty"])
prop("R02", "Stop-when-full streams and block writes keep every element in place",
 "A recording buffer keeps the first items up to its size and ignores the rest until reset; a playback buffer delivers its items in order and then default values until reset. A block written into a circular block buffer at any position appears there whole, element by element, wrapping at the end, for every element type, and nothing else changes.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of producing and draining tasks with overruns and underruns, every block size up to the buffer's, position and element size.",
 "The recording and playback buffers have no tests; block writes are tested with one-byte elements only.",
 [U+"input_output_buffer.hh", U+"circular_buffer_block.hh"], [("stop at the end", U+"input_output_buffer.hh put/get"), ("copy split at the wrap", U+"circular_buffer_block.hh write")], [], ["contents", "get's results"])
prop("R03", "A delay line read behind its writer returns what was written",
 "With a reader and a writer moving over a shared external circular buffer in blocks of any size, each element read is the one most recently written at that position, blended as requested when overdubbing, forwards or backwards; both positions advance by exactly the block length modulo the size. The wrap result is true exactly when the head passed the end of the buffer in that block, and the marker result exactly when the head passed the marker.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of reader and writer blocks, directions, positions and markers, with blocks shorter than the buffer.",
 "Tests run a few fixed block sequences on one small buffer.",
 [U+"circular_buffer_ext.hh"], [("position increments with wrap", U+"circular_buffer_ext.hh read/write and reverse forms"), ("marker side comparison", U+"circular_buffer_ext.hh *_check_crossed")], [], ["data read", "positions", "wrap and crossed results"])
# ---------------------------------------------------------------- not applicable (pure)
# ---------------------------------------------------------------- containers and callables
prop("C01", "Fixed-capacity vector behaves as a vector cut off at its capacity",
 "Whatever mixture of additions, insertions, erasures (single or range), resizes, overwrites and clearings is applied, a fixed-capacity vector holds exactly the elements, in order, that an unbounded vector would, except that an addition or insertion is refused, and reported where there is a result, when it is full, and a resize stops at the capacity. Positions beyond the end are ignored, removing from or looking at the back of an empty one gives a default value, counts and iteration always cover exactly the elements, and no memory outside it is touched.",
 ["fault_sequences", "histories", "configurations"],
 "Every history of operations, many of them at exhausted capacity, with failing element copies, for every capacity and element type, including ones that own memory.",
 "Tests erase and insert in a few vectors of ints; running full, growing and elements that own memory appear in isolated cases only.",
 [U+"fixed_vector.hh"], [("capacity checks", U+"fixed_vector.hh push_back/insert/resize"), ("elements shifted on insertion and erasure", U+"fixed_vector.hh insert/erase")],
 [("back_idx", "number of elements", U+"fixed_vector.hh")], ["elements, size, available", "results of push_back, resize, push_back_for_overwrite, pop_back, back"])
prop("C02", "Bounded stacks and maps keep the right entries when they run full",
 "A circular stack pops the most recently pushed elements first and, when full, forgets the oldest. A key-value table finds, for every key it holds, the value most recently stored for it, and nothing for other keys (a default value when read through a constant subscript); storing under a held key replaces its value, or, with the sequential map's insert, is refused and changes nothing; removing a key removes that entry only. When full, inserting a new key is refused, overwriting evicts the oldest entry, and the sequential map's subscript reuses the last entry. Sizes, emptiness, fullness and iteration agree with that content, and a new key starts with a default value.",
 ["fault_sequences", "histories", "configurations"],
 "Every history of stores, look-ups and removals, many of them at exhausted capacity, for every capacity, key and value type; keys inserted into the sequence map are not already held.",
 "Tests fill each container at most once or twice; several of these operations say 'TODO: unit tests'.",
 [U+"circular_stack.hh", U+"seq_map.hh", U+"sequential_map.hh"],
 [("bottom moves with the top when full", U+"circular_stack.hh push_back"), ("eviction index advances cyclically", U+"seq_map.hh overwrite"), ("subscript appends or reuses the last entry", U+"sequential_map.hh operator[]")],
 [("oldest", "next entry to evict", U+"seq_map.hh"), ("full", "all places taken", U+"circular_stack.hh")], ["results and values returned by every operation", "iteration order"])
prop("C03", "Stored callables copy and destroy their captures exactly once",
 "Calling a stored callable calls the callable it was made from, with its own captured state and the arguments forwarded (references stay references, move-only arguments are moved), and returns its result. Copies are independent from then on, each stored capture is copied and destroyed exactly once, assignment (also to itself) leaves the source unchanged and releases what the target held, and a function converts to true exactly when it holds a callable. If copying a capture fails, nothing is leaked or destroyed twice and the target is empty or unchanged.",
 ["fault_sequences", "histories", "configurations"],
 "Every history of assignments, copies, self-assignments, calls and destructions among several functions, every copy that may fail, for every buffer size and kind of capture.",
 "Tests store lambdas capturing a reference and call them; no function is copied, and no capture owns anything.",
 [U+"callable.hh"], [("capture constructed in the buffer and managed by its type", U+"callable.hh FunctionSized")],
 [("m_callback, m_manage", "how to call, copy and destroy the capture", U+"callable.hh")], ["results of calls", "number of live captures", "operator bool"])
# ---------------------------------------------------------------- filters
prop("F01", "Averaging filters equal the exact average and recover from glitches",
 "A moving average always equals the average of the last N readings, rounded down (missing ones counting as zero); an oversampler holds the average of the last complete block of N readings, rounded down or, in the smooth ones, as a fraction. A glitch of the sensor therefore has no influence left after N clean readings. Resizing an oversampler ends the running block at once if it already has as many readings as the new size, and otherwise carries on with the new size; copies carry on independently, and a reset starts afresh from zero. In a cascade each look passes the first filter's current value through the second.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "Every sequence of readings within the declared width, with spikes, dropouts, saturation and stuck values, every moment of looking, copying, resizing and resetting, and every size and type.",
 "Tests feed each filter a dozen readings; the resizing oversampler, copies and cascades have none, and no full-scale sum is reached.",
 [U+"filter.hh"], [("running sum less the reading leaving the window", U+"filter.hh MovingAverage"), ("block sum", U+"filter.hh Oversampler/SmoothOversampler/ResizingOversampler"), ("second filter fed on reading", U+"filter.hh CascadingFilter")],
 [("sum_, buff_", "sum of the window or block", U+"filter.hh")], ["add_val and val results"])
prop("F02", "Noise filters follow the input without overshoot or chatter",
 "The hysteresis filter's output stays exactly where it is while the input stays within the band around it, and otherwise moves just far enough to be one band away, so it is never further than the band from the input. The quadratic low-pass starts from the given value, or zero, and moves towards the input by the squared distance over its divisor at each reading; for inputs whose span does not exceed the divisor it never passes the input and settles on a steady one.",
 ["fault_sequences", "histories", "configurations"],
 "Every noisy or glitching input sequence, stuck inputs of any length, every band and divisor, and integer and floating-point states.",
 "These two filters have no tests.",
 [U+"filter.hh"], [("difference beyond the band", U+"filter.hh TransferHysteresis"), ("signed square over the divisor", U+"filter.hh TransferQuadratic")],
 [("state_", "current output", U+"filter.hh NonLinearOnePoleLp")], ["add_val and val results"])
prop("F03", "Signal meters report the exact extremes since the last reset",
 "A signal meter's minimum and maximum are exactly the smallest and largest reading since it was made or reset (the value it was reset to counts as a reading), for every sign and number type; without readings the minimum is the type's largest and the maximum its lowest value. The running average moves by the given fraction of the distance at each reading, starts from the value it was reset to, and never leaves the range of what it has seen.",
 ["fault_sequences", "histories", "configurations"],
 "Every sequence of readings, with glitches, always-negative signals, and resets at any moment, for every number type and coefficient.",
 "Tests use a few positive readings; the peak meter has none.",
 [U+"analyzed_signal.hh"], [("comparison with both extremes at each reading", U+"analyzed_signal.hh update"), ("exponential average", U+"analyzed_signal.hh AnalyzedSig::update")],
 [("min, max, iir", "results so far", U+"analyzed_signal.hh")], ["min, max, avg, iir"])
# ---------------------------------------------------------------- oscillators and LEDs
prop("L01", "Oscillators and counters keep their phase and requested speed",
 "At each update an oscillator's phase advances by its frequency divided by the update rate, modulo one cycle, however frequency, period and phase are changed in between (a change of speed does not move the phase); the ramp shows the phase, the triangle rises for half a cycle and falls for the other, the sine follows the sine of the phase, each within its stated range. A down counter falls at the requested speed to zero, stays there until reset to full or given a phase, and never rises by itself. A period too short for one update is over at the next; without a speed a down counter ends at once.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of updates with changes of frequency, period and phase, stops and restarts, and every update rate; frequencies up to half the update rate.",
 "Tests compare one cycle of one oscillator at a fixed frequency; changes in mid-cycle, periods and the down counter have none.",
 [U+"oscs.hh"], [("phase increment added at each update", U+"oscs.hh update"), ("increment computed from frequency or period", U+"oscs.hh set_frequency/set_period_ms/set_period_sec")],
 [("phase_, increment_", "position in the cycle and speed", U+"oscs.hh")], ["val, process, process_float, process_bipolar, process_unipolar"])
prop("L02", "LED flashes, fades and breathing last and blend as requested",
 "A flash shows its colour for the requested time from its start (to within one update and one millisecond), a fade blends from its colour to the background over that time, and then the LED shows the background again, blended with the breathing colour by a triangle of the requested frequency while breathing. Restarting replaces the running flash, changing the background does not end it, breathing goes on underneath, and stopping breathing returns to the background. Colours are blended to within rounding, scaled by the calibration and limited to full brightness; directly set colours reach the drivers at the requested brightness.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of updates with flashes, fades, breathing, background and calibration changes, restarts in mid-flash, every duration, frequency and update rate.",
 "The LED classes have no tests.",
 [U+"rgbled.hh", U+"oscs.hh", U+"colors.hh"], [("down counter restarted with the flash", U+"rgbled.hh flash_once_ms"), ("choice between flash, fade, breathing and background", U+"rgbled.hh update_animation")],
 [("flasher_, fader_", "time left and breathing phase", U+"rgbled.hh")], ["values set on the three drivers at each update"])
# ---------------------------------------------------------------- text, calibration, random numbers
prop("S01", "Console output arrives complete and in order from every context",
 "Each print call hands its console's output function exactly the characters of its arguments, in the order of the arguments: texts as they are (a text view up to its own end, whatever follows it in memory), integers in decimal with a sign and no leading zeros, hexadecimal numbers in capitals without leading zeros, zero as a single digit. This holds for every value, and however many interrupts that print themselves, on the same or on another console, come between any two characters: each context's output is complete, exact and on its own console.",
 ["schedules", "inputs", "histories"],
 "Every instant at which printing interrupts, nested ones too, arrive between two characters, every mixture of argument kinds and values, texts without an end mark, and both consoles.",
 "Tests print a few dozen fixed values from one context; no interrupt prints in between and no view ends before its memory does.",
 [U+"print.hh"], [("digits by division, leading zeros suppressed", U+"print.hh print_digit/printone"), ("arguments in order", U+"print.hh print")], [], ["characters given to the console's output function, per context"])
prop("S02", "Fixed strings and number texts stay within their space and exact",
 "A fixed string always holds the longest beginning of the text last copied into it that fits its capacity, followed by an end mark, whatever the source (plain text, a view without end mark, another or a volatile fixed string, its own ending) and whatever bytes it held before; length, free space, comparisons and iteration agree with it and copies are independent. A number converted to text is exact; when the buffer is too small it is refused, or, in the chopping variant, loses leading digits only, keeping sign and end mark (a buffer without room for a character is left alone). No byte outside the string or buffer is touched, and a successful conversion leaves the buffer behind its end mark alone.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "Every history of copies between strings of different capacities, every amount of room from none to plenty, every number, and every earlier content of the memory.",
 "Tests use short texts that fit or are cut once, four capacities, and numbers without a zero digit.",
 [U+"static_string.hh", U+"int_to_str.cc", U+"int_to_str.hh"], [("copying stops at the capacity, end mark always written", U+"static_string.hh copy"), ("digits counted before writing", U+"int_to_str.cc int_to_str"), ("leading digits skipped while they do not fit", U+"int_to_str.cc int_to_str_chop")], [("_data", "text and end mark", U+"static_string.hh")], ["text, length, available, comparisons", "result and buffer of the conversions", "memory around both"])
prop("K01", "Calibration follows the latest measurements and survives restarts",
 "A pitch calibration's slope is the difference of the two latest measurements since the last reset divided by their distance in octaves (rounded towards zero for whole numbers), unchanged when they share note or value; its offset is the latest measurement of the lowest note, or, while that has not been measured, the mean of both measurements extrapolated down with the slope. Unrecognised notes change nothing, a wild or noisy measurement has no influence after two good ones (and one of the lowest note, if that was the wild one), and a reset forgets everything. A calibrated channel maps both calibration measurements to their targets, every other value along the line through them, and back, to within rounding; recreating it from the slope and offset it reports gives exactly the same results, and an uncalibrated one changes nothing.",
 ["fault_sequences", "histories", "configurations"],
 "Every sequence of notes and measurements with noise, outliers, stuck converters, repeated, unrecognised and aborted measurements, moves and restarts at any moment, for all number types.",
 "Tests run one session of three measurements and four fixed calibrations, without faults or restarts.",
 [U+"voct_calibrator.hh", U+"calibrator.hh"], [("two latest data points kept", U+"voct_calibrator.hh record_measurement"), ("line through two points", U+"calibrator.hh calibrate_chan"), ("slope and offset set from stored ones", U+"calibrator.hh set_slope_offset")],
 [("datapt_, measured_C0_", "latest points, lowest note measured", U+"voct_calibrator.hh"), ("_slope, _offset", "calibration", U+"calibrator.hh")], ["slope, offset", "adjust, reverse_calibrate"])
prop("N01", "Random numbers keep to their bounds whatever the generator delivers",
 "For every output of the random generator, also when it is stuck or at its extremes, a random number lies between the given bounds (to within rounding for floating-point ones), grows with the generator's output in proportion across the range, is the lower bound at its smallest output, and is, for whole numbers, the upper bound at most at its largest; equal bounds give that value.",
 ["fault_sequences", "inputs"],
 "Every sequence of generator outputs, every pair of bounds whose distance is representable, and every number type.",
 "Tests draw a few hundred numbers from the host's generator, which never delivers its extremes.",
 [U+"math.hh"], [("generator output mapped to the range", U+"math.hh randomNumber/map_value")], [], ["randomNumber's result"])
def na(id, title, st, files, mech):
    prop(id, title, st, ["inputs", "histories"], "Every input and call sequence.", "Tests sample a handful of inputs.", files, [(mech, files[0])], [], ["return values"])
na("X04", "Numeric helpers, tables and interpolation are accurate over their domain",
   "Mapping, wrapping, saturation, table lookups and interpolated arrays give values within their stated error of the exact function over their whole input range.",
   [U+"math.hh", U+"math_tables.cc", U+"lookup_table.hh", U+"interp_array.hh", U+"cortex_math.hh"], "table lookup and arithmetic")
na("X06", "Colour conversion and blending stay in range and round as stated",
   "Blending, adjusting and converting colours gives each component within range and within one step of the exact result, for all components and phases.",
   [U+"colors.hh", U+"colors_rgb565.hh", U+"hsv.hh"], "fixed-point arithmetic")
na("X09", "Partitioning assigns every element once and balances the sums",
   "Every element is assigned to exactly one part and the largest part's sum exceeds the optimum by no more than the greedy bound.",
   [U+"partition.hh"], "greedy assignment of sorted elements")
na("X10", "Zipped iteration visits aligned elements up to the shortest range",
   "Zipping or enumerating containers visits each index once, in order, up to the shortest container, with references to the originals.",
   [U+"zip.hh", U+"countzip.hh"], "iterator comparison")
na("X11", "Version, word and string comparisons follow their orderings",
   "Version comparison is a total order consistent with equality, and case-insensitive comparison, word search, tokenizing and replacement follow their definitions.",
   [U+"version_tools.hh", U+"string_compare.hh", U+"contains_word.hh", U+"string_util.hh"], "comparison functions")
na("X12", "Audio frames convert samples without overflow",
   "Converting samples to and from floating point saturates, never overflows, and round-trips within one step for every sample width.",
   [U+"audio_frame.hh"], "scaling and saturation")

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
