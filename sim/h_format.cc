// B01..B03: compact binary records written to storage that loses power, sectors and bits, and read back
// PARTS 6
#include "core.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

using namespace sim;
namespace
{
enum { B01, B02, B03 };
enum F { F_CUT, F_SHORT_OUT, F_FLIP, F_SIZE, F_LOST, F_STALE, F_FOREIGN, F_SHORT_READ };
enum PR { P_WHOLE, P_NOTHING_CUT, P_WRONG_SIZE, P_DUPLICATE, P_NESTED, P_EMPTY_FIELD, P_BAD_SIZE_STOPS, P_MID_CHECK, P_EXACT_FIT, P_NO_ROOM, P_LARGE, P_TOO_DEEP, P_PADDING };

enum class Name : uint16_t {};
using Key6 = std::tuple<u8, Name, u32, int64_t, const char[4], const char[9]>;
using K = std::tuple_element_t<PART, Key6>;
constexpr bool text_key = std::is_array_v<K>;
constexpr size_t KS = sizeof(K);

template<class T>
struct KeyOf {
	T v{};
	T pass() const {
		return v;
	}
	bool matches(const u8 *p) const {
		return memcmp(p, &v, sizeof v) == 0;
	}
	bool same(KeyOf const &o) const {
		return v == o.v;
	}
	u8 byte(size_t i) const { // as stored
		return u8(u64(v) >> (8 * i));
	}
	static KeyOf make(u64 i) {
		static const u64 pool[] = {0x01, 0x0101, 0x00010001, 0, ~0ull, 0x80, 0x8000, 0x7f, 0xff, 0x100000001};
		return {static_cast<T>(pool[i % 10])};
	}
};
template<size_t N>
struct KeyOf<const char[N]> {
	std::array<char, N> v{};
	const char *pass() const { // null-terminated, or N characters long
		return v.data();
	}
	bool matches(const u8 *p) const {
		for (size_t i = 0; i < N; i++) {
			if (p[i] != u8(v[i]))
				return false;
			if (!p[i])
				return true;
		}
		return true;
	}
	bool same(KeyOf const &o) const {
		return strncmp(v.data(), o.v.data(), N) == 0;
	}
	u8 byte(size_t i) const { // as stored: padded with zeros
		return std::find(v.begin(), v.begin() + i, 0) != v.begin() + i ? 0 : u8(v[i]);
	}
	static KeyOf make(u64 i) {
		static const char *pool[] = {"a", "ab", "abc", "abcdefghi", "", "b", "abd", "abcdefghj", "\xff\xff", "abcd"};
		KeyOf k;
		strncpy(k.v.data(), pool[i % 10], N);
		return k;
	}
};
using KeyVal = KeyOf<K>;
bool same_key(KeyVal const &a, KeyVal const &b) {
	return a.same(b);
}

// ---------------------------------------------------------------- values
struct Odd {
	u8 b[3];
};
struct Text {
	char c[5];
};
struct Wide {
	u64 q[2];
	u8 t;
};
struct Large {
	u8 b[100];
};
constexpr size_t NTYPES = 10;
constexpr size_t type_size[NTYPES] = {1, 2, 4, 8, 4, 8, 3, 5, 24, 100};
template<class Fn>
void with_type(size_t t, Fn f) {
	switch (t) {
		case 0: return f.template operator()<u8>();
		case 1: return f.template operator()<int16_t>();
		case 2: return f.template operator()<u32>();
		case 3: return f.template operator()<u64>();
		case 4: return f.template operator()<float>();
		case 5: return f.template operator()<double>();
		case 6: return f.template operator()<Odd>();
		case 7: return f.template operator()<Text>();
		case 8: return f.template operator()<Wide>();
		default: return f.template operator()<Large>();
	}
}
struct Item {
	enum Kind { Field, Raw, Object } kind;
	KeyVal key;
	size_t type = 0;
	std::vector<u8> data; // Field, Raw
	std::vector<Item> kids;
};
using Items = std::vector<Item>;

template<class SizeT>
struct Sim {
	using Parser = CompactBinaryParser<K, SizeT>;
	using Ser = CompactBinarySerializer<K, SizeT>;
	static constexpr unsigned Depth = 4;
	using Writer = CompactBinaryWriter<K, SizeT, Depth>;
	static constexpr size_t HS = KS + sizeof(SizeT);
	static constexpr u64 LIM = u64(std::numeric_limits<SizeT>::max());

	std::vector<KeyVal> keys;

	// ------------------------------------------------------------ content
	void fill(std::vector<u8> &d) {
		u64 s = bits64();
		u64 style = choose(4);
		for (auto &b : d) {
			s = mix(s);
			b = style == 0 ? 0 : style == 1 ? 0xff : u8(s);
		}
	}
	// generates items of at most room bytes; returns the bytes used
	size_t generate(Items &out, size_t room, unsigned depth, u64 avg) {
		size_t used = 0;
		while (more(avg)) {
			if (used + HS > room)
				break;
			size_t left = std::min<u64>(room - used - HS, LIM);
			Item it{};
			it.key = keys[choose(keys.size())];
			u64 c = choose(8);
			if (c < 4) {
				it.kind = Item::Field;
				it.type = choose(NTYPES);
				if (type_size[it.type] > left)
					it.type = 0;
				if (type_size[it.type] > left)
					break;
				it.data.resize(type_size[it.type]);
				fill(it.data);
			} else if (c < 6 || depth >= Depth + 2) {
				it.kind = Item::Raw;
				size_t n = choose(5) == 0 ? 0 : choose(24);
				if (sizeof(SizeT) > 1 && choose(120) == 0) {
					n = LIM < 100000 ? LIM - choose(3) : 70000;
					probe(P_LARGE);
				} else if (sizeof(SizeT) == 1 && choose(12) == 0)
					n = LIM - choose(2);
				it.data.resize(std::min(n, left));
				fill(it.data);
				if (it.data.empty())
					probe(P_EMPTY_FIELD);
			} else {
				it.kind = Item::Object;
				used += generate(it.kids, left, depth + 1, 3);
				if (depth)
					probe(P_NESTED);
			}
			used += HS + it.data.size();
			out.push_back(std::move(it));
		}
		return used;
	}
	// ------------------------------------------------------------ reference encoder
	static void put_header(std::vector<u8> &o, KeyVal const &k, u64 size) {
		for (size_t i = 0; i < KS; i++)
			o.push_back(k.byte(i));
		for (size_t i = 0; i < sizeof(SizeT); i++)
			o.push_back(u8(size >> (8 * i)));
	}
	static size_t encoded_size(Items const &items) {
		size_t n = 0;
		for (auto &i : items)
			n += HS + i.data.size() + encoded_size(i.kids);
		return n;
	}
	static void encode(std::vector<u8> &o, Items const &items) {
		for (auto &i : items) {
			put_header(o, i.key, i.data.size() + encoded_size(i.kids));
			o.insert(o.end(), i.data.begin(), i.data.end());
			encode(o, i.kids);
		}
	}
	// ------------------------------------------------------------ the library's writers
	struct Describe {
		Items const *items;
		template<class S>
		void operator()(S &s) const {
			for (auto &i : *items)
				if (i.kind == Item::Field)
					with_type(i.type, [&]<class T>() {
						T v;
						memcpy(&v, i.data.data(), sizeof v);
						s.field(i.key.pass(), v);
					});
				else if (i.kind == Item::Raw)
					s.raw(i.key.pass(), std::span<const u8>{i.data});
				else
					s.object(i.key.pass(), Describe{&i.kids});
		}
	};
	// imperative writer, checked against the reference at every operation
	struct Open {
		size_t size_pos;
		bool deep; // deeper than the writer supports: its size field stays open
	};
	struct Imperative {
		Writer w;
		std::vector<u8> const &ref;
		std::span<u8> out;
		size_t cap;
		size_t pos = 0;
		std::vector<Open> open;
		std::vector<size_t> unset; // size fields that are never completed

		void check(bool contents) {
			CHECK(w.size() == pos, P(B03), "wrong-size", "the writer reports %lu bytes after %lu", w.size(), pos);
			if (!contents)
				return;
			auto skip = [&](size_t i) {
				for (auto &o : open)
					if (i >= o.size_pos && i < o.size_pos + sizeof(SizeT))
						return true;
				for (auto u : unset)
					if (i >= u && i < u + sizeof(SizeT))
						return true;
				return false;
			};
			for (size_t i = 0; i < std::min(pos, cap); i++)
				CHECK(out[i] == ref[i] || skip(i), P(B03), "wrong-bytes", "byte %lu is %02x instead of %02x (%lu of %lu bytes written, room for %lu)", i, out[i], ref[i], pos, ref.size(), cap);
		}
		void run(Items const &items) {
			for (auto &i : items) {
				step();
				if (i.kind == Item::Field) {
					with_type(i.type, [&]<class T>() {
						T v;
						memcpy(&v, i.data.data(), sizeof v);
						w.field(i.key.pass(), v);
					});
					pos += HS + i.data.size();
				} else if (i.kind == Item::Raw) {
					w.raw(i.key.pass(), std::span<const u8>{i.data});
					pos += HS + i.data.size();
				} else {
					open.push_back({pos + KS, open.size() >= Depth});
					w.begin_object(i.key.pass());
					pos += HS;
					run(i.kids);
					w.end_object();
					if (open.back().deep) {
						probe(P_TOO_DEEP);
						unset.push_back(open.back().size_pos);
					}
					open.pop_back();
				}
				bool look = pos < 2000 && choose(12) == 0;
				if (look)
					probe(P_MID_CHECK);
				check(look);
			}
		}
	};
	enum Way { Imp, Buf, Str, NWAYS };
	static unsigned depth_of(Items const &items) {
		unsigned d = 0;
		for (auto &i : items)
			if (i.kind == Item::Object)
				d = std::max(d, 1 + depth_of(i.kids));
		return d;
	}
	// writes the record into exactly cap bytes; returns what is there
	std::vector<u8> write(Items const &items, std::vector<u8> const &ref, size_t cap, int way) {
		// guards on both sides; the sanitizer watches what lies beyond them
		constexpr size_t G = 24;
		std::vector<u8> mem(cap + 2 * G, 0xA5);
		std::vector<u8> out;
		std::span<u8> span{mem.data() + G, cap};
		size_t said = 0;
		std::vector<u8> streamed;
		Describe d{&items};
		std::vector<size_t> unset;
		if (way == Imp) {
			Imperative im{Writer{span}, ref, span, cap};
			im.run(items);
			im.check(true);
			said = im.w.size();
			unset = im.unset;
			if (choose(6) == 0) { // one end too many changes nothing
				im.w.end_object();
				im.check(true);
			}
		} else if (way == Buf) {
			said = Ser::serialize(span, d);
		} else {
			size_t chunks = 0;
			said = Ser::stream(d, [&](std::span<const u8> s) {
				chunks++;
				step();
				streamed.insert(streamed.end(), s.begin(), s.end());
			});
			std::copy_n(streamed.begin(), std::min(cap, streamed.size()), span.begin());
			CHECK(streamed.size() == said, P(B03), "wrong-size", "the stream reports %lu bytes after %lu", said, streamed.size());
		}
		CHECK(said == ref.size(), P(B03), "wrong-size", "way %d reports %lu bytes for a record of %lu in %lu", way, said, ref.size(), cap);
		auto in_unset = [&](size_t i) {
			for (auto u : unset)
				if (i >= u && i < u + sizeof(SizeT))
					return true;
			return false;
		};
		for (size_t i = 0; i < mem.size(); i++) {
			u8 want = i < G || i >= G + cap || i - G >= ref.size() ? 0xA5 : ref[i - G];
			bool ok = mem[i] == want || (i >= G && i < G + cap && in_unset(i - G));
			CHECK(ok, P(B03), i < G || i >= G + cap ? "outside" : "wrong-bytes", "way %d: byte %ld is %02x instead of %02x (record of %lu bytes, room for %lu)", way, long(i) - long(G), mem[i], want, ref.size(), cap);
		}
		out.assign(span.begin(), span.begin() + std::min(cap, ref.size()));
		return out;
	}
	// ------------------------------------------------------------ lookups
	struct Found {
		bool found;		 // some entry has the key
		bool whole;		 // and lies wholly within the record
		size_t off, size;
		Item const *item;
	};
	// what the cut record must yield, from the content written
	static Found expect(Items const &items, KeyVal const &k, size_t have) {
		size_t pos = 0;
		for (auto &i : items) {
			size_t n = i.data.size() + encoded_size(i.kids);
			if (same_key(i.key, k))
				return {true, pos + HS + n <= have, pos + HS, n, &i};
			pos += HS + n;
		}
		return {false, false, 0, 0, nullptr};
	}
	// reference parser for arbitrary bytes
	static Found find(std::span<const u8> b, KeyVal const &k) {
		size_t pos = 0;
		while (b.size() - pos >= HS) {
			SizeT sz;
			memcpy(&sz, b.data() + pos + KS, sizeof sz);
			size_t left = b.size() - pos - HS;
			bool fits = sz >= 0 && u64(sz) <= left;
			if (k.matches(b.data() + pos))
				return {true, fits, pos + HS, fits ? size_t(sz) : 0, nullptr};
			if (!fits) {
				probe(P_BAD_SIZE_STOPS);
				break;
			}
			pos += HS + size_t(sz);
		}
		return {false, false, 0, 0, nullptr};
	}
	void check_key(std::span<const u8> blob, KeyVal const &k, Found e, u64 props) {
		step();
		Parser p{blob};
		size_t size = e.whole ? e.size : 0;
		auto node = p.get_node(k.pass());
		CHECK(node.size() == size, props, e.whole ? "value-lost" : "bogus-node", "a node of %lu bytes instead of %lu (record of %lu bytes)", node.size(), size, blob.size());
		if (size)
			CHECK(node.data() == blob.data() + e.off, props, "bogus-node", "the node lies at %ld instead of %lu", long(node.data() - blob.data()), e.off);
		for (size_t t = 0; t < NTYPES; t++)
			with_type(t, [&]<class T>() {
				auto v = p.template get<T>(k.pass());
				bool want = e.whole && e.size == sizeof(T);
				CHECK(v.has_value() == want, props, want ? "value-lost" : "bogus-value", "a value of %lu bytes is %s; the entry %s %lu bytes (record of %lu bytes)", sizeof(T), v ? "there" : "not there", e.whole ? "has" : "is not whole:", e.size, blob.size());
				if (want && v)
					CHECK(memcmp(&*v, blob.data() + e.off, sizeof(T)) == 0, props, "wrong-value", "the value of %lu bytes at %lu differs", sizeof(T), e.off);
				if (e.whole && !want)
					probe(P_WRONG_SIZE);
			});
		if (e.whole)
			CHECK(p.get_size(k.pass()) == e.size, props, "wrong-size", "size %lu instead of %lu", p.get_size(k.pass()), e.size);
		if (!e.found)
			CHECK(p.get_size(k.pass()) == 0, props, "bogus-node", "size %lu for a missing key", p.get_size(k.pass()));
		if (e.whole)
			probe(P_WHOLE);
		else if (e.found)
			probe(P_NOTHING_CUT);
	}
	// exactly as many bytes as there are, on the heap
	struct Exact {
		u8 *p;
		size_t n;
		Exact(std::span<const u8> s)
			: p{new u8[s.size()]}
			, n{s.size()} {
			std::copy(s.begin(), s.end(), p);
		}
		~Exact() {
			delete[] p;
		}
		std::span<const u8> span() const {
			return {p, n};
		}
	};
	void check_written(std::span<const u8> blob, Items const &items, size_t have, u64 props, unsigned depth = 0) {
		for (auto &k : keys) {
			auto e = expect(items, k, have);
			check_key(blob, k, e, props);
			if (e.whole && e.size) {
				if (e.item->kind == Item::Object)
					check_written(blob.subspan(e.off, e.size), e.item->kids, e.size, props, depth + 1);
				else
					CHECK(memcmp(blob.data() + e.off, e.item->data.data(), e.size) == 0, props, "wrong-value", "the bytes of a field of %lu bytes differ", e.size);
			}
		}
	}
	void check_any(std::span<const u8> blob, unsigned depth = 0) {
		for (auto &k : keys) {
			auto e = find(blob, k);
			check_key(blob, k, e, P(B02));
			if (e.whole && e.size >= HS && depth < 3) {
				// nested records get memory of their own: reading beyond one is out of bounds
				if (depth == 0 && choose(4) == 0) {
					Exact x{blob.subspan(e.off, e.size)};
					check_any(x.span(), depth + 1);
				} else
					check_any(blob.subspan(e.off, e.size), depth + 1);
			}
		}
	}
	// positions of the headers, at every nesting level
	static void headers(Items const &items, size_t base, std::vector<size_t> &out) {
		for (auto &i : items) {
			out.push_back(base);
			headers(i.kids, base + HS, out);
			base += HS + i.data.size() + encoded_size(i.kids);
		}
	}

	void run() {
		size_t nk = 1 + choose(6), k0 = choose(10);
		for (size_t i = 0; i < nk; i++) {
			auto k = KeyVal::make(k0 + i * (1 + choose(2)));
			bool dup = false;
			for (auto &o : keys)
				dup |= same_key(o, k);
			if (!dup)
				keys.push_back(k);
		}
		EV("%lu keys of %lu bytes from %lu, size field of %lu bytes, limit %lu", keys.size(), KS, k0, sizeof(SizeT), LIM);
		size_t sector = pick({8, 16, 64});
		std::vector<u8> area(choose(300), 0xff), old;
		u64 volume = 0;
		for (u64 saves = 1 + choose(3); saves--;) {
			Items items;
			generate(items, choose(8) ? 400 : 150000, 0, 2 + choose(8));
			std::vector<u8> ref;
			encode(ref, items);
			volume += ref.size();
			u64 fp = 0;
			for (auto b : ref)
				fp = fp * 31 + b;
			EV("record of %lu bytes, %lu entries, contents %lx", ref.size(), items.size(), fp);
			bool deep = depth_of(items) > Depth;
			if (ref.size() > HS)
				run_nontrivial = true;
			std::vector<size_t> hdr;
			headers(items, 0, hdr);
			auto near_header = [&]() -> size_t {
				if (hdr.empty())
					return choose(HS);
				size_t h = hdr[choose(hdr.size())] + choose(2 * HS + 2);
				return h ? h - 1 : 0;
			};
			// all writers, room enough and too little
			std::vector<u8> rec;
			int kept = deep ? 1 + choose(2) : choose(3);
			for (int way = 0; way < NWAYS; way++) {
				auto full = write(items, ref, ref.size() + (choose(2) ? 0 : choose(40)), way);
				if (way == kept)
					rec = full;
				for (u64 n = 1 + choose(3); n--;) {
					size_t cap = choose(3) ? std::min(ref.size(), near_header()) : choose(ref.size() + 1);
					if (cap == ref.size())
						probe(P_EXACT_FIT);
					else
						fault(F_SHORT_OUT);
					if (!cap)
						probe(P_NO_ROOM);
					EV("way %d in %lu bytes", way, cap);
					write(items, ref, cap, way);
				}
			}
			size_t measured = Ser::measure(Describe{&items});
			CHECK(measured == ref.size(), P(B03), "wrong-size", "measured %lu bytes instead of %lu", measured, ref.size());
			{
				Exact x{rec};
				check_written(x.span(), items, rec.size(), P(B03) | P(B01));
			}
			for (auto &a : items)
				for (auto &b : items)
					if (&a < &b && same_key(a.key, b.key)) {
						probe(P_DUPLICATE);
						goto dup;
					}
		dup:
			// ---- the record is programmed into storage; power is lost on the way
			for (u64 n = 1 + choose(ref.size() < 2000 ? 6 : 2); n--;) {
				size_t cut = choose(3) ? std::min(rec.size(), near_header()) : choose(rec.size() + 1);
				fault(F_CUT);
				EV("power lost after %lu bytes", cut);
				Exact x{std::span{rec}.first(cut)};
				check_written(x.span(), items, cut, P(B01));
			}
			// ---- damaged storage
			for (u64 n = 1 + choose(4); n--;) {
				auto st = rec;
				if (choose(4) == 0) { // an area larger than the record, with what was there before
					fault(F_STALE);
					st = area;
					if (st.size() < rec.size())
						st.resize(rec.size(), 0xff);
					size_t prog = choose(2) ? rec.size() : choose(rec.size() + 1);
					std::copy_n(rec.begin(), prog, st.begin());
					EV("stale storage after %lu bytes", prog);
				}
				if (choose(5) == 0) {
					fault(F_SHORT_READ);
					st.resize(choose(st.size() + 1));
					EV("short read of %lu", st.size());
				}
				for (u64 f = choose(4); f-- && !st.empty();) {
					switch (choose(5)) {
						case 0: {
							fault(F_FLIP);
							size_t at = choose(3) ? std::min(st.size() - 1, near_header()) : choose(st.size());
							u64 bit = choose(8);
							st[at] ^= 1 << bit;
							EV("bit %lu of byte %lu flips", bit, at);
							break;
						}
						case 1: {
							// a size field becomes extreme, or just too large or small
							fault(F_SIZE);
							size_t at = hdr.empty() ? 0 : hdr[choose(hdr.size())];
							at += KS;
							if (at + sizeof(SizeT) > st.size())
								break;
							size_t left = st.size() - at - sizeof(SizeT);
							u64 v;
							switch (choose(7)) {
								case 0: v = left + choose(3) - 1; break;
								case 1: v = ~0ull - choose(300); break;
								case 2: v = LIM - choose(16); break;
								case 3: v = LIM + 1 + choose(3); break;
								case 4: v = 0 - u64(at + sizeof(SizeT)) + choose(16) - 8; break; // back to the start
								case 5: v = bits64(); break;
								default: v = choose(20); break;
							}
							memcpy(st.data() + at, &v, sizeof(SizeT));
							EV("size field at %lu becomes %lx", at, v);
							break;
						}
						case 2: {
							fault(F_LOST);
							size_t s = choose((st.size() + sector - 1) / sector);
							u8 v = choose(2) ? 0xff : 0;
							for (size_t i = s * sector; i < std::min(st.size(), (s + 1) * sector); i++)
								st[i] = v;
							EV("sector %lu lost", s);
							break;
						}
						case 3: {
							fault(F_FOREIGN);
							size_t at = choose(st.size()), n = 1 + choose(40);
							u64 s = bits64(), m = choose(3) ? 0xff : 7;
							for (size_t i = at; i < std::min(st.size(), at + n); i++)
								st[i] = (s = mix(s)) & m;
							EV("foreign data at %lu", at);
							break;
						}
						case 4: {
							if constexpr (text_key) { // whatever follows the end of a key is padding
								if (hdr.empty())
									break;
								size_t h = hdr[choose(hdr.size())];
								bool end = false;
								for (size_t i = 0; i < KS && h + i < st.size(); i++) {
									if (end)
										st[h + i] = u8(choose(256)), probe(P_PADDING);
									end = end || !st[h + i];
								}
							}
							break;
						}
					}
				}
				Exact x{st};
				check_any(x.span());
			}
			area.assign(rec.begin(), rec.end());
			area.resize(rec.size() + choose(60), 0xff);
		}
		sim_time(volume);
	}
};
} // namespace

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(run_part, PART)() {
	switch (choose(8)) {
		case 0: return Sim<u8>{}.run();
		case 1: return Sim<int8_t>{}.run();
		case 2: return Sim<uint16_t>{}.run();
		case 3: return Sim<int16_t>{}.run();
		case 4: return Sim<u32>{}.run();
		case 5: return Sim<int32_t>{}.run();
		case 6: return Sim<u64>{}.run();
		default: return Sim<int64_t>{}.run();
	}
}
#if PART == 0
void run_part1();
void run_part2();
void run_part3();
void run_part4();
void run_part5();
static void run() {
	switch (choose(6)) {
		case 0: return run_part0();
		case 1: return run_part1();
		case 2: return run_part2();
		case 3: return run_part3();
		case 4: return run_part4();
		default: return run_part5();
	}
}
namespace sim
{
Harness harness = {
	"format",
	{{"B01", 400000, 20000000, "Each run draws key type, size-field type, content (fields of ten types, raw data, nested objects, repeated keys) and writer, then cuts each record at drawn bytes, mostly around headers, and looks every key up with every type at every level. Non-trivial: a record holds more than one header."},
	 {"B02", 400000, 20000000, "Each run draws content as above, then flips bits, overwrites size fields, loses sectors, leaves stale and foreign data and shortens reads, and compares every lookup with an independent parser on exactly sized heap memory. Non-trivial: a record holds more than one header."},
	 {"B03", 400000, 20000000, "Each run draws content and writes it with the three writers into room enough and too little, comparing with an independent encoder, also in the middle of writing, and reads it back. Non-trivial: a record holds more than one header."}},
	{"power lost while the record is stored", "output too small", "bit flip", "size field overwritten", "sector lost", "stale data behind the record", "foreign data", "short read"},
	{"lookup of a whole field", "lookup of a cut or bad entry", "lookup with the wrong size", "several fields with one key", "nested object inside an object", "field without data", "bad size ends the search", "comparison in the middle of writing", "exact fit", "no room at all", "data as long as the size field allows or longer than 64 KiB", "nesting deeper than the writer supports", "rubbish in the padding of a key"},
	"complete event log (content fingerprint, cuts, faults)",
	"bytes of records written",
	{"util/compact_binary_parser.hh", "util/compact_binary_serializer.hh", "util/compact_binary_writer.hh"},
	{"storage: bytes with cuts, lost sectors, flips and stale data"},
	{"content fits the size field; size fields of objects nested deeper than the imperative writer's MaxDepth are not compared"},
	run,
	400000};
}
#endif
