// S01, S02, K01, N01: console output from nested contexts, text into limited space, calibration sessions, the random source
#include "core.hh"
#include "util/print.hh"
#include "util/static_string.hh"
#include "util/int_to_str.hh"
#include "util/int_to_str.cc"
#include "util/voct_calibrator.hh"
#include "util/calibrator.hh"
#include "util/math.hh"

using namespace sim;
static int rand_mode = -1, rand_value;
extern "C" int __real_rand();
extern "C" int __wrap_rand() {
	return rand_mode < 0 ? __real_rand() : rand_value;
}
namespace
{
enum { S01, S02, K01, N01 };
enum F { F_INTERRUPT, F_NESTED, F_BUSY, F_NO_SPACE, F_UNTERMINATED, F_OLD_BYTES, F_SELF, F_OUTLIER, F_REPEATED, F_NO_NOTE, F_ABORT, F_RESTART, F_NOISE, F_STUCK_GEN, F_EXTREME_GEN };
enum PR { P_NEGATIVE, P_INNER_ZERO, P_EXTREME, P_HEX, P_VIEW, P_TWO_CONSOLES, P_EMPTY, P_FULL, P_TRUNCATED, P_VOLATILE, P_EXACT_FIT, P_REFUSED, P_CHOPPED, P_BASE_NOTE, P_SLOPE, P_SAME_NOTE, P_REVERSE, P_RELOADED, P_UPPER, P_LOWER };
using LD = long double;

int32_t number() {
	static constexpr int32_t pw[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
	int32_t v;
	switch (choose(7)) {
		case 0:
			v = int32_t(choose(20)) - 10;
			break;
		case 1:
			v = pw[choose(10)];
			break;
		case 2:
			v = pw[choose(10)] + (choose(2) ? 1 : -1);
			break;
		case 3: { // digits with zeros between
			int64_t x = 0;
			for (u64 i = 0, n = 1 + choose(9); i < n; i++)
				x = x * 10 + (choose(2) ? 0 : 1 + choose(9));
			v = int32_t(x);
			break;
		}
		case 4:
			v = pick({INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 0, INT32_MAX - 7});
			probe(P_EXTREME);
			break;
		case 5:
			v = int32_t(choose(1 << 20));
			break;
		default:
			v = int32_t(u32(bits64()));
	}
	if (v != INT32_MIN && choose(3) == 0)
		v = -v;
	if (v < 0)
		probe(P_NEGATIVE);
	char t[16];
	snprintf(t, sizeof t, "%d", v);
	size_t l = strlen(t);
	if (l > 1 && memchr(t, '0', l - 1))
		probe(P_INNER_ZERO);
	return v;
}
std::string decimal(int64_t v) {
	return std::to_string((long long)v);
}
std::string word(size_t max) {
	std::string s; // no end marks inside
	static const char cs[] = "abAB019 -.:%\n\t?\x7f\x80\xff";
	for (u64 n = choose(max + 1); s.size() < n;)
		s += cs[choose(sizeof cs - 1)];
	return s;
}
// A block of exactly the bytes given, so that reading beyond them is noticed
struct Exact {
	std::unique_ptr<char[]> p;
	size_t n;
	explicit Exact(std::string const &s, bool terminated)
		: p{new char[s.size() + terminated]}
		, n{s.size()} {
		memcpy(p.get(), s.data(), s.size());
		if (terminated)
			p[n] = 0;
	}
};

// ---------------------------------------------------------------- S01
struct Console {
	std::string got;
};
struct Ctx {
	Console con[2];
	std::string want[2];
	int current = 0; // console being printed to
};
constexpr int DEPTH = 3;
Ctx ctx[DEPTH];
int depth;
u64 ticks;
int irq_rate;
void print_something();

void out(int c, char ch) {
	step();
	ticks++;
	auto &x = ctx[depth];
	auto &got = x.con[c].got;
	got += ch;
	EV("context %d console %d: %d", depth, c, int(u8(ch)));
	CHECK(c == x.current, P(S01), "wrong-console", "a character for console %d came out on console %d", x.current, c);
	auto &w = x.want[c];
	CHECK(got.size() <= w.size() && got.back() == w[got.size() - 1], P(S01), "wrong-text", "character %lu is %d, not %d", got.size(), int(u8(ch)),
		  got.size() <= w.size() ? int(u8(w[got.size() - 1])) : -1);
	if (WithStream s(S_FAULT); chance(1, 40)) {
		fault(F_BUSY); // the device is busy: others run meanwhile
		ticks += choose(1000);
	}
	if (depth + 1 < DEPTH) {
		WithStream s(S_SCHED);
		if (chance(1, irq_rate)) {
			fault(depth ? F_NESTED : F_INTERRUPT);
			depth++;
			print_something();
			depth--;
		}
	}
}
void putc_a(const char c) {
	out(0, c);
}
void putc_b(const char c) {
	out(1, c);
}

struct Arg {
	int kind;
	std::string text;	// what must appear
	int64_t num;
	std::unique_ptr<Exact> mem;
};
Arg argument() {
	Arg a;
	a.kind = choose(8);
	switch (a.kind) {
		case 0:
		case 1:
		case 2: {
			a.text = word(choose(4) ? 6 : chance(1, 500) ? 700 : 40);
			a.mem = std::make_unique<Exact>(a.text, a.kind != 2);
			if (a.kind == 2)
				probe(P_VIEW);
			if (a.text.empty())
				probe(P_EMPTY);
			break;
		}
		case 3:
			a.num = number();
			a.text = decimal(a.num);
			break;
		case 4: {
			u32 h = choose(3) ? u32(bits64()) >> choose(32) : pick<u32>({0, 0xffffffff, 0x80000000, 0x10000000, 0x0f000000, 0xa0, 0x9f, 0xf});
			a.num = h;
			char t[16];
			snprintf(t, sizeof t, "%X", h);
			a.text = t;
			probe(P_HEX);
			break;
		}
		case 5:
			a.num = int16_t(choose(65536));
			a.text = decimal(a.num);
			break;
		case 6:
			a.num = choose(256);
			a.text = decimal(a.num);
			break;
		default:
			a.num = choose(65536);
			a.text = decimal(a.num);
	}
	return a;
}
template<class Fn>
void unpack(Arg const &a, Fn fn) {
	switch (a.kind) {
		case 0:
			return fn((const char *)a.mem->p.get());
		case 1:
			return fn((const unsigned char *)a.mem->p.get());
		case 2:
			return fn(std::string_view{a.mem->p.get(), a.mem->n});
		case 3:
			return fn(int32_t(a.num));
		case 4:
			return fn(Hex{u32(a.num)});
		case 5:
			return fn(int16_t(a.num));
		case 6:
			return fn(u8(a.num));
		default:
			return fn(uint16_t(a.num));
	}
}
template<putchar_t putc>
void emit(std::vector<Arg> const &a) {
	switch (a.size()) {
		case 0:
			return print<putc>();
		case 1:
			return unpack(a[0], [](auto x) { chance(1, 2) ? print<putc>(x) : printone<putc>(x); });
		case 2:
			return unpack(a[0], [&](auto x) { unpack(a[1], [&](auto y) { print<putc>(x, y); }); });
		case 3:
			return unpack(a[0], [&](auto x) { unpack(a[1], [&](auto y) { print<putc>(y, "\t", x); }); });
		default:
			return unpack(a[0], [&](auto x) { print<putc>(x, x, Hex{0x1F0}, x); });
	}
}
void print_something() {
	WithStream ws(S_T1 + depth);
	auto &x = ctx[depth];
	int c = x.current = choose(2);
	if (c)
		probe(P_TWO_CONSOLES);
	std::vector<Arg> a;
	for (u64 n = choose(5); a.size() < n;)
		a.push_back(argument());
	x.con[c].got.clear();
	auto &w = x.want[c];
	w.clear();
	if (a.size() == 3)
		w = a[1].text + "\t" + a[0].text;
	else if (a.size() == 4)
		w = a[0].text + a[0].text + "1F0" + a[0].text;
	else
		for (auto &t : a)
			w += t.text;
	EV("context %d prints %lu arguments, %lu characters", depth, a.size(), w.size());
	c ? emit<putc_b>(a) : emit<putc_a>(a);
	CHECK(x.con[c].got == w, P(S01), "wrong-text", "%lu characters came out instead of %lu", x.con[c].got.size(), w.size());
}
void run_S01() {
	depth = 0;
	ticks = 0;
	for (auto &x : ctx)
		x = {};
	{
		WithStream s(S_CONFIG);
		irq_rate = pick({4, 12, 60});
	}
	while (more(8)) {
		step();
		print_something();
	}
	run_nontrivial = ticks > 4;
	sim_time(ticks);
}

// ---------------------------------------------------------------- S02
template<size_t N>
struct Fixed {
	struct Cell {
		u8 before[8];
		StaticString<N> s;
		u8 after[8];
	};
	std::unique_ptr<Cell> c;
	std::string m;
	void fresh() {
		c.reset((Cell *)::operator new(sizeof(Cell)));
		scribble(0);
	}
	void scribble(size_t from) { // what lies behind the text is not part of it
		for (auto &b : c->before)
			b = 0xB5;
		for (auto &b : c->after)
			b = 0xA5;
		u64 k = N > 64 ? choose(256) : 0;
		for (size_t i = from; i < N + 1; i++)
			const_cast<char *>(c->s.data())[i] = "x\xff 7"[N > 64 ? (i * k >> 3) % 4 : choose(4)];
		fault(F_OLD_BYTES);
	}
	StaticString<N> &str() {
		return c->s;
	}
	void set(std::string t) {
		if (auto z = t.find('\0'); z != t.npos)
			t.resize(z);
		if (t.size() > N)
			probe(P_TRUNCATED), fault(F_NO_SPACE);
		m = t.substr(0, N);
		if (m.size() == N)
			probe(P_FULL);
		if (m.empty())
			probe(P_EMPTY);
	}
	void check() {
		auto &s = c->s;
		size_t l = strnlen(s.data(), N + 1);
		CHECK(l <= N, P(S02), "not-terminated", "no end within the capacity %lu", N);
		CHECK(std::string(s.data(), l) == m, P(S02), "wrong-contents", "capacity %lu: %lu characters instead of %lu, or others", N, l, m.size());
		auto const &k = s;
		CHECK(k.length() == m.size() && k.size() == m.size(), P(S02), "wrong-length", "length %lu, size %lu instead of %lu", k.length(), k.size(), m.size());
		CHECK(k.available() == N - m.size(), P(S02), "wrong-length", "%lu available instead of %lu", k.available(), N - m.size());
		CHECK(m == k.c_str() && m == k.data() && m == (const char *)k && m == std::string_view(k.operator std::string_view()), P(S02), "wrong-contents", "views of the text differ");
		CHECK(std::string(k.begin(), k.end()) == m && std::string(s.begin(), s.end()) == m, P(S02), "wrong-contents", "iteration differs");
		CHECK(k.is_equal(m.c_str()), P(S02), "wrong-comparison", "not equal to its own text");
		for (auto b : c->before)
			CHECK(b == 0xB5, P(S02), "outside", "memory before the string was changed");
		for (auto b : c->after)
			CHECK(b == 0xA5, P(S02), "outside", "memory behind the string was changed");
		static_assert(StaticString<N>::capacity == N);
	}
};
std::tuple<Fixed<0>, Fixed<1>, Fixed<4>, Fixed<7>, Fixed<31>, Fixed<300>> *fixed;
template<class Fn>
void with_fixed(u64 i, Fn fn) {
	switch (i) {
		case 0:
			return fn(std::get<0>(*fixed));
		case 1:
			return fn(std::get<1>(*fixed));
		case 2:
			return fn(std::get<2>(*fixed));
		case 3:
			return fn(std::get<3>(*fixed));
		case 4:
			return fn(std::get<4>(*fixed));
		default:
			return fn(std::get<5>(*fixed));
	}
}
u64 which_fixed() { // the long one rarely
	u64 k = choose(401);
	return k == 400 ? 5 : k % 5;
}
std::string text_for(size_t n) {
	std::string s;
	u64 len = n > 200 && choose(2) ? n - 50 + choose(60) : choose(4) ? choose(n + 3) : choose(40);
	while (s.size() < len)
		s += "ab 1~\x80\xffz"[choose(8)];
	return s;
}
template<size_t N>
void string_op(Fixed<N> &f) {
	auto text = text_for(N);
	EV("capacity %lu: text of %lu", N, text.size());
	switch (choose(12)) {
		case 0: {
			Exact e(text, true);
			f.str().copy((const char *)e.p.get());
			f.set(text);
			break;
		}
		case 1: {
			Exact e(text, false);
			fault(F_UNTERMINATED);
			f.str().copy(std::string_view{e.p.get(), e.n});
			f.set(text);
			break;
		}
		case 2: {
			Exact e(text, true);
			probe(P_VOLATILE);
			const_cast<StaticString<N> volatile &>(f.str()).copy((const char *)e.p.get());
			f.set(text);
			break;
		}
		case 3:
			f.str().clear();
			f.set("");
			break;
		case 4: {
			f.fresh();
			Exact e(text, true);
			new (&f.str()) StaticString<N>((const char *)e.p.get());
			f.set(text);
			break;
		}
		case 5: {
			f.fresh();
			Exact e(text, false);
			fault(F_UNTERMINATED);
			new (&f.str()) StaticString<N>(std::string_view{e.p.get(), e.n});
			f.set(text);
			break;
		}
		case 6:
			f.fresh();
			new (&f.str()) StaticString<N>;
			f.set("");
			break;
		case 7: { // its own end
			size_t k = choose(f.m.size() + 1);
			fault(F_SELF);
			auto rest = f.m.substr(k);
			if (choose(2))
				f.str().copy(f.str().c_str() + k);
			else
				f.str().copy(std::string_view{f.str().c_str() + k});
			f.set(rest);
			break;
		}
		case 8: { // part of a text holding an end
			text += '\0';
			text += "zz";
			f.str().copy(std::string_view{text});
			f.set(text);
			break;
		}
		case 9: {
			StaticString<N> copy = f.str();
			auto was = f.m;
			CHECK(was == copy.c_str(), P(S02), "wrong-contents", "a copy differs");
			f.str().copy("q");
			f.set("q");
			CHECK(was == copy.c_str(), P(S02), "wrong-contents", "a copy follows the original");
			if (choose(2)) {
				f.str() = copy;
				f.set(was);
			}
			break;
		}
		default:
			with_fixed(which_fixed(), [&](auto &g) {
				bool same = f.m == g.m;
				CHECK((f.str() == g.str()) == same, P(S02), "wrong-comparison", "comparing two strings gives %d", !same);
				CHECK(f.str().is_equal(text.c_str()) == (text == f.m), P(S02), "wrong-comparison", "is_equal gives the wrong result");
				switch (choose(4)) {
					case 0:
						f.str().copy(g.str());
						break;
					case 1:
						probe(P_VOLATILE);
						f.str().copy(static_cast<std::remove_reference_t<decltype(g.str())> const &>(g.str()));
						break;
					case 2:
						probe(P_VOLATILE);
						const_cast<StaticString<N> volatile &>(f.str()).copy(static_cast<std::remove_reference_t<decltype(g.str())> const &>(g.str()));
						break;
					default:
						probe(P_VOLATILE);
						const_cast<StaticString<N> volatile &>(f.str()).copy(static_cast<std::remove_reference_t<decltype(g.str())> volatile const &>(g.str()));
				}
				f.set(std::string(g.m));
			});
	}
	f.check();
	if (chance(1, 2)) {
		size_t l = strlen(f.str().c_str());
		f.scribble(l + 1);
		f.check();
	}
}
void number_op() {
	int32_t v = number();
	auto want = decimal(v);
	bool neg = v < 0;
	size_t size = choose(3) ? choose(14) : want.size() + choose(3);
	if (chance(1, 200))
		size = pick<size_t>({255, 256, 257, 258, 300, 65536, 65538});
	auto p = std::make_unique<char[]>(size + 4); // bytes behind the buffer given
	for (size_t i = 0; i < size + 4; i++)
		p[i] = char(0x7f - i % 3);
	std::unique_ptr<char[]> exact(new char[size]);
	bool use_exact = choose(2);
	char *b = use_exact ? exact.get() : p.get();
	if (use_exact)
		for (size_t i = 0; i < size; i++)
			b[i] = char(0x7f - i % 3);
	EV("%d into %lu bytes", v, size);
	bool chop = choose(2);
	std::string expect = want;
	bool fits = want.size() + 1 <= size;
	if (want.size() + 1 == size)
		probe(P_EXACT_FIT);
	bool done = true;
	if (chop) {
		int_to_str_chop(v, std::span<char>{b, size});
		if (size < 2)
			done = false; // no room for a digit: left alone
		else if (!fits) {
			probe(P_CHOPPED);
			fault(F_NO_SPACE);
			expect = (neg ? "-" : "") + want.substr(want.size() - (size - 1 - neg));
		}
	} else {
		bool r = int_to_str(v, std::span<char>{b, size});
		CHECK(r == fits, P(S02), r ? "accepted-without-room" : "refused-with-room", "%d into %lu bytes gives %d", v, size, r);
		if (!fits)
			probe(P_REFUSED), fault(F_NO_SPACE);
		done = fits;
	}
	if (done) {
		CHECK(strnlen(b, size) == expect.size() && expect == std::string(b, expect.size()), P(S02), "wrong-digits", "%d into %lu bytes: wrong text", v, size);
		for (size_t i = expect.size() + 1; i < size; i++)
			CHECK(b[i] == char(0x7f - i % 3), P(S02), "outside", "byte %lu behind the text of %d was changed", i, v);
	}
	if (!use_exact)
		for (size_t i = size; i < size + 4; i++)
			CHECK(b[i] == char(0x7f - i % 3), P(S02), "outside", "byte %lu behind the buffer was changed", i);
	u32 u = u32(v);
	CHECK(num_digits(u) == decimal(u).size(), P(S02), "wrong-digits", "%u has %u digits", u, num_digits(u));
}
void run_S02() {
	std::remove_reference_t<decltype(*fixed)> all;
	fixed = &all;
	std::apply([](auto &...f) { ((f.fresh(), new (&f.str()) std::remove_reference_t<decltype(f.str())>), ...); }, all);
	u64 ops = 0;
	WithStream s(S_T1);
	while (more(20)) {
		step();
		ops++;
		if (choose(3) == 0)
			number_op();
		else
			with_fixed(which_fixed(), [](auto &f) { string_op(f); });
	}
	std::apply([](auto &...f) { (f.check(), ...); }, all);
	run_nontrivial = ops > 2;
	sim_time(ops);
}

// ---------------------------------------------------------------- K01
template<class T>
struct RefVoct {
	std::optional<std::pair<int, T>> a, b; // the two latest
	bool base = false;
	T base_value{};
	LD slope = 0, offset = 0, tol = 0;
	void record(int note, T v) {
		if (note == 11)
			return;
		if (note == 0) {
			base = true;
			base_value = v;
			probe(P_BASE_NOTE);
		}
		a = b;
		b = {note, v};
		if (a && b) {
			int span = a->first - b->first;
			if (span && a->second != b->second) {
				slope = (LD(a->second) - LD(b->second)) / span;
				if constexpr (std::is_integral_v<T>)
					slope = std::trunc(slope);
				else
					slope_tol = std::numeric_limits<T>::epsilon() * 4 * (std::fabs(slope) + (std::fabs(LD(a->second)) + std::fabs(LD(b->second))) * std::numeric_limits<T>::epsilon());
				probe(P_SLOPE);
			} else {
				probe(P_SAME_NOTE);
				fault(F_REPEATED);
			}
			if (!base) {
				LD o0 = LD(a->second) - slope * a->first, o1 = LD(b->second) - slope * b->first;
				offset = (o0 + o1) / 2;
				if constexpr (std::is_integral_v<T>) {
					LD top = std::numeric_limits<T>::max();
					tol = std::fabs(o0) > top || std::fabs(o1) > top || std::fabs(LD(a->second) - LD(b->second)) > top ? 1e30L : 1; // not representable
				} else
					tol = 8 * std::numeric_limits<T>::epsilon() * (std::fabs(LD(a->second)) + std::fabs(LD(b->second)) + std::fabs(slope) * 20) + slope_tol * 10;
			}
		}
		if (base)
			offset = base_value, tol = 0;
	}
	LD slope_tol = 0;
};
template<class T>
void voct() {
	using V = VoctCalibrator<T>;
	std::optional<V> v;
	v.emplace();
	RefVoct<T> m;
	LD gain = std::is_integral_v<T> ? LD(choose(2400)) - 1200 : (LD(choose(200001)) - 100000) / 97;
	LD zero = std::is_integral_v<T> ? LD(choose(2001)) - 1000 : (LD(choose(200001)) - 100000) / 61;
	int noise = pick({0, 1, 4});
	u64 n = 0;
	auto look = [&] {
		LD o = v->offset(), s = v->slope();
		LD st = std::is_integral_v<T> ? LD(0) : m.slope_tol;
		CHECK(std::fabs(s - m.slope) <= st, P(K01), "wrong-slope", "slope %.9g instead of %.9g", double(s), double(m.slope));
		CHECK(std::fabs(o - m.offset) <= m.tol, P(K01), "wrong-offset", "offset %.9g instead of %.9g", double(o), double(m.offset));
	};
	look();
	while (more(12)) {
		step();
		WithStream s(S_FAULT);
		if (chance(1, 12)) {
			fault(F_ABORT);
			EV("calibration started again");
			v->reset();
			m = {};
			look();
			continue;
		}
		int note = choose(11);
		if (chance(1, 10))
			note = 11, fault(F_NO_NOTE);
		else if (chance(1, 4) && m.b)
			note = m.b->first;
		LD x = gain * note + zero;
		if (noise)
			x += LD(choose(2 * noise + 1)) - noise, fault(F_NOISE);
		if (chance(1, 12)) {
			fault(F_OUTLIER);
			x = std::is_integral_v<T> ? LD(choose(32001)) - 16000 : (LD(choose(2000001)) - 1000000) / 7;
		} else if (chance(1, 8) && m.b)
			x = m.b->second; // stuck converter
		T t = T(std::is_integral_v<T> ? std::clamp<LD>(std::round(x), -16000, 16000) : x);
		EV("note %d measured %.9g", note, double(t));
		v->record_measurement(typename V::Note(note), t);
		m.record(note, t);
		n++;
		if (chance(1, 10)) {
			V w = *v;
			v.emplace(w); // the session moves to another object
		}
		look();
	}
	run_nontrivial = n > 1;
	sim_time(n);
}
void channel() {
	LD eps = std::numeric_limits<float>::epsilon();
	auto real = [](double scale) { return float((double(choose(200001)) - 100000) / 100000 * scale); };
	double ts = pick({1., 10., 8388608.}), ms = pick({1., 5., 4096., 8388608.});
	Calibrator c;
	u64 n = 0;
	for (int i = 0; i < 3; i++) {
		float x = real(100);
		CHECK(c.adjust(x) == x && c.reverse_calibrate(x) == x, P(K01), "not-neutral", "an uncalibrated channel turns %.9g into %.9g", double(x), double(c.adjust(x)));
	}
	while (more(5)) {
		step();
		WithStream s(S_FAULT);
		float tl = real(ts), th = real(ts), ml = real(ms), mh = real(ms);
		if (chance(1, 4))
			tl = 0, probe(P_LOWER);
		if (chance(1, 8))
			ml = 0;
		if (chance(1, 6)) // offset only, or turned round
			th = tl + (choose(3) ? mh - ml : ml - mh);
		if (std::fabs(th - tl) < 0.001 * ts || std::fabs(mh - ml) < 0.001 * ms)
			continue; // two different points
		EV("targets %.9g %.9g measured %.9g %.9g", double(tl), double(th), double(ml), double(mh));
		switch (choose(3)) {
			case 0:
				c.calibrate_chan(tl, th, ml, mh);
				break;
			case 1:
				c.calibrate_chan(std::pair{tl, th}, std::pair{ml, mh});
				break;
			default:
				c = Calibrator{std::pair{tl, th}, std::pair{ml, mh}};
		}
		n++;
		LD slope = (LD(th) - tl) / (LD(mh) - ml);
		auto exact = [&](LD x) { return tl + (x - ml) * slope; };
		auto inverse = [&](LD y) { return ml + (y - tl) / slope; };
		LD span_m = std::fabs(LD(ml)) + std::fabs(LD(mh)) + std::fabs(LD(tl) / slope) + std::fabs(LD(th) / slope);
		auto look = [&] {
			float xs[] = {ml, mh, (ml + mh) / 2, real(ms), 0.f};
			for (float x : xs) {
				LD got = c.adjust(x), want = exact(x), tol = 16 * eps * std::fabs(slope) * (span_m + std::fabs(LD(x)));
				CHECK(std::fabs(got - want) <= tol, P(K01), "wrong-adjustment", "%.9g is turned into %.9g instead of %.9g", double(x), double(got), double(want));
				float y = float(want);
				LD back = c.reverse_calibrate(y), wb = inverse(y), tb = 16 * eps * (span_m + std::fabs(LD(y) / slope));
				CHECK(std::fabs(back - wb) <= tb, P(K01), "wrong-reverse", "%.9g is turned back into %.9g instead of %.9g", double(y), double(back), double(wb));
				probe(P_REVERSE);
			}
		};
		look();
		if (chance(1, 3)) { // only slope and offset survive
			fault(F_RESTART);
			probe(P_RELOADED);
			EV("restart");
			float a = c.slope(), o = c.offset();
			float x = real(ms), y = c.adjust(x), z = c.reverse_calibrate(y);
			if (choose(2)) {
				c = Calibrator{};
				c.set_slope_offset(a, o);
			} else
				c = Calibrator{a, o};
			CHECK(c.adjust(x) == y && c.reverse_calibrate(y) == z && c.slope() == a && c.offset() == o, P(K01), "lost-by-restart", "%.9g is turned into %.9g instead of %.9g after a restart", double(x), double(c.adjust(x)), double(y));
			look();
		}
	}
	run_nontrivial = n > 0;
	sim_time(n);
}
void run_K01() {
	switch (choose(6)) {
		case 0:
			return voct<float>();
		case 1:
			return voct<double>();
		case 2:
			return voct<int16_t>();
		case 3:
			return voct<int32_t>();
		default:
			return channel();
	}
}

// ---------------------------------------------------------------- N01
template<class T>
T bound() {
	if constexpr (std::is_floating_point_v<T>)
		return T((double(choose(2000001)) - 1000000) / pick({1., 1000., 1000000.}));
	else if constexpr (sizeof(T) == 1)
		return T(choose(256));
	else if constexpr (std::is_signed_v<T>)
		return T(choose(2) ? int64_t(choose(2000)) - 1000 : sizeof(T) == 2 ? int64_t(choose(16000)) - 8000 : int64_t(choose(2000000000)) - 1000000000);
	else
		return T(choose(2) ? choose(1000) : choose(sizeof(T) == 2 ? 65536 : 4000000000u));
}
template<class T>
void random_source() {
	u64 n = 0;
	rand_mode = 0;
	while (more(10)) {
		step();
		T lo = bound<T>(), hi = bound<T>();
		if (chance(1, 8))
			hi = lo;
		if (hi < lo)
			std::swap(lo, hi);
		int mode = choose(4);
		EV("between %.9g and %.9g", double(lo), double(hi));
		bool first = true;
		int last = 0;
		T got_last{};
		for (u64 k = 1 + choose(6); k; k--) {
			WithStream s(S_FAULT);
			switch (mode) {
				case 0:
					rand_value = 0;
					fault(F_STUCK_GEN);
					probe(P_LOWER);
					break;
				case 1:
					rand_value = RAND_MAX - int(choose(3));
					fault(F_EXTREME_GEN);
					break;
				case 2:
					rand_value = choose(2) ? RAND_MAX : 0;
					fault(F_EXTREME_GEN);
					break;
				default:
					rand_value = int(choose(u64(RAND_MAX) + 1));
			}
			if (rand_value == RAND_MAX)
				probe(P_UPPER);
			T got = MathTools::randomNumber<T>(lo, hi);
			n++;
			EV("generator %d gives %.9g", rand_value, double(got));
			LD want = LD(lo) + (LD(hi) - LD(lo)) * rand_value / RAND_MAX;
			LD tol = std::is_floating_point_v<T> ? 4 * LD(std::numeric_limits<std::conditional_t<std::is_floating_point_v<T>, T, float>>::epsilon()) * (std::fabs(LD(lo)) + std::fabs(LD(hi))) : LD(0);
			CHECK(LD(got) >= LD(lo) - tol && LD(got) <= LD(hi) + tol, P(N01), "out-of-range", "generator %d: %.9g is not between %.9g and %.9g", rand_value, double(got), double(lo), double(hi));
			if constexpr (std::is_integral_v<T>) {
				CHECK(std::fabs(LD(got) - want) < 1 + 1e-9L, P(N01), "uneven", "generator %d gives %.9g instead of %.9g", rand_value, double(got), double(want));
				CHECK(rand_value == RAND_MAX || hi == lo || got < hi, P(N01), "out-of-range", "generator %d gives the upper bound %.9g", rand_value, double(hi));
			} else
				CHECK(std::fabs(LD(got) - want) <= tol, P(N01), "uneven", "generator %d gives %.9g instead of %.9g", rand_value, double(got), double(want));
			if (!first)
				CHECK(rand_value < last ? got <= got_last : got >= got_last, P(N01), "uneven", "generator %d gives %.9g, %d gave %.9g", rand_value, double(got), last, double(got_last));
			first = false;
			last = rand_value;
			got_last = got;
		}
	}
	rand_mode = -1;
	run_nontrivial = n > 0;
	sim_time(n);
}
void run_N01() {
	switch (choose(8)) {
		case 0:
			return random_source<int>();
		case 1:
			return random_source<unsigned>();
		case 2:
			return random_source<float>();
		case 3:
			return random_source<double>();
		case 4:
			return random_source<u8>();
		case 5:
			return random_source<int16_t>();
		case 6:
			return random_source<uint16_t>();
		default:
			return random_source<long>();
	}
}

void run() {
	cur_stream = S_CONFIG;
	switch (target_prop) {
		case S01:
			return run_S01();
		case S02:
			return run_S02();
		case K01:
			return run_K01();
		default:
			return run_N01();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"text",
	{{"S01", 400000, 20000000, "Each run draws messages of texts, views, numbers and hexadecimal numbers printed by a main context and two interrupts that arrive between any two characters, on two consoles. Non-trivial: characters came out."},
	 {"S02", 1200000, 150000000, "Each run draws copies between five fixed strings and texts, and numbers into buffers, mostly with too little, just enough or just too little room. Non-trivial: more than two operations."},
	 {"K01", 8000000, 600000000, "Each run draws a calibration session: measurements with noise, outliers, repeated and missing notes, restarts. Non-trivial: two measurements, or a channel calibrated."},
	 {"N01", 5000000, 300000000, "Each run draws bounds and the generator's outputs: stuck, extreme or arbitrary. Non-trivial: a number was drawn."}},
	{"interrupt", "nested interrupt", "device busy", "too little room", "text without an end mark", "old bytes in the buffer", "copied from itself", "outlier", "repeated note or value", "no note", "session aborted", "restart", "noise", "generator stuck", "generator at its extremes"},
	{"negative number", "zero digit inside", "extreme number", "hexadecimal", "string view", "second console", "empty text", "full string", "truncated", "volatile copy", "exactly fitting number", "number refused", "number chopped", "base note measured", "slope from two notes", "same note or value", "reversed", "reloaded", "generator at its maximum", "lower end"},
	"complete event log (characters, operations, measurements, numbers)",
	"characters, operations, measurements or numbers",
	{"util/print.hh", "util/static_string.hh", "util/int_to_str.cc", "util/voct_calibrator.hh", "util/calibrator.hh", "util/math.hh randomNumber"},
	{"the console's putc and its interrupts, measurements, std::rand"},
	{"the destination of a copy does not overlap the source's beginning", "two calibration points differ", "ranges representable in the number type"},
	run,
	400000};
}
