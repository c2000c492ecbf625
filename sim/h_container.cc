// C01..C03: fixed-capacity containers and stored callables, with running out of places and failing element copies
#include "core.hh"
#include "util/fixed_vector.hh"
#include "util/circular_stack.hh"
#include "util/seq_map.hh"
#include "util/sequential_map.hh"
#include "util/callable.hh"

using namespace sim;
namespace
{
enum { C01, C02, C03 };
enum F { F_FULL, F_EMPTY, F_COPYFAIL, F_RANGE, F_OVERWRITTEN, F_MISSING };
enum PR { P_INSERT, P_ERASE, P_ERASE_RANGE, P_OVERWRITE_RESIZE, P_STACK, P_SEQ, P_SEQUENTIAL, P_REMOVE, P_SELF, P_EMPTYFN, P_NESTED, P_MOVEARG, P_GROW, P_RENAMED, P_CTOR };

// an element that owns memory; copying it fails when told to
struct CopyFailed {};
int copies_left = -1; // the copy after this many fails; -1: none
long live = 0;
struct Elem {
	int *p;
	Elem(int v = 0)
		: p{new int{v}} {
		live++;
	}
	Elem(Elem const &o)
		: p{nullptr} {
		may_fail();
		p = new int{*o.p};
		live++;
	}
	Elem &operator=(Elem const &o) {
		may_fail();
		*p = *o.p;
		return *this;
	}
	~Elem() {
		live--;
		delete p;
	}
	bool operator==(Elem const &o) const {
		return *p == *o.p;
	}
	static void may_fail() {
		if (copies_left == 0) {
			copies_left = -1;
			throw CopyFailed{};
		}
		if (copies_left > 0)
			copies_left--;
	}
};

template<class T>
T make(int v) {
	if constexpr (std::is_same_v<T, std::string>)
		return v ? std::string(20 + v % 7, 'a' + v % 26) + std::to_string(v) : std::string{};
	else
		return T(v);
}
template<class T>
int value(T const &t) {
	if constexpr (std::is_same_v<T, std::string>) {
		if (t.size() < 20)
			return t.empty() ? 0 : -1;
		size_t i = t.find_first_of("0123456789");
		if (i == t.npos)
			return -1;
		int v = std::stoi(t.substr(i));
		return make<T>(v) == t ? v : -1;
	} else if constexpr (std::is_same_v<T, Elem>)
		return *t.p;
	else
		return int(t);
}
int counter = 0;
template<class T>
int fresh() {
	return ++counter;
}

// ---------------------------------------------------------------- C01
template<class T, size_t N>
void vec_ops(FixedVector<T, N> &v, std::vector<int> m) {
	std::vector<char> known(m.size(), 1); // elements exposed by *_for_overwrite hold anything
	// after a failed copy the old elements are there, followed by any of the new ones
	auto resync = [&](size_t upto) {
		size_t n = v.size();
		CHECK(n >= m.size() && n <= std::max(upto, m.size()), P(C01), "wrong-size", "a failed copy changed the size from %lu to %lu", m.size(), n);
		m.resize(n, 0);
		known.resize(n, 0);
	};
	auto check = [&](const char *op) {
		auto const &cv = v;
		CHECK(v.size() == m.size(), P(C01), "wrong-size", "after %s the size is %lu instead of %lu", op, v.size(), m.size());
		CHECK(v.available() == N - m.size() && v.max_size() == N, P(C01), "wrong-size", "after %s %lu places are available of %lu", op, v.available(), v.max_size());
		if (m.empty())
			CHECK(value(v.back()) == 0, P(C01), "wrong-element", "the back of an empty vector is not a default value");
		CHECK(size_t(v.end() - v.begin()) == m.size() && size_t(cv.end() - cv.begin()) == m.size() && v.span().size() == m.size() && cv.span().size() == m.size(), P(C01), "wrong-size",
			  "after %s iterating does not cover the %lu elements", op, m.size());
		size_t i = 0;
		for (auto &e : v) {
			if (known[i])
				CHECK(value(e) == m[i] && value(v[i]) == m[i] && value(cv[i]) == m[i], P(C01), "wrong-element", "after %s element %lu of %lu is %d instead of %d", op, i, m.size(), value(e), m[i]);
			i++;
		}
		if (!m.empty() && known.back())
			CHECK(value(v.back()) == m.back(), P(C01), "wrong-element", "after %s the last element is %d instead of %d", op, value(v.back()), m.back());
		EV("%s: %lu elements", op, m.size());
	};
	check("construction");
	while (more(50)) {
		step();
		run_nontrivial = true;
		bool failing = std::is_same_v<T, Elem> && chance(1, 4);
		if (m.size() == N)
			fault(F_FULL);
		if (m.empty())
			fault(F_EMPTY);
		switch (choose(12)) {
			case 0:
			case 1:
			case 2: {
				int x = fresh<T>();
				T e = make<T>(x);
				bool ok = false, threw = false;
				try {
					if (failing)
						copies_left = choose(3);
					ok = v.push_back(e);
				} catch (CopyFailed) {
					threw = true;
					fault(F_COPYFAIL);
				}
				copies_left = -1;
				if (threw)
					resync(m.size() + 1);
				else {
					CHECK(ok == (m.size() < N), P(C01), "wrong-result", "adding to %lu elements of %lu says %d", m.size(), N, ok);
					if (m.size() < N) {
						m.push_back(x);
						known.push_back(1);
					}
				}
				check(threw ? "a failed addition" : "an addition");
				break;
			}
			case 3: {
				size_t n = choose(N + 4);
				int x = chance(1, 3) ? 0 : fresh<T>();
				T e = make<T>(x);
				bool ok = false, threw = false;
				try {
					if (failing)
						copies_left = choose(N + 2);
					ok = x ? v.resize(n, e) : v.resize(n);
				} catch (CopyFailed) {
					threw = true;
					fault(F_COPYFAIL);
				}
				copies_left = -1;
				if (threw)
					resync(std::min(n, N));
				else {
					CHECK(ok == (n <= N), P(C01), "wrong-result", "resizing to %lu of %lu says %d", n, N, ok);
					if (n > m.size())
						probe(P_GROW);
					m.resize(std::min(n, N), x);
					known.resize(m.size(), 1);
				}
				check(threw ? "a failed resize" : "a resize");
				break;
			}
			case 4: {
				size_t n = choose(N + 4);
				bool ok = v.resize_for_overwrite(n);
				CHECK(ok == (n <= N), P(C01), "wrong-result", "resizing to %lu of %lu says %d", n, N, ok);
				probe(P_OVERWRITE_RESIZE);
				m.resize(std::min(n, N), 0);
				known.resize(m.size(), 0);
				for (size_t i = 0; i < m.size(); i++)
					if (!known[i] && (N > 64 || chance(3, 4))) {
						int x = fresh<T>();
						v[i] = make<T>(x);
						m[i] = x;
						known[i] = 1;
					}
				check("resizing for overwriting");
				break;
			}
			case 5: {
				size_t i = v.push_back_for_overwrite();
				CHECK(i == m.size(), P(C01), "wrong-result", "the place to overwrite is %lu with %lu elements of %lu", i, m.size(), N);
				if (m.size() < N) {
					int x = fresh<T>();
					v[i] = make<T>(x);
					m.push_back(x);
					known.push_back(1);
				}
				check("adding a place");
				break;
			}
			case 6: {
				T e = v.pop_back();
				if (m.empty())
					CHECK(value(e) == 0, P(C01), "wrong-element", "removing from an empty vector gives %d", value(e));
				else {
					if (known.back())
						CHECK(value(e) == m.back(), P(C01), "wrong-element", "removed %d instead of %d", value(e), m.back());
					m.pop_back();
					known.pop_back();
				}
				check("removing the last");
				break;
			}
			case 7:
			case 8: {
				unsigned i = chance(1, 8) ? choose(N + 3) : choose(m.size() + 1);
				int x = fresh<T>();
				v.insert(i, make<T>(x));
				probe(P_INSERT);
				if (i > m.size())
					fault(F_RANGE);
				if (m.size() < N && i <= m.size()) {
					m.insert(m.begin() + i, x);
					known.insert(known.begin() + i, 1);
				}
				check("an insertion");
				break;
			}
			case 9: {
				unsigned i = chance(1, 8) ? choose(N + 3) : choose(m.size() + 1);
				v.erase(i);
				probe(P_ERASE);
				if (i >= m.size())
					fault(F_RANGE);
				else {
					m.erase(m.begin() + i);
					known.erase(known.begin() + i);
				}
				check("an erasure");
				break;
			}
			case 10: {
				size_t a = choose(m.size() + 1), b = a + choose(m.size() - a + 1);
				v.erase(v.begin() + a, v.begin() + b);
				probe(P_ERASE_RANGE);
				m.erase(m.begin() + a, m.begin() + b);
				known.erase(known.begin() + a, known.begin() + b);
				check("erasing a range");
				break;
			}
			default:
				if (chance(1, 3)) {
					v.clear();
					m.clear();
					known.clear();
					check("clearing");
				} else if (chance(1, 2)) { // copies are independent
					auto w = v;
					if (!m.empty())
						w[0] = make<T>(fresh<T>());
					w.clear();
					check("changing a copy");
					v = FixedVector<T, N>{w};
					m.clear();
					known.clear();
					check("assignment");
				} else if (!m.empty()) {
					size_t i = choose(m.size());
					int x = fresh<T>();
					if (chance(1, 2))
						v[i] = make<T>(x);
					else
						v.span()[i] = make<T>(x);
					m[i] = x;
					known[i] = 1;
					check("writing");
				}
		}
	}
}
template<class T, size_t N>
void vec() {
	EV("vector of %lu", N);
	if constexpr (N >= 3) {
		if (chance(1, 2)) {
			probe(P_CTOR);
			int a = fresh<T>(), b = fresh<T>(), c = fresh<T>();
			FixedVector<T, N> v{make<T>(a), make<T>(b), make<T>(c)};
			return vec_ops<T, N>(v, {a, b, c});
		}
	}
	FixedVector<T, N> v;
	std::vector<int> m;
	if (N > 64) // large: start nearly full
		for (size_t n = N - choose(8); n--;) {
			m.push_back(fresh<T>());
			v.push_back(make<T>(m.back()));
		}
	vec_ops<T, N>(v, m);
}

// ---------------------------------------------------------------- C02
template<class T, int N>
void stack_ops(CircularStack<T, N> &s, std::deque<int> m) {
	probe(P_STACK);
	while (true) {
		CHECK(s.size() == m.size() && s.empty() == m.empty() && s.max_size() == N, P(C02), "wrong-size", "the stack holds %lu of %lu elements instead of %lu", s.size(), s.max_size(), m.size());
		auto b = s.back();
		CHECK(b.has_value() == !m.empty(), P(C02), "wrong-element", "looking at the top of a stack of %lu gives %d", m.size(), b.has_value());
		if (b)
			CHECK(value(*b) == m.back(), P(C02), "wrong-element", "the top is %d instead of %d", value(*b), m.back());
		if (!more(40))
			break;
		step();
		run_nontrivial = true;
		switch (choose(8)) {
			case 0:
			case 1:
			case 2:
			case 3: {
				int x = fresh<T>();
				s.push_back(make<T>(x));
				m.push_back(x);
				if (m.size() > N) {
					m.pop_front();
					fault(F_OVERWRITTEN);
				}
				EV("push %d", x);
				break;
			}
			case 4:
			case 5: {
				auto e = s.pop_back();
				EV("pop %d", e ? value(*e) : -1);
				CHECK(e.has_value() == !m.empty(), P(C02), "wrong-element", "popping from a stack of %lu gives %d", m.size(), e.has_value());
				if (m.empty())
					fault(F_EMPTY);
				else {
					CHECK(value(*e) == m.back(), P(C02), "wrong-element", "popped %d instead of %d", value(*e), m.back());
					m.pop_back();
				}
				break;
			}
			case 6: {
				T e = s.pop_back_or_zero();
				EV("pop or zero %d", value(e));
				CHECK(value(e) == (m.empty() ? 0 : m.back()), P(C02), "wrong-element", "popped %d from a stack of %lu", value(e), m.size());
				if (!m.empty())
					m.pop_back();
				break;
			}
			default:
				if (chance(1, N > 64 ? 40 : 4)) {
					s.clear();
					m.clear();
					EV("clear");
				}
		}
	}
	if (N > 64)
		for (; !m.empty(); m.pop_back()) {
			auto e = s.pop_back();
			CHECK(e && value(*e) == m.back(), P(C02), "wrong-element", "popped %d instead of %d", e ? value(*e) : -1, m.back());
		}
}
template<class T, int N>
void stack() {
	EV("stack of %d", N);
	if (N >= 3 && chance(1, 2)) {
		probe(P_CTOR);
		if constexpr (N >= 3) {
			int a = fresh<T>(), b = fresh<T>(), c = fresh<T>();
			CircularStack<T, N> s{make<T>(a), make<T>(b), make<T>(c)};
			return stack_ops<T, N>(s, {a, b, c});
		}
	}
	CircularStack<T, N> s;
	std::deque<int> m;
	if (N > 64)
		for (size_t n = choose(3) ? N - choose(8) : N + choose(2 * N); n--;) {
			m.push_back(fresh<T>());
			s.push_back(make<T>(m.back()));
			if (m.size() > N)
				m.pop_front();
		}
	stack_ops<T, N>(s, m);
}

// A bounded map that evicts the oldest. Keys 0.. (0 is the default key)
template<class K, class V, size_t N>
void seqmap() {
	probe(P_SEQ);
	SeqMap<K, V, N> s;
	struct E {
		int k, v;
		bool dead = false;
	};
	std::vector<E> m; // by age
	bool removing = chance(1, 2);
	size_t used = 0; // places ever used; with removals the map is not filled up
	bool evicted = false;
	size_t keys = 2 + choose(2 * N);
	int first = removing && !chance(1, 8) ? 1 : 0; // removing leaves entries with the default key: a known finding
	EV("map of %lu, %lu keys, %s", N, keys, removing ? "with removals" : "without removals");
	auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [&](E const &e) { return !e.dead && e.k == k; }); };
	auto blank = [&] { return std::any_of(m.begin(), m.end(), [](E const &e) { return e.dead; }); };
	auto look = [&](int k) {
		V *p = s.get(make<K>(k));
		bool ex = s.key_exists(make<K>(k));
		auto i = find(k);
		EV("get %d -> %d %d", k, p ? value(*p) : -1, ex);
		known_tag = nullptr;
		if (k == 0 && blank() && p && ex && value(*p) == 0)
			known_tag = "seqmap-remove-default-key"; // finds the place of a removed entry
		CHECK((p != nullptr) == (i != m.end()) && ex == (p != nullptr), P(C02), "wrong-key", "key %d is %s (exists: %d) but should %s", k, p ? "found" : "missing", ex, i != m.end() ? "be there" : "not be there");
		if (p && i != m.end())
			CHECK(value(*p) == i->v, P(C02), "wrong-value", "key %d has value %d instead of %d", k, value(*p), i->v);
		known_tag = nullptr;
	};
	if (N > 64 && !removing)
		for (size_t i = choose(8); i < N; i++) {
			int x = fresh<V>();
			if (s.insert(make<K>(i), make<V>(x))) {
				m.push_back({int(i), x});
				used++;
			}
		}
	while (more(60)) {
		step();
		run_nontrivial = true;
		int k = first + choose(keys);
		switch (choose(8)) {
			case 0:
			case 1: {
				if (find(k) != m.end() || (removing && used >= N))
					break; // two entries with the same key are not asked for
				if (removing && k == 0 && blank())
					break;
				int x = fresh<V>();
				bool ok = s.insert(make<K>(k), make<V>(x));
				EV("insert %d %d -> %d", k, x, ok);
				CHECK(ok == (m.size() < N), P(C02), "wrong-result", "inserting into %lu of %lu entries says %d", m.size(), N, ok);
				if (m.size() < N) {
					m.push_back({k, x});
					used++;
				} else
					fault(F_FULL);
				break;
			}
			case 2:
			case 3: {
				auto i = find(k);
				if (removing && ((i == m.end() && used >= N) || (k == 0 && blank())))
					break;
				int x = fresh<V>();
				V *p = s.overwrite(make<K>(k), make<V>(x));
				EV("overwrite %d %d", k, x);
				CHECK(p && value(*p) == x && s.get(make<K>(k)) == p, P(C02), "wrong-value", "storing %d for key %d does not return its place", x, k);
				if (i != m.end())
					i->v = x;
				else {
					if (m.size() >= N) {
						m.erase(m.begin());
						fault(F_OVERWRITTEN);
						evicted = true;
					}
					m.push_back({k, x});
					used++;
				}
				break;
			}
			case 4: {
				if (!removing || (k == 0 && blank()))
					break;
				auto i = find(k);
				bool ok = s.remove(make<K>(k));
				EV("remove %d -> %d", k, ok);
				CHECK(ok == (i != m.end()), P(C02), "wrong-result", "removing key %d, which is %s, says %d", k, i != m.end() ? "there" : "not there", ok);
				if (ok) {
					i->dead = true;
					probe(P_REMOVE);
				} else
					fault(F_MISSING);
				break;
			}
			case 5:
				if (!evicted && !removing && chance(1, 2)) {
					s.remove_last();
					EV("remove last");
					if (!m.empty())
						m.pop_back();
				}
				break;
			default:
				look(k);
		}
		if (!removing)
			CHECK(s.size() == m.size(), P(C02), "wrong-size", "the map holds %lu entries instead of %lu", s.size(), m.size());
		if (chance(1, 6))
			for (size_t i = 0; i < keys; i++)
				look(first + i);
	}
	for (size_t i = 0; i < keys; i++)
		look(first + i);
}

template<class K, class V, size_t N>
void sequential() {
	probe(P_SEQUENTIAL);
	using M = SequentialMap<K, V, N>;
	M s;
	std::vector<std::pair<int, int>> m;
	size_t keys = 2 + choose(2 * N);
	EV("sequential map of %lu, %lu keys", N, keys);
	auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [&](auto const &e) { return e.first == k; }); };
	auto check = [&] {
		auto const &c = s;
		CHECK(s.size() == m.size() && s.empty() == m.empty() && s.is_full() == (m.size() == N) && s.max_size() == N, P(C02), "wrong-size", "the map holds %lu entries instead of %lu", s.size(), m.size());
		size_t i = 0;
		for (auto const &e : c) {
			if (i >= m.size())
				break;
			CHECK(value(e.first) == m[i].first && value(e.second) == m[i].second, P(C02), "wrong-order", "entry %lu is %d: %d instead of %d: %d", i, value(e.first), value(e.second), m[i].first, m[i].second);
			i++;
		}
		CHECK(size_t(s.end() - s.begin()) == m.size() && size_t(c.end() - c.begin()) == m.size(), P(C02), "wrong-size", "iterating covers %ld entries instead of %lu", long(s.end() - s.begin()), m.size());
	};
	if (N > 64)
		for (size_t i = choose(8); i < N; i++) {
			int x = fresh<V>();
			s[make<K>(i)] = make<V>(x);
			m.push_back({int(i), x});
		}
	while (more(60)) {
		step();
		run_nontrivial = true;
		int k = choose(keys);
		auto i = find(k);
		bool have = i != m.end();
		switch (choose(9)) {
			case 0:
			case 1: {
				int x = fresh<V>();
				s[make<K>(k)] = make<V>(x);
				EV("[%d] = %d", k, x);
				if (have)
					i->second = x;
				else if (m.size() < N)
					m.push_back({k, x});
				else {
					m.back() = {k, x};
					fault(F_FULL);
					probe(P_RENAMED);
				}
				break;
			}
			case 2: {
				if (!have && m.size() == N)
					break; // what the reused last entry shows is not specified
				V &r = s[make<K>(k)];
				EV("[%d] -> %d", k, value(r));
				CHECK(value(r) == (have ? i->second : 0), P(C02), "wrong-value", "key %d, which is %s, has value %d instead of %d", k, have ? "there" : "new", value(r), have ? i->second : 0);
				if (!have)
					m.push_back({k, 0});
				break;
			}
			case 3: {
				auto const &c = s;
				V const &r = c[make<K>(k)];
				EV("const [%d] -> %d", k, value(r));
				CHECK(value(r) == (have ? i->second : 0), P(C02), "wrong-value", "reading key %d, which is %s, gives %d instead of %d", k, have ? "there" : "missing", value(r), have ? i->second : 0);
				if (!have)
					fault(F_MISSING);
				break;
			}
			case 4: {
				int x = fresh<V>();
				auto r = s.insert({make<K>(k), make<V>(x)});
				EV("insert %d %d -> %d", k, x, r.second);
				CHECK(r.second == (!have && m.size() < N), P(C02), "wrong-result", "inserting key %d, which is %s, into %lu of %lu entries says %d", k, have ? "there" : "not there", m.size(), N, r.second);
				if (!have && m.size() < N) {
					CHECK(r.first == s.end() - 1, P(C02), "wrong-result", "inserting returns the wrong place");
					m.push_back({k, x});
				} else if (have)
					CHECK(r.first - s.begin() == i - m.begin(), P(C02), "wrong-result", "inserting an existing key returns the wrong place");
				else {
					CHECK(r.first == s.end(), P(C02), "wrong-result", "inserting into a full map returns an entry");
					fault(F_FULL);
				}
				break;
			}
			case 5: {
				auto n = s.erase(make<K>(k));
				EV("erase %d -> %lu", k, u64(n));
				CHECK(n == size_t(have), P(C02), "wrong-result", "erasing key %d, which is %s, says %lu", k, have ? "there" : "not there", u64(n));
				if (have)
					m.erase(i);
				else
					fault(F_MISSING);
				probe(P_REMOVE);
				break;
			}
			case 6:
				if (chance(1, 6)) {
					s.clear();
					m.clear();
					EV("clear");
				}
				break;
			default: {
				auto const &c = s;
				bool has = c.contains(make<K>(k));
				auto it = s.find(make<K>(k));
				auto ci = c.find(make<K>(k));
				EV("find %d -> %d", k, has);
				CHECK(has == have && (it != s.end()) == have && (ci != c.end()) == have, P(C02), "wrong-key", "key %d should %s, but contains and find say %d %d %d", k, have ? "be there" : "not be there", has, it != s.end(), ci != c.end());
				if (have)
					CHECK(it - s.begin() == i - m.begin() && ci - c.begin() == i - m.begin(), P(C02), "wrong-key", "key %d is found at the wrong place", k);
			}
		}
		check();
	}
}

// ---------------------------------------------------------------- C03
struct Capture {
	Elem own;
	int calls = 0;
	Capture(int v)
		: own{v} {
	}
	int operator()(int a, int &r, std::unique_ptr<int> u) {
		calls++;
		r += a;
		return *own.p * 1000 + calls * 10 + (u ? *u : 0);
	}
	void operator()() {
		calls++;
		last = *own.p * 1000 + calls * 10;
	}
	static inline int last = 0;
};
int *plain_target;
int plain(int a, int &r, std::unique_ptr<int> u) {
	r += a;
	return -1 - (u ? *u : 0);
}
void plain_void() {
	Capture::last = -1;
}

struct FnModel {
	int kind = 0; // 0 empty, 1 capture, 2 plain, 3 trivially copied capture
	int v = 0, calls = 0;
};

template<class Fn>
void functions() {
	constexpr bool Void = std::is_invocable_v<Fn, int> ? false : std::is_invocable_v<Fn>;
	constexpr int N = 4;
	std::array<std::optional<Fn>, N> f;
	std::array<FnModel, N> m;
	for (auto &x : f)
		x.emplace();
	long base = live;
	auto count = [&] {
		long n = 0;
		for (auto &x : m)
			n += x.kind == 1;
		return n;
	};
	auto check = [&](const char *op) {
		CHECK(live - base == count(), P(C03), live - base > count() ? "capture-leaked" : "capture-missing", "after %s %ld captures are alive instead of %ld", op, live - base, count());
		for (int i = 0; i < N; i++)
			CHECK(bool(*f[i]) == (m[i].kind != 0), P(C03), "wrong-emptiness", "after %s the function says %d", op, bool(*f[i]));
	};
	EV("functions of %lu bytes", u64(sizeof(Fn)));
	check("construction");
	while (more(40)) {
		step();
		run_nontrivial = true;
		int i = choose(N), j = choose(N);
		bool failing = chance(1, 4);
		auto attempt = [&](const char *op, auto fn) {
			bool threw = false;
			if (failing)
				copies_left = choose(4);
			try {
				fn();
			} catch (CopyFailed) {
				threw = true;
				fault(F_COPYFAIL);
			}
			copies_left = -1;
			EV("%s %d %d -> %d", op, i, j, threw);
			return !threw;
		};
		switch (choose(9)) {
			case 0:
			case 1: {
				int v = fresh<int>();
				FnModel before = m[i];
				bool ok = attempt("assign", [&] { *f[i] = Fn{Capture{v}}; });
				// when a copy failed, the old target is kept or it is empty
				m[i] = ok ? FnModel{1, v, 0} : bool(*f[i]) ? before : FnModel{};
				check(ok ? "assigning a callable" : "a failed assignment of a callable");
				break;
			}
			case 2: {
				probe(P_EMPTYFN);
				*f[i] = Fn{};
				m[i] = {};
				EV("emptied %d", i);
				check("assigning an empty function");
				break;
			}
			case 3: {
				if (chance(1, 2)) {
					if constexpr (Void)
						*f[i] = Fn{plain_void};
					else
						*f[i] = Fn{plain};
					m[i] = {2, 0, 0};
				} else {
					int v = fresh<int>();
					if constexpr (Void)
						*f[i] = Fn{[v, n = 0]() mutable { Capture::last = v * 1000 + ++n * 10; }};
					else
						*f[i] = Fn{[v, n = 0](int a, int &r, std::unique_ptr<int> u) mutable {
							r += a;
							return v * 1000 + ++n * 10 + (u ? *u : 0);
						}};
					m[i] = {3, v, 0};
				}
				EV("plain %d", i);
				check("assigning a plain callable");
				break;
			}
			case 4:
			case 5: {
				if (i == j)
					probe(P_SELF);
				FnModel before = m[i];
				bool ok = attempt("copy", [&] { *f[i] = *f[j]; });
				if (i != j)
					m[i] = ok ? m[j] : bool(*f[i]) ? before : FnModel{};
				else if (!ok)
					m[i] = bool(*f[i]) ? before : FnModel{};
				check(ok ? "copy assignment" : "a failed copy assignment");
				break;
			}
			case 6: {
				if (i == j)
					break;
				f[i].reset();
				m[i] = {};
				bool ok = attempt("copy construct", [&] { f[i].emplace(*f[j]); });
				if (ok)
					m[i] = m[j];
				else
					f[i].emplace();
				check(ok ? "copy construction" : "a failed copy construction");
				break;
			}
			default: {
				if (m[i].kind == 0)
					break;
				m[i].calls++;
				int want, got;
				if constexpr (Void) {
					Capture::last = 0;
					if (chance(1, 2))
						(*f[i])();
					else
						f[i]->call();
					got = Capture::last;
					want = m[i].kind == 2 ? -1 : m[i].v * 1000 + m[i].calls * 10;
				} else {
					int a = choose(50), r = choose(50), r0 = r, uv = 1 + choose(9);
					bool with = chance(1, 2);
					std::unique_ptr<int> u = with ? std::make_unique<int>(uv) : nullptr;
					if (with)
						probe(P_MOVEARG);
					got = chance(1, 2) ? (*f[i])(a, r, std::move(u)) : f[i]->call(a, r, std::move(u));
					want = m[i].kind == 2 ? -1 - (with ? uv : 0) : m[i].v * 1000 + m[i].calls * 10 + (with ? uv : 0);
					CHECK(r == r0 + a, P(C03), "wrong-argument", "a reference argument ended as %d instead of %d", r, r0 + a);
				}
				EV("call %d -> %d", i, got);
				CHECK(got == want, P(C03), "wrong-call", "call %d of function %d gives %d instead of %d", m[i].calls, i, got, want);
				check("a call");
			}
		}
	}
	for (auto &x : f)
		x.reset();
	m = {};
	CHECK(live == base, P(C03), "capture-leaked", "%ld captures are alive at the end", live - base);
}

// A function kept inside another one
void nested() {
	probe(P_NESTED);
	long base = live;
	{
		using In = FunctionSized<sizeof(Capture), int(int, int &, std::unique_ptr<int>)>;
		using Out = FunctionSized<sizeof(In), int(int, int &, std::unique_ptr<int>)>;
		int v = fresh<int>();
		In in{Capture{v}};
		int n = 0, r = 0;
		while (more(4)) {
			in(0, r, nullptr);
			n++;
		}
		Out a{in}, b{a};
		in = In{};
		int x = a(1, r, nullptr), y = b(1, r, nullptr);
		EV("nested %d: %d %d", v, x, y);
		CHECK(x == v * 1000 + (n + 1) * 10 && y == x, P(C03), "wrong-call", "copies of a nested function give %d and %d instead of %d", x, y, v * 1000 + (n + 1) * 10);
		run_nontrivial = true;
	}
	CHECK(live == base, P(C03), "capture-leaked", "%ld captures are alive at the end", live - base);
}

void run() {
	counter = 0;
	copies_left = -1;
	live = 0;
	if (target_prop == C01) {
		if (u64 k = choose(20000); k % 400 == 1)
			return vec<int, 300>();
		else if (k == 2)
			return vec<long, 66000>();
		switch (choose(9)) {
			case 0:
				return vec<int, 1>();
			case 1:
				return vec<int, 8>();
			case 2:
				return vec<int, 33>();
			case 3:
				return vec<std::string, 4>();
			case 4:
				return vec<std::string, 9>();
			case 5:
				return vec<Elem, 1>();
			case 6:
				return vec<Elem, 3>();
			case 7:
				return vec<Elem, 7>();
			default:
				return vec<long, 5>();
		}
	}
	if (target_prop == C02) {
		switch (choose(6000)) {
			case 1:
			case 2:
			case 3:
			case 4:
			case 5:
			case 6:
				return stack<int, 300>();
			case 7:
				return stack<int, 66000>();
			case 8:
			case 9:
			case 10:
				return seqmap<int, int, 300>();
			case 11:
			case 12:
			case 13:
				return sequential<int, int, 300>();
		}
		switch (choose(14)) {
			case 0:
				return stack<int, 1>();
			case 1:
				return stack<int, 2>();
			case 2:
				return stack<int, 5>();
			case 3:
				return stack<std::string, 3>();
			case 4:
				return stack<int, 8>();
			case 5:
			case 6:
				return seqmap<int, int, 4>();
			case 7:
				return seqmap<std::string, std::string, 6>();
			case 8:
				return seqmap<int, std::string, 1>();
			case 9:
				return seqmap<std::string, int, 9>();
			case 10:
				return sequential<int, int, 4>();
			case 11:
				return sequential<std::string, std::string, 5>();
			case 12:
				return sequential<int, std::string, 1>();
			default:
				return sequential<int, int, 12>();
		}
	}
	switch (choose(8)) {
		case 0:
			return nested();
		case 1:
		case 2:
			return functions<Function<int(int, int &, std::unique_ptr<int>)>>();
		case 3:
			return functions<FunctionSized<40, int(int, int &, std::unique_ptr<int>)>>();
		case 4:
			return functions<FunctionSized<24, void()>>();
		case 5:
			return functions<CallbackSized<32>>();
		default:
			return functions<Callback>();
	}
}
} // namespace

namespace sim
{
Harness harness = {
	"container",
	{{"C01", 400000, 15000000, "Each run draws a capacity and an element type, then additions, insertions, erasures, resizes and copies, many at capacity or with a failing element copy. Non-trivial: an operation was done."},
	 {"C02", 500000, 25000000, "Each run draws a stack or map, its capacity and keys, then stores, removals and look-ups, many when full. Non-trivial: an operation was done."},
	 {"C03", 1000000, 60000000, "Each run draws a function type, then assignments, copies (some failing), self-assignments and calls among four functions. Non-trivial: an operation was done."}},
	{"operation when full", "operation when empty", "copying an element fails", "index out of range", "oldest overwritten", "key missing"},
	{"inserted", "erased", "range erased", "resized for overwriting", "stack", "map", "sequential map", "removed", "self-assignment", "emptied", "nested function", "argument moved in", "resize grew", "last entry reused", "constructed from elements"},
	"complete event log (operations, results)",
	"operations",
	{"util/fixed_vector.hh", "util/circular_stack.hh", "util/seq_map.hh", "util/sequential_map.hh", "util/callable.hh"},
	{"element types with failing copies"},
	{"a map is not asked to insert a key it holds"},
	run,
	400000};
}
