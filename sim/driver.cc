// Runs seeded simulations in worker processes, minimises and reports violations, writes evidence.
#include "core.hh"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdarg>

namespace sim
{
RunBox *box;
u64 rng_state;
int cur_stream;
bool tracing;
constexpr size_t TRACE_CAP = 1 << 20;
static char *trace_buf;
static u64 *trace_len;
int target_prop;
u64 step_budget;
const char *known_tag;
Stats *stats;
bool run_nontrivial;
u64 run_signature;
void (*fiber_abort)();
static u64 steps_left;
static int trace_lines;

void ev_print(const char *fmt, ...) {
	if (!trace_buf || trace_lines > 4000)
		return;
	trace_lines++;
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	size_t n = strlen(b);
	if (*trace_len + n + 1 < TRACE_CAP) {
		memcpy(trace_buf + *trace_len, b, n);
		trace_buf[*trace_len + n] = '\n';
		*trace_len += n + 1;
	}
}

void fail(u64 props, const char *cls, const char *fmt, ...) {
	if (!(props >> target_prop & 1)) {
		stats->foreign++;
		return;
	}
	if (!box->violated) {
		box->violated = 1;
		snprintf(box->cls, sizeof box->cls, "%s", cls);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(box->msg, sizeof box->msg, fmt, ap);
		va_end(ap);
		if (known_tag) {
			box->known = 1;
			snprintf(box->known_tag, sizeof box->known_tag, "%s", known_tag);
		}
		hash_in(fnv(cls));
		if (tracing)
			ev_print("VIOLATION [%s] %s", box->cls, box->msg);
	}
	if (fiber_abort)
		fiber_abort();
	throw Stop{};
}

void step(u64 n) {
	box->steps += n;
	if (steps_left < n) {
		steps_left = 0;
		fail(ALL, "no-progress", "step budget of %llu exhausted: the run does not make progress", (unsigned long long)step_budget);
		// target property is always among ALL, so fail() does not return
	}
	steps_left -= n;
}
} // namespace sim

extern "C" const char *__asan_default_options() {
	return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0";
}

using namespace sim;
namespace
{
constexpr int NWORK = 8;
constexpr size_t HASH_CAP = 1 << 21;
std::string verif, outdir;
u64 base_seed = 1;
bool thorough;

template<class T>
T *shared(size_t n = 1) {
	void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return static_cast<T *>(p);
}

double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

void arm(int sec) {
	itimerval tv{};
	tv.it_value.tv_sec = sec;
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

void reset_box(bool replay) {
	for (auto &s : box->s)
		s.len = 0;
	box->hash = 0x5117;
	box->steps = 0;
	box->replaying = replay;
	box->done = box->violated = box->known = 0;
	box->cls[0] = box->msg[0] = box->known_tag[0] = 0;
	steps_left = step_budget;
	cur_stream = S_CONFIG;
	known_tag = nullptr;
	run_nontrivial = false;
	run_signature = 0;
	trace_lines = 0;
	fiber_abort = nullptr;
}

u64 seed_of(u64 index) {
	return mix(mix(base_seed) ^ mix(fnv(harness.props[target_prop].id)) ^ (index * 0x9e3779b97f4a7c15ull));
}

// Executes one run in this process; the outcome is in *box
void execute(bool replay, u64 index) {
	reset_box(replay);
	box->run_index = index;
	rng_state = seed_of(index);
	try {
		harness.run();
	} catch (Stop &) {
	} catch (std::exception &e) {
		// an exception escaped from the code under test
		try {
			fail(ALL, "unexpected-exception", "an exception escaped: %s", e.what());
		} catch (Stop &) {
		}
	}
	fiber_abort = nullptr;
	box->done = 1;
	if (!run_signature)
		run_signature = box->hash;
}

struct Outcome {
	bool violated = false, known = false;
	std::string cls, msg, tag;
	u64 hash = 0, steps = 0;
	std::vector<std::vector<u64>> streams;
	bool operator==(Outcome const &o) const {
		return violated == o.violated && cls == o.cls && hash == o.hash && streams == o.streams;
	}
};

Outcome collect() {
	Outcome o;
	o.violated = box->violated;
	o.known = box->known;
	o.cls = box->cls;
	o.msg = box->msg;
	o.tag = box->known_tag;
	o.hash = box->hash;
	o.steps = box->steps;
	for (auto &s : box->s)
		o.streams.emplace_back(s.v, s.v + s.len);
	return o;
}

void crash_outcome(Outcome &o, int status) {
	o.violated = true;
	o.known = false;
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGVTALRM) {
		o.cls = "hang";
		o.msg = "the code under test did not return (endless loop)";
	} else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
		o.cls = "memory-error";
		o.msg = "AddressSanitizer reported an invalid memory access";
	} else if (WIFSIGNALED(status)) {
		o.cls = "crash";
		o.msg = std::string("the code under test died from signal ") + strsignal(WTERMSIG(status));
	} else {
		o.cls = "crash";
		o.msg = "the code under test ended the process";
	}
	o.hash = fnv(o.cls.c_str());
	// the memory map of the crash is irrelevant: only the choices up to it count
}

void load_streams(std::vector<std::vector<u64>> const &st) {
	for (int k = 0; k < NSTREAMS; k++) {
		auto &s = box->s[k];
		s.have = k < (int)st.size() ? std::min(st[k].size(), STREAM_CAP) : 0;
		std::copy_n(st.size() > (size_t)k ? st[k].data() : nullptr, s.have, s.v);
	}
}

int hang_secs = 6;

// Runs in a forked child, so that crashes are survived. streams==nullptr: generate from the seed.
Outcome forked(std::vector<std::vector<u64>> const *streams, u64 index, std::string *trace = nullptr) {
	static char *tbuf = shared<char>(TRACE_CAP);
	static u64 *tlen = shared<u64>();
	*tlen = 0;
	if (streams)
		load_streams(*streams);
	reset_box(streams != nullptr);
	pid_t p = fork();
	if (p == 0) {
		arm(hang_secs);
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2);
		static Stats st;
		stats = &st;
		if (trace) {
			tracing = true;
			trace_buf = tbuf;
			trace_len = tlen;
		}
		execute(streams != nullptr, index);
		_exit(0);
	}
	int status;
	waitpid(p, &status, 0);
	Outcome o = collect();
	if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0 && box->done))
		crash_outcome(o, status);
	if (trace)
		trace->assign(tbuf, *tlen);
	return o;
}

size_t total(std::vector<std::vector<u64>> const &s) {
	size_t n = 0;
	for (auto &v : s)
		n += v.size();
	return n;
}
bool simpler(std::vector<std::vector<u64>> const &a, std::vector<std::vector<u64>> const &b) {
	size_t na = total(a), nb = total(b);
	if (na != nb)
		return na < nb;
	size_t za = 0, zb = 0;
	for (auto &v : a)
		za += v.size() - std::count(v.begin(), v.end(), 0);
	for (auto &v : b)
		zb += v.size() - std::count(v.begin(), v.end(), 0);
	if (za != zb)
		return za < zb;
	return a < b;
}

// Greedy minimisation of the choice streams while the violation class stays the same
Outcome minimise(Outcome best, u64 &tried) {
	double t0 = now();
	double limit = best.cls == "hang" ? 60 : 40;
	hang_secs = best.cls == "hang" ? 2 : 6;
	auto attempt = [&](std::vector<std::vector<u64>> c) {
		if (now() - t0 > limit)
			return false;
		tried++;
		Outcome o = forked(&c, 0);
		if (!o.violated || o.cls != best.cls || o.known != best.known)
			return false;
		if (!simpler(o.streams, best.streams))
			return false;
		best = o;
		return true;
	};
	auto clear_tail = [](auto c) {
		for (auto &v : c)
			while (!v.empty() && v.back() == 0)
				v.pop_back();
		return c;
	};
	for (bool progress = true; progress && now() - t0 < limit;) {
		progress = false;
		for (int k = 0; k < NSTREAMS; k++) {
			// whole stream
			if (!best.streams[k].empty()) {
				auto c = best.streams;
				c[k].clear();
				progress |= attempt(c);
			}
			for (size_t chunk = std::bit_floor(std::max<size_t>(1, best.streams[k].size() / 2)); chunk; chunk /= 2) {
				for (size_t i = best.streams[k].size(); i-- > 0 && now() - t0 < limit;) {
					if (i + chunk > best.streams[k].size() || (chunk > 1 && i % std::max<size_t>(1, chunk / 2)))
						continue;
					auto c = best.streams;
					c[k].erase(c[k].begin() + i, c[k].begin() + i + chunk);
					if (attempt(c)) {
						progress = true;
						continue;
					}
					auto d = best.streams;
					if (i + chunk <= d[k].size() && std::any_of(d[k].begin() + i, d[k].begin() + i + chunk, [](u64 x) { return x != 0; })) {
						std::fill_n(d[k].begin() + i, chunk, 0);
						progress |= attempt(d);
					}
				}
			}
			for (size_t i = 0; i < best.streams[k].size() && now() - t0 < limit; i++) {
				for (int rep = 0; rep < 8 && i < best.streams[k].size() && best.streams[k][i]; rep++) {
					auto c = best.streams;
					c[k][i] /= 2;
					if (attempt(c)) {
						progress = true;
						continue;
					}
					c = best.streams;
					c[k][i]--;
					if (!attempt(c))
						break;
					progress = true;
				}
			}
		}
	}
	(void)clear_tail;
	return best;
}

std::string jstr(std::string const &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			(r += '\\') += c;
		else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += c;
	}
	return r + "\"";
}

std::vector<std::string> lines(std::string const &s) {
	std::vector<std::string> v;
	std::istringstream is(s);
	for (std::string l; std::getline(is, l);)
		v.push_back(l);
	return v;
}

const char *stream_names[] = {"config", "task1", "task2", "task3", "task4", "schedule", "memory", "faults"};

std::string write_replay(Outcome const &o, std::string const &trace, u64 index, size_t orig) {
	std::string dir = outdir + "/replays";
	mkdir(outdir.c_str(), 0755);
	mkdir(dir.c_str(), 0755);
	char name[256];
	snprintf(name, sizeof name, "%s/%s-seed%llu-run%llu.json", dir.c_str(), harness.props[target_prop].id, (unsigned long long)base_seed, (unsigned long long)index);
	std::ofstream f(name);
	f << "{\n \"property\": " << jstr(harness.props[target_prop].id) << ",\n \"harness\": " << jstr(harness.name)
	  << ",\n \"violation\": " << jstr(o.cls) << ",\n \"message\": " << jstr(o.msg) << ",\n \"seed\": " << base_seed
	  << ",\n \"run\": " << index << ",\n \"event_hash\": \"" << std::hex << o.hash << std::dec << "\",\n \"choices_before_minimising\": " << orig
	  << ",\n \"choices\": " << total(o.streams) << ",\n \"streams\": {\n";
	for (int k = 0; k < NSTREAMS; k++) {
		f << "  \"" << stream_names[k] << "\": [";
		for (size_t i = 0; i < o.streams[k].size(); i++)
			f << (i ? "," : "") << o.streams[k][i];
		f << "]" << (k + 1 < NSTREAMS ? "," : "") << "\n";
	}
	f << " },\n \"trace\": [\n";
	auto ls = lines(trace);
	for (size_t i = 0; i < ls.size(); i++)
		f << "  " << jstr(ls[i]) << (i + 1 < ls.size() ? "," : "") << "\n";
	f << " ]\n}\n";
	return name;
}

bool read_replay(std::string const &path, std::vector<std::vector<u64>> &st, std::string &prop, std::string &cls, u64 &hash) {
	std::ifstream f(path);
	std::string s((std::istreambuf_iterator<char>(f)), {});
	if (s.empty())
		return false;
	auto str = [&](const char *key) {
		auto p = s.find(std::string("\"") + key + "\": \"");
		if (p == s.npos)
			return std::string();
		p += strlen(key) + 5;
		return s.substr(p, s.find('"', p) - p);
	};
	prop = str("property");
	cls = str("violation");
	hash = strtoull(str("event_hash").c_str(), nullptr, 16);
	st.assign(NSTREAMS, {});
	for (int k = 0; k < NSTREAMS; k++) {
		auto p = s.find(std::string("  \"") + stream_names[k] + "\": [");
		if (p == s.npos)
			return false;
		p = s.find('[', p) + 1;
		while (s[p] != ']') {
			char *e;
			st[k].push_back(strtoull(&s[p], &e, 10));
			p = e - s.data();
			if (s[p] == ',')
				p++;
		}
	}
	return true;
}

int self_replay(std::string const &path, bool quiet) {
	std::vector<std::vector<u64>> st;
	std::string prop, cls;
	u64 hash;
	if (!read_replay(path, st, prop, cls, hash)) {
		fprintf(stderr, "cannot read %s\n", path.c_str());
		return 2;
	}
	target_prop = -1;
	for (size_t i = 0; i < harness.props.size(); i++)
		if (prop == harness.props[i].id)
			target_prop = i;
	if (target_prop < 0)
		return 2;
	std::string trace;
	Outcome o = forked(&st, 0, &trace);
	if (!quiet) {
		printf("%s", trace.c_str());
		printf("outcome: %s %s\n", o.violated ? o.cls.c_str() : "no violation", o.msg.c_str());
	}
	if (o.violated && o.cls == cls && o.hash == hash) {
		if (!quiet)
			printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
		return 1;
	}
	if (!quiet)
		printf("the recorded violation (%s, hash %llx) was not reproduced (hash %llx)\n", cls.c_str(), (unsigned long long)hash, (unsigned long long)o.hash);
	return o.violated ? 3 : 0;
}

struct Finding {
	std::string prop, tag, text;
};
// known_findings.txt: lines "known: property=<id> tag=<tag> <text>" and "fixed: property=<id> <commit> <text>"
std::vector<Finding> findings() {
	std::vector<Finding> v;
	std::ifstream f(verif + "/known_findings.txt");
	for (std::string l; std::getline(f, l);) {
		if (l.rfind("known: ", 0))
			continue;
		std::istringstream is(l.substr(7));
		Finding k;
		is >> k.prop >> k.tag;
		std::getline(is, k.text);
		if (k.prop.rfind("property=", 0) == 0 && k.tag.rfind("tag=", 0) == 0) {
			k.prop = k.prop.substr(9);
			k.tag = k.tag.substr(4);
			while (!k.text.empty() && k.text[0] == ' ')
				k.text.erase(0, 1);
			v.push_back(k);
		}
	}
	return v;
}

struct Shared {
	std::atomic<u64> stop;	   // set when a violation was found
	struct W {
		Stats st;
		u64 nhash;
		u64 dup;
		u64 next; // next run index
		u64 finished;
		u64 viol_index;
		u32 has_viol;
		double cpu;
		char tags[16][64];
		u64 tagcount[16];
		u64 tagindex[16];
	} w[NWORK];
};
} // namespace

int main(int argc, char **argv) {
	const char *prop = nullptr, *replay = nullptr, *selfpath = argv[0];
	u64 runs_override = 0, one = ~0ull;
	int nwork = NWORK;
	bool hashes = false;
	double wallcap = 0;
	verif = getenv("SIM_VERIF") ? getenv("SIM_VERIF") : "/verif";
	if (auto s = getenv("VERIF_SEED"))
		base_seed = strtoull(s, nullptr, 10);
	thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	bool quiet = false, no_evidence = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--prop")
			prop = argv[++i];
		else if (a == "--replay")
			replay = argv[++i];
		else if (a == "--quiet")
			quiet = true;
		else if (a == "--runs")
			runs_override = strtoull(argv[++i], nullptr, 10);
		else if (a == "--workers")
			nwork = std::clamp(atoi(argv[++i]), 1, NWORK);
		else if (a == "--one")
			one = strtoull(argv[++i], nullptr, 10);
		else if (a == "--hashes")
			hashes = true, no_evidence = true;
		else if (a == "--no-evidence")
			no_evidence = true;
		else if (a == "--wall")
			wallcap = atof(argv[++i]);
	}
	outdir = verif + "/out";
	step_budget = harness.budget;
	box = shared<RunBox>();
	static Stats main_stats;
	stats = &main_stats;
	signal(SIGVTALRM, SIG_DFL);
	if (replay)
		return self_replay(replay, quiet);
	target_prop = -1;
	for (size_t i = 0; i < harness.props.size(); i++)
		if (prop && !strcmp(prop, harness.props[i].id))
			target_prop = i;
	if (target_prop < 0) {
		fprintf(stderr, "unknown property\n");
		return 2;
	}
	auto &pi = harness.props[target_prop];
	if (one != ~0ull) {
		std::string t;
		Outcome o = forked(nullptr, one, &t);
		printf("%soutcome: %s %s%s\n", t.c_str(), o.violated ? o.cls.c_str() : "ok", o.msg.c_str(), o.known ? " (known)" : "");
		return 0;
	}
	u64 runs = runs_override ? runs_override : thorough ? pi.runs_thorough : pi.runs_quick;
	if (!wallcap)
		wallcap = thorough ? 780 : 240;
	double t0 = now();
	auto kf = findings();

	auto *sh = shared<Shared>();
	u64 *hashbuf[NWORK];
	RunBox *boxes[NWORK];
	u64 *hashlog = hashes ? shared<u64>(runs) : nullptr;
	for (int i = 0; i < nwork; i++) {
		hashbuf[i] = shared<u64>(HASH_CAP);
		boxes[i] = shared<RunBox>();
		sh->w[i].next = i;
	}
	std::map<pid_t, int> kids;
	struct Cand {
		u64 index;
		bool crash;
	};
	std::vector<Cand> cands;
	auto spawn = [&](int w) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			box = boxes[w];
			auto &W = sh->w[w];
			stats = &W.st;
			// stderr of a crashing run is noise here: the violation is re-executed and described later
			int fd = open("/dev/null", O_WRONLY);
			dup2(fd, 2);
			std::unordered_set<u64> seen(hashbuf[w], hashbuf[w] + W.nhash);
			while (W.next < runs) {
				u64 i = W.next;
				if (sh->stop.load() <= i || now() - t0 > wallcap)
					break;
				W.next = i + nwork;
				if ((i / nwork) % 64 == 0)
					arm(15);
				execute(false, i);
				W.st.runs++;
				W.st.steps += box->steps;
				if (hashlog)
					hashlog[i] = box->hash ^ (box->violated ? 1 : 0);
				if (box->violated && box->known) {
					bool listed = false;
					for (auto &k : kf)
						listed |= k.prop == pi.id && k.tag == box->known_tag;
					if (listed) {
						W.st.known++;
						for (int t = 0; t < 16; t++) {
							if (!W.tagcount[t])
								memcpy(W.tags[t], box->known_tag, 64), W.tagindex[t] = i;
							if (!strcmp(W.tags[t], box->known_tag)) {
								W.tagcount[t]++;
								break;
							}
						}
						continue;
					}
				}
				if (box->violated) {
					W.has_viol = 1;
					W.viol_index = i;
					u64 s = sh->stop.load();
					while (i < s && !sh->stop.compare_exchange_weak(s, i))
						;
					break;
				}
				if (run_nontrivial) {
					W.st.nontrivial++;
					if (W.nhash < HASH_CAP && seen.insert(run_signature).second)
						hashbuf[w][W.nhash++] = run_signature;
				}
			}
			W.finished = 1;
			_exit(0);
		}
		kids[p] = w;
	};
	sh->stop = ~0ull;
	for (int i = 0; i < nwork; i++)
		spawn(i);
	int crashes = 0;
	while (!kids.empty()) {
		int status;
		pid_t p = wait(&status);
		if (p < 0)
			break;
		auto it = kids.find(p);
		if (it == kids.end())
			continue;
		int w = it->second;
		kids.erase(it);
		auto &W = sh->w[w];
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && W.finished) {
			if (W.has_viol)
				cands.push_back({W.viol_index, false});
			continue;
		}
		// the worker died inside run boxes[w]->run_index
		cands.push_back({boxes[w]->run_index, true});
		u64 s = sh->stop.load(), i = boxes[w]->run_index;
		while (i < s && !sh->stop.compare_exchange_weak(s, i))
			;
		if (++crashes < 32)
			spawn(w);
	}
	double wall = now() - t0;

	// ---- violations
	std::sort(cands.begin(), cands.end(), [](auto &a, auto &b) { return a.index < b.index; });
	int exitcode = 0;
	std::string replay_path;
	u64 tried = 0;
	for (size_t c = 0; c < cands.size() && c < 6; c++) {
		u64 idx = cands[c].index;
		Outcome a = forked(nullptr, idx), b = forked(nullptr, idx);
		if (!a.violated) {
			fprintf(stderr, "run %llu: violation did not reproduce\n", (unsigned long long)idx);
			exitcode = 2;
			continue;
		}
		if (!(a == b)) {
			fprintf(stderr, "run %llu: two executions of the same seed differ\n", (unsigned long long)idx);
			exitcode = 2;
			continue;
		}
		Outcome m = minimise(a, tried);
		hang_secs = 6;
		std::string trace;
		Outcome r = forked(&m.streams, 0, &trace);
		if (!r.violated || r.cls != m.cls || r.hash != m.hash) {
			fprintf(stderr, "run %llu: minimised run did not reproduce\n", (unsigned long long)idx);
			exitcode = 2;
			continue;
		}
		replay_path = write_replay(r, trace, idx, total(a.streams));
		// fresh process
		std::string cmd = std::string(selfpath) + " --quiet --replay '" + replay_path + "'";
		int st = system(cmd.c_str());
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
			fprintf(stderr, "run %llu: replay in a fresh process did not reproduce\n", (unsigned long long)idx);
			exitcode = 2;
			continue;
		}
		printf("%s: [%s] %s\n", pi.id, r.cls.c_str(), r.msg.c_str());
		printf("  found by seed %llu run %llu; %zu choices minimised to %zu in %llu runs\n", (unsigned long long)base_seed, (unsigned long long)idx, total(a.streams), total(r.streams), (unsigned long long)tried);
		auto ls = lines(trace);
		for (size_t i = ls.size() > 40 ? ls.size() - 40 : 0; i < ls.size(); i++)
			printf("    %s\n", ls[i].c_str());
		printf("VIOLATION property=%s replay=%s\n", pi.id, replay_path.c_str());
		exitcode = 1;
		break;
	}

	// ---- merge statistics
	Stats S{};
	std::unordered_set<u64> all;
	for (int w = 0; w < nwork; w++) {
		auto &W = sh->w[w];
		u64 *d = reinterpret_cast<u64 *>(&S), *s = reinterpret_cast<u64 *>(&W.st);
		for (size_t i = 0; i < sizeof(Stats) / 8; i++)
			d[i] += s[i];
		all.insert(hashbuf[w], hashbuf[w] + W.nhash);
	}
	if (hashes) {
		u64 h = 0;
		for (u64 i = 0; i < runs; i++) {
			h = mix(h ^ hashlog[i]);
			if (getenv("SIM_HASHLOG"))
				printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)hashlog[i]);
		}
		printf("%s seed %llu runs %llu workers %d log-digest %016llx\n", pi.id, (unsigned long long)base_seed, (unsigned long long)runs, nwork, (unsigned long long)h);
	}
	for (auto &k : kf)
		if (k.prop == pi.id) {
			u64 n = 0, first = ~0ull;
			for (int w = 0; w < nwork; w++)
				for (int t = 0; t < 16; t++)
					if (sh->w[w].tagcount[t] && k.tag == sh->w[w].tags[t])
						n += sh->w[w].tagcount[t], first = std::min(first, sh->w[w].tagindex[t]);
			printf("KNOWN-FINDING: property=%s %s: %s (seen in %llu runs", pi.id, k.tag.c_str(), k.text.c_str(), (unsigned long long)n);
			if (n)
				printf(", first run %llu", (unsigned long long)first);
			printf(")\n");
		}

	// ---- samples: complete event logs of a few runs
	std::vector<std::vector<std::string>> samples;
	for (u64 i = 0, tries = 0; samples.size() < 3 && tries < 12 && i < runs && exitcode == 0 && !no_evidence; i += runs / 7 + 1, tries++) {
		std::string t;
		Outcome o = forked(nullptr, i, &t);
		if (o.violated && !o.known)
			break;
		auto l = lines(t);
		if (l.size() > 60)
			l.resize(60), l.push_back("...");
		l.insert(l.begin(), "run " + std::to_string(i) + ", " + std::to_string(o.steps) + " steps, event hash " + [&] {char b[20]; snprintf(b,20,"%016llx",(unsigned long long)o.hash); return std::string(b); }());
		samples.push_back(l);
	}

	// determinism: a sample of runs executed again must give the same event log
	u64 det = 0;
	if (exitcode == 0 && !no_evidence)
		for (u64 i = 0; i < std::min<u64>(runs, 24); i++) {
			u64 idx = i * (runs / 24 + 1) % runs;
			Outcome a = forked(nullptr, idx), b = forked(nullptr, idx);
			if (!(a == b)) {
				fprintf(stderr, "run %llu: two executions of the same seed differ\n", (unsigned long long)idx);
				exitcode = 2;
			}
			Outcome c = forked(&a.streams, idx);
			if (c.hash != a.hash) {
				fprintf(stderr, "run %llu: replaying the choices differs from generating them\n", (unsigned long long)idx);
				exitcode = 2;
			}
			det++;
		}

	if (!no_evidence) {
		mkdir((verif + "/evidence").c_str(), 0755);
		std::ofstream f(verif + "/evidence/" + pi.id + ".json");
		auto arr = [&](std::vector<const char *> const &v) {
			std::string r = "[";
			for (size_t i = 0; i < v.size(); i++)
				r += (i ? ", " : "") + jstr(v[i]);
			return r + "]";
		};
		f << "{\n \"property\": " << jstr(pi.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << base_seed
		  << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall << ",\n \"violations\": " << (exitcode == 1 ? 1 : 0)
		  << ",\n \"assumptions\": " << arr(harness.assumptions) << ",\n \"coverage\": {\n  \"evaluations\": " << S.runs
		  << ",\n  \"distinct_nontrivial\": " << all.size() << ",\n  \"rule\": " << jstr(std::string(pi.rule) + " Distinct by: " + harness.measure + ".")
		  << ",\n  \"nontrivial_runs\": " << S.nontrivial << ",\n  \"seeds_per_hour\": " << u64(S.runs / std::max(wall, 0.001) * 3600)
		  << ",\n  \"simulated_steps\": " << S.steps << ",\n  \"simulated_time\": " << S.sim_time << ",\n  \"simulated_time_unit\": " << jstr(harness.time_unit)
		  << ",\n  \"context_switches\": " << S.switches << ",\n  \"known_finding_runs\": " << S.known
		  << ",\n  \"runs_reexecuted_for_determinism\": " << det << ",\n  \"minimisation_runs\": " << tried << ",\n  \"faults_injected\": {";
		for (size_t i = 0; i < harness.faults.size(); i++)
			f << (i ? ", " : "") << jstr(harness.faults[i]) << ": " << S.fault[i];
		f << "},\n  \"probes\": {";
		for (size_t i = 0; i < harness.probes.size(); i++)
			f << (i ? ", " : "") << jstr(harness.probes[i]) << ": " << S.probe[i];
		f << "},\n  \"real_code\": " << arr(harness.real) << ",\n  \"stubs\": " << arr(harness.stub) << ",\n  \"samples\": [\n";
		for (size_t i = 0; i < samples.size(); i++) {
			f << "   [";
			for (size_t j = 0; j < samples[i].size(); j++)
				f << (j ? ", " : "") << jstr(samples[i][j]);
			f << "]" << (i + 1 < samples.size() ? ",\n" : "\n");
		}
		if (samples.empty())
			f << "   \"none: the run ended with a violation\"\n";
		f << "  ]\n }\n}\n";
	}
	printf("%s: %llu runs, %llu non-trivial, %zu distinct, %.1f s, exit %d\n", pi.id, (unsigned long long)S.runs, (unsigned long long)S.nontrivial, all.size(), wall, exitcode);
	if (exitcode == 0 && S.runs == 0)
		exitcode = 2;
	return exitcode;
}
