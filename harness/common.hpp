// Shared by all harnesses: case scheduling, monitors' report channel, crash journal, CPU watchdog.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
#include <vector>

namespace vf {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { next(); next(); }
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform integer in [a,b]
	long in(long a, long b) { return a + static_cast<long>(next() % static_cast<uint64_t>(b - a + 1)); }
	bool chance(double p) { return u() < p; }
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double u(double a, double b) { return a + (b - a) * u(); }
	template <typename T> T const& pick(std::vector<T> const& v) { return v[next() % v.size()]; }
};

inline uint64_t fnv(std::string const& s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

inline std::string jesc(std::string const& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Options {
	std::string prop, tier = "quick", out;
	uint64_t seed = 1;
	long only = -1, start = 0, stop = -1, shard = 0, shards = 1;
	double part = 0, stretch = 1; bool leaks = false;
};

// the current case, readable after a crash
struct Journal { char text[4096]; };
inline Journal*& journal() { static Journal* j = nullptr; return j; }

struct Monitor {
	Options opt;
	FILE* f = nullptr;
	std::map<std::string, unsigned long long> counters;
	std::unordered_set<uint64_t> sigs;
	std::vector<std::string> samples;
	unsigned long long evaluations = 0, cases = 0, violations = 0;
	std::map<std::string, int> per_key;
	long cur = -1;
	bool memory_only = false;   // the sanitizer or memcheck judges; what the case itself would say is another property's
	void line(std::string const& s) { fputs(s.c_str(), f); fputc('\n', f); fflush(f); }
	void summary(bool final_) {
		std::ostringstream o;
		o << "{\"type\":\"cov\",\"final\":" << (final_ ? "true" : "false") << ",\"cases\":" << cases
		  << ",\"evaluations\":" << evaluations << ",\"counters\":{";
		bool first = true;
		for (auto& c : counters) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
		o << "},\"sigs\":[";
		first = true;
		for (auto s : sigs) { o << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; first = false; }
		o << "],\"samples\":[";
		for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
		o << "]}";
		line(o.str());
	}
};

struct Case {
	Monitor& m;
	Rng rng;
	long k;
	std::string text;
	Case(Monitor& mm, uint64_t seed, long kk) : m(mm), rng(seed), k(kk) {}
	bool thorough() const { return m.opt.tier == "thorough"; }
	// describe the input being run (kept in the journal, printed with a violation)
	void desc(std::string const& s) {
		text = s;
		if (journal()) {
			snprintf(journal()->text, sizeof(journal()->text), "%ld\t%s", k, s.c_str());
		}
	}
	void note(std::string const& s) { desc(text + s); }
	// an evaluation of the oracle on something observed
	void eval(unsigned long n = 1) { if (!m.memory_only) m.evaluations += n; }
	// a monitor's counter: kinds of event and state seen
	void obs(std::string const& name, unsigned long n = 1) { if (!m.memory_only) m.counters[name] += n; }
	// the signature of a distinct, non-trivial state / history / input
	void sig(std::string const& s) { m.sigs.insert(fnv(s)); }
	void sample(std::string const& s) { if (m.samples.size() < 4) m.samples.push_back(s); }
	void violation(std::string const& key, std::string const& detail) {
		if (m.memory_only) return;
		++m.violations;
		if (++m.per_key[key] > 5) return;
		std::ostringstream o;
		o << "{\"type\":\"violation\",\"key\":\"" << jesc(key) << "\",\"case\":" << k << ",\"input\":\"" << jesc(text.substr(0, 6000))
		  << "\",\"detail\":\"" << jesc(detail.substr(0, 4000)) << "\"}";
		m.line(o.str());
	}
	// the oracle's yes/no; counts an evaluation
	bool check(bool ok, std::string const& key, std::string const& detail) {
		eval();
		if (!ok) violation(key, detail);
		return ok;
	}
};

struct Prop {
	std::string id;
	long quick, thorough;
	std::function<void(Case&)> fn;
	double cpu_seconds;
};
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Register {
	Register(std::string id, long q, long t, std::function<void(Case&)> fn, double cpu = 60) { props().push_back({id, q, t, fn, cpu}); }
};

inline void on_cpu_limit(int) { _exit(97); }
inline void arm(double s) {
	itimerval t{};
	t.it_value.tv_sec = static_cast<long>(s);
	t.it_value.tv_usec = static_cast<long>((s - static_cast<long>(s)) * 1e6);
	setitimer(ITIMER_PROF, &t, nullptr);
}

using BeforeCase = void (*)();
inline BeforeCase& before_case() { static BeforeCase b = nullptr; return b; }

#ifdef VERIF_SAN
extern "C" int __lsan_do_recoverable_leak_check(void);
inline int leaks_now() { return __lsan_do_recoverable_leak_check(); }
#else
inline int leaks_now() { return 0; }
#endif

inline int run_main(int argc, char** argv) {
	if (argc > 1 && std::string(argv[1]) == "--probe-leaks") _exit(leaks_now() ? 3 : 0);   // can leaks be looked for here at all?
	Options o;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--prop") o.prop = v;
		else if (a == "--tier") o.tier = v;
		else if (a == "--out") o.out = v;
		else if (a == "--seed") o.seed = std::stoull(v);
		else if (a == "--only") o.only = std::stol(v);
		else if (a == "--start") o.start = std::stol(v);
		else if (a == "--stop") o.stop = std::stol(v);
		else if (a == "--shard") o.shard = std::stol(v);
		else if (a == "--shards") o.shards = std::stol(v);
		else if (a == "--part") o.part = std::stod(v);
		else if (a == "--stretch") o.stretch = std::stod(v);
		else if (a == "--leaks") o.leaks = std::stol(v) != 0;
		else { std::cerr << "unknown argument " << a << "\n"; return 2; }
	}
	Monitor m;
	m.opt = o;
	m.f = o.out.empty() ? stdout : fopen(o.out.c_str(), "a");
	if (!m.f) { perror("out"); return 2; }
	if (!o.out.empty()) {
		std::string jp = o.out + ".journal";
		int fd = open(jp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Journal)) != 0) { perror("journal"); return 2; }
		journal() = static_cast<Journal*>(mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		if (journal() == MAP_FAILED) { perror("journal"); return 2; }
	}
	signal(SIGPROF, on_cpu_limit);
	bool found = false;
	auto run = [&](Prop const& p, long sub, long k, uint64_t seed, double stretch) {
		Case c(m, fnv(p.id) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (static_cast<uint64_t>(sub) * 0xD1342543DE82EF95ull), k);
		c.desc("(being generated)");
		if (before_case()) before_case()();
#ifdef VERIF_SAN
		arm(p.cpu_seconds * 10 * stretch);
#else
		arm(p.cpu_seconds * stretch);
#endif
		m.cur = k;
		try { p.fn(c); }
		catch (std::exception const& e) {
			c.eval();
			c.violation("unexpected-exception", std::string("an operation that must succeed threw: ") + e.what());
		}
		arm(0);
		++m.cases;
		if (m.samples.size() < 2 && c.text.size() < 1500) m.samples.push_back(c.text);
		if (m.memory_only) {
			++m.evaluations;
			++m.counters["cases of the workload of " + p.id];
			m.sigs.insert(fnv(p.id + c.text));
			if (o.leaks && m.cases % 6 == 0) { ++m.counters["looks for leaks"]; if (leaks_now()) _exit(99); }
		}
		if (o.only >= 0) { for (auto& s : m.counters) std::cerr << s.first << "=" << s.second << "\n"; std::cerr << c.text << "\n"; }
		if (m.cases % 25 == 0) m.summary(false);
	};
	auto mine = [&](long k) { return o.only >= 0 ? k == o.only : k % o.shards == o.shard; };
	if (o.part > 0) {
		// the memory monitors: a part of every workload of this harness, one after another
		m.memory_only = found = true;
		std::vector<std::pair<double, std::pair<size_t, long>>> todo;
		for (size_t i = 0; i < props().size(); ++i) {
			long n = std::max(4l, static_cast<long>(props()[i].quick * o.part));
			for (long j = 0; j < n; ++j) todo.push_back({(j + 0.5) / n, {i, j}});
		}
		std::sort(todo.begin(), todo.end());
		for (long k = o.start; k < static_cast<long>(todo.size()); ++k) {
			if (o.stop >= 0 && k > o.stop) break;
			if (mine(k)) run(props()[todo[k].second.first], todo[k].second.second, k, o.seed + 77, o.stretch);
		}
	}
	else for (auto& p : props()) {
		if (p.id != o.prop) continue;
		found = true;
		long n = o.tier == "thorough" ? p.thorough : p.quick;
		for (long k = o.start; k < n; ++k) {
			if (o.stop >= 0 && k > o.stop) break;
			if (mine(k)) run(p, k, k, o.seed, 1);
		}
	}
	if (!found) { std::cerr << "no property " << o.prop << " here\n"; return 2; }
	if (o.leaks) { ++m.counters["looks for leaks"]; if (leaks_now()) _exit(99); }
	m.summary(true);
	fflush(m.f);
	_exit(0);   // static destruction is not part of any property
}
} // namespace vf
