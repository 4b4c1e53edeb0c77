// Native reading of the contracts: runs the same harnesses on concrete inputs.
//   native list
//   native replay HARNESS FILE            exit 1 when a contract fails on the given values
//   native search HARNESS SECONDS SEED OUT   looks for a failing input; writes it to OUT, exit 1
// Inputs come from: small exhaustive enumeration, then boundary-biased random values.
#include "vp.hpp"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>
#include <csignal>
#include <chrono>

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1";
}
extern "C" const char* __tsan_default_options()
{
	return "halt_on_error=1:report_signal_unsafe=0";
}
extern "C" const char* __ubsan_default_options()
{
	return "halt_on_error=1:print_stacktrace=0";
}

using fn_t = void (*)();
static std::map<std::string, fn_t>& reg()
{
	static std::map<std::string, fn_t> r;
	return r;
}
void vp_register(const char* name, void (*f)())
{
	reg()[name] = f;
}

namespace {
struct shared {
	volatile unsigned long runs, nontrivial, rejected, exhaustive, distinct;
	volatile size_t len;
	char label[512];
	char rec[1 << 20]; // inputs of the current run
	volatile size_t slen;
	char sample[4096];
};
shared* sh;

enum mode_t { replay_m, exh_m, rnd_m };
mode_t mode;
jmp_buf jb;
std::mt19937_64 rng;
// replay
std::map<std::string, std::vector<std::pair<char, std::string>>> given;
std::map<std::string, size_t> given_i;
// exhaustive: odometer over choices
std::vector<std::pair<unsigned, unsigned>> odo; // value, count
size_t odo_i;
unsigned exh_len;
size_t maxlen; // largest length chosen in this run
uint64_t checks;
std::vector<unsigned char*> bufs;

bool may_abort;
bool searched = true; // the inputs come from a search (or were found by one)
unsigned choose(unsigned n)
{
	if (mode == exh_m) {
		if (odo_i == odo.size()) odo.push_back({0, n});
		odo[odo_i].second = n;
		return odo[odo_i++].first;
	}
	return unsigned(rng() % n);
}
void record(char kind, const char* name, const char* txt)
{
	size_t l = sh->len;
	int n = snprintf(sh->rec + l, sizeof(sh->rec) - l, "%c %s %s\n", kind, name, txt);
	if (n > 0 && l + n < sizeof(sh->rec)) sh->len = l + n;
}
void record(char kind, const char* name, uint64_t v)
{
	char b[32];
	snprintf(b, sizeof b, "%llu", (unsigned long long)v);
	record(kind, name, b);
}
const std::string* replayed(const char* name)
{
	auto i = given.find(name);
	if (i == given.end()) return nullptr;
	size_t& k = given_i[name];
	if (k >= i->second.size()) return nullptr;
	return &i->second[k++].second;
}
uint64_t rnd_any(unsigned bits)
{
	uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
	static const uint64_t bnd[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000,
		0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
	switch (rng() % 4) {
		case 0: return bnd[rng() % (sizeof bnd / sizeof *bnd)] & m;
		case 1: return (bnd[rng() % (sizeof bnd / sizeof *bnd)] + rng() % 5 - 2) & m;
		case 2: return rng() % 17 & m;
		default: return (rng() >> (rng() % 64)) & m;
	}
}
void fill(const char* name, unsigned char* p, size_t n, const char* alphabet, bool rdonly)
{
	size_t al = strlen(alphabet);
	if (mode == replay_m) {
		const std::string* s = replayed(name);
		for (size_t i = 0; i < n; ++i) {
			unsigned v = 0;
			if (s && 2 * i + 1 < s->size()) sscanf(s->c_str() + 2 * i, "%2x", &v);
			p[i] = (unsigned char)v;
		}
	} else if (mode == exh_m) {
		static const unsigned char def[] = {0, 'a', 0xff};
		for (size_t i = 0; i < n; ++i) {
			if (i < 8) p[i] = al ? (unsigned char)alphabet[choose(unsigned(al))] : def[choose(3)];
			else p[i] = 'x';
		}
	} else {
		int style = int(rng() % 4);
		for (size_t i = 0; i < n; ++i) {
			if (al && style < 3) p[i] = (unsigned char)(style == 2 && (rng() & 1) ? alphabet[0] : alphabet[rng() % al]);
			else p[i] = (unsigned char)rng();
		}
	}
	if (n <= 4096) {
		std::string t;
		char b[3];
		for (size_t i = 0; i < n; ++i) {
			snprintf(b, 3, "%02x", p[i]);
			t += b;
		}
		record('b', name, t.c_str());
	}
	(void)rdonly;
}
} // namespace

extern "C" {
uint64_t vp_any(const char* name, unsigned bits) noexcept
{
	uint64_t v = 0;
	if (mode == replay_m) {
		if (auto s = replayed(name)) v = strtoull(s->c_str(), nullptr, 10);
	} else if (mode == exh_m) {
		uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
		const uint64_t c[] = {0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, 5, 0x80};
		v = c[choose(10)] & m;
	} else v = rnd_any(bits);
	record('a', name, v);
	return v;
}
size_t vp_len(const char* name) noexcept
{
	size_t v = 0;
	if (mode == replay_m) {
		if (auto s = replayed(name)) v = strtoull(s->c_str(), nullptr, 10);
		if (v > (size_t(1) << 28)) longjmp(jb, 2); // not executable
	} else if (mode == exh_m) v = choose(exh_len + 1);
	else switch (rng() % 8) {
		case 0: v = rng() % 40; break;
		case 1: v = rng() % 300; break;
		case 2: if (rng() % 8 == 0) v = rng() % 3000; else v = rng() % 6; break;
		default: v = rng() % 9;
	}
	if (v > maxlen) maxlen = v;
	record('l', name, v);
	return v;
}
uint64_t vp_ghost(const char* name) noexcept
{
	uint64_t v = 0;
	if (mode == replay_m) {
		if (auto s = replayed(name)) v = strtoull(s->c_str(), nullptr, 10);
	} else if (mode == exh_m) v = choose(exh_len * 2 + 2);
	else switch (rng() % 3) {
		case 0: v = rng() % (2 * maxlen + 3); break;
		case 1: v = rng() % (maxlen + 1); break;
		default: v = rng() % 12;
	}
	record('g', name, v);
	return v;
}
const void* vp_bytes(const char* name, size_t n, const char* alphabet) noexcept
{
	unsigned char* p = (unsigned char*)malloc(n);
	if (!p) longjmp(jb, 2);
	bufs.push_back(p);
	fill(name, p, n, alphabet, true);
	return p;
}
void* vp_buf(const char* name, size_t n) noexcept
{
	unsigned char* p = (unsigned char*)malloc(n);
	if (!p) longjmp(jb, 2);
	bufs.push_back(p);
	fill(name, p, n, "", false);
	return p;
}
void vp_requires(bool c) noexcept
{
	if (!c) longjmp(jb, 1);
}
void vp_ensures(bool c, const char* label) noexcept
{
	++checks;
	if (c) return;
	snprintf(sh->label, sizeof sh->label, "ensures: %s", label);
	_exit(77);
}
void vp_reach(const char*) noexcept { ++checks; }
void vp_hint_pred(uint64_t, bool) noexcept {}
void vp_hint_elem(uint64_t, uint64_t, unsigned) noexcept {}
void vp_hint_val(uint64_t) noexcept {}
void vp_hint_fn(uint64_t (*)(uint64_t)) noexcept {}
void vp_hint_inv(const void*, const char*) noexcept {}
uint64_t vp_fun(const char*, uint64_t) noexcept { abort(); }
void vp_axiom(bool (*)(uint64_t)) noexcept {}
void vp_use(uint64_t) noexcept {}
void vp_aborts() noexcept
{
	may_abort = true;
	++checks;
	static bool quiet = (freopen("/dev/null", "w", stderr), true);
	(void)quiet;
}
bool vp_readable(const void* p, size_t n) noexcept
{
	// touch the range: the address sanitizer reports what is outside
	unsigned x = 0;
	for (size_t i = 0; i < n; ++i) x += ((const volatile unsigned char*)p)[i];
	volatile unsigned y = x;
	(void)y;
	return true;
}
bool vp_same_object(const void*, const void*) noexcept { return true; }
bool vp_native() noexcept { return true; }
bool vp_search() noexcept { return searched; }
bool vp_true() noexcept
{
	static volatile bool t = true;
	return t;
}
}

static void on_alarm(int)
{
	snprintf(sh->label, sizeof sh->label, "termination: no result within 10 s");
	_exit(79);
}
static void on_abort(int)
{
	if (may_abort) {
		sigset_t s;
		sigemptyset(&s);
		sigaddset(&s, SIGABRT);
		sigprocmask(SIG_UNBLOCK, &s, nullptr);
		longjmp(jb, 3);
	}
	signal(SIGABRT, SIG_DFL);
}
static void one(fn_t f)
{
	may_abort = false;
	sh->len = 0;
	maxlen = 0;
	checks = 0;
	odo_i = 0;
	given_i.clear();
	struct itimerval tv = {{0, 0}, {10, 0}};
	static unsigned cnt = 0;
	if ((cnt++ & 63) == 0 || mode == replay_m) setitimer(ITIMER_REAL, &tv, nullptr);
	int j = setjmp(jb);
	if (j == 0) f();
	if (j == 0 || j == 3) {
		sh->runs = sh->runs + 1;
		if (checks) {
			static std::unordered_set<uint64_t> seen; // distinct inputs
			if (seen.size() < 2000000 && seen.insert(std::hash<std::string_view>()(std::string_view(sh->rec, sh->len))).second) sh->nontrivial = sh->nontrivial + 1;
		}
		if (checks && sh->slen < 1500 && sh->len < 400 && (sh->runs % 977) == 1) {
			memcpy(sh->sample + sh->slen, sh->rec, sh->len);
			sh->slen = sh->slen + sh->len;
			sh->sample[sh->slen] = '\n';
			sh->slen = sh->slen + 1;
		}
	} else {
		sh->rejected = sh->rejected + 1;
		if (j == 2 && mode == replay_m) {
			puts("NOT-EXECUTABLE");
			_exit(3);
		}
	}
	for (auto p : bufs) free(p);
	bufs.clear();
}
static void on_terminate()
{
	snprintf(sh->label, sizeof sh->label, "exception escapes / terminate");
	_exit(78);
}
int main(int argc, char** argv)
{
	sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 2 || !strcmp(argv[1], "list")) {
		for (auto& r : reg()) puts(r.first.c_str());
		return 0;
	}
	fn_t f = reg().count(argv[2]) ? reg()[argv[2]] : nullptr;
	if (!f) {
		fprintf(stderr, "no harness %s\n", argv[2]);
		return 4;
	}
	std::set_terminate(on_terminate);
	signal(SIGALRM, on_alarm);
	signal(SIGABRT, on_abort);
	if (!strcmp(argv[1], "replay")) {
		mode = replay_m;
		searched = false;
		FILE* fp = fopen(argv[3], "r");
		if (!fp) return 4;
		std::string line;
		int c;
		while ((c = fgetc(fp)) != EOF) {
			if (c != '\n') {
				line += char(c);
				continue;
			}
			if (line.size() > 2 && line[1] == ' ' && strchr("algb", line[0])) {
				size_t sp = line.find(' ', 2);
				if (sp != std::string::npos) given[line.substr(2, sp - 2)].push_back({line[0], line.substr(sp + 1)});
			}
			if (line == "s") searched = true;
			line.clear();
		}
		fclose(fp);
		pid_t pid = fork();
		if (pid == 0) {
			one(f);
			_exit(sh->rejected ? 3 : 0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			puts("PASS");
			return 0;
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
		printf("FAIL %s\n%s", sh->label[0] ? sh->label : "crash / sanitizer report", sh->rec);
		return 1;
	}
	double secs = atof(argv[3]);
	unsigned long seed = strtoul(argv[4], nullptr, 10);
	pid_t pid = fork();
	if (pid == 0) {
		auto t0 = std::chrono::steady_clock::now();
		auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
		// phase 1: exhaustive for growing lengths, half of the time
		mode = exh_m;
		bool finite = false;
		for (exh_len = 0; exh_len <= 6 && !finite; ++exh_len) {
			odo.clear();
			bool used_len = false;
			for (;;) {
				one(f);
				if (maxlen || exh_len == 0) used_len = true;
				odo.resize(odo_i);
				while (!odo.empty() && ++odo.back().first >= odo.back().second) odo.pop_back();
				if (odo.empty()) {
					sh->exhaustive = exh_len + 1;
					break;
				}
				if (el() > secs / 2) {
					finite = true;
					break;
				}
			}
			(void)used_len;
		}
		mode = rnd_m;
		rng.seed(seed);
		while (el() < secs)
			for (int i = 0; i < 64; ++i) one(f);
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	printf("runs %lu nontrivial %lu rejected %lu exhaustive_len %ld\n", sh->runs, sh->nontrivial, sh->rejected, long(sh->exhaustive) - 1);
	printf("SAMPLES\n%s", sh->sample);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	FILE* o = fopen(argv[5], "w");
	fprintf(o, "# harness %s: %s\ns\n%s", argv[2], sh->label[0] ? sh->label : "crash / sanitizer report", sh->rec);
	fclose(o);
	printf("FAIL %s\n", sh->label[0] ? sh->label : "crash / sanitizer report");
	return 1;
}
