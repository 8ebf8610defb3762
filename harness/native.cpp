// Native side of the harness interface: replays concrete inputs against the real code.
//   native HARNESS FILE [trace]
// FILE: one input vector per line, "name=hexbits name=hexbits ...".  Each is run in a child
// process; prints "OK", "ASSUME" or "VIOLATION <what>" per line.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <exception>

static std::map<std::string, std::string> inputs;
static std::map<std::string, int> counter;
static bool expect_abort = false;
static int failed = 0;
static int outfd = 1;
static bool trace = false;
static std::string firstmsg;

static void say(const std::string &s)
{
	std::string t = s + "\n";
	(void)!write(outfd, t.data(), t.size());
}

static unsigned __int128 value(const char *n)
{
	int k = counter[n]++;
	std::string key = k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
	auto it = inputs.find(key);
	if (it == inputs.end()) return 0;
	unsigned __int128 r = 0;
	for (char c : it->second) r = r * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
	return r;
}

static void obs(const char *kind, const void *p, size_t n)
{
	if (!trace) return;
	std::string s = std::string("OBS ") + kind + " ";
	char b[8];
	for (size_t i = n; i-- > 0;) { snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); s += b; }
	say(s);
}

template <class T> static bool same(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template <class T> static bool nearv(T a, T b, T tol)
{
	if (same(a, b)) return true;
	if (a != a || b != b || std::isinf(a) || std::isinf(b)) return false;
	return std::fabs(a - b) <= tol * std::fmax(T(1), std::fmax(std::fabs(a), std::fabs(b)));
}

extern "C" {
bool vf_bool(const char *n) noexcept { return value(n) & 1; }
uint8_t vf_u8(const char *n) noexcept { return (uint8_t)value(n); }
uint16_t vf_u16(const char *n) noexcept { return (uint16_t)value(n); }
uint32_t vf_u32(const char *n) noexcept { return (uint32_t)value(n); }
uint64_t vf_u64(const char *n) noexcept { return (uint64_t)value(n); }
float vf_f32(const char *n) noexcept { uint32_t b = (uint32_t)value(n); float f; memcpy(&f, &b, 4); return f; }
double vf_f64(const char *n) noexcept { uint64_t b = (uint64_t)value(n); double f; memcpy(&f, &b, 8); return f; }
long double vf_f80(const char *n) noexcept { auto b = value(n); long double f = 0; memcpy(&f, &b, 10); return f; }
void vf_assert(bool c, const char *m) noexcept
{
	if (trace) { unsigned char x = c; obs("assert", &x, 1); }
	if (!c) { if (!failed) firstmsg = m; failed++; }
}
static void finish()
{
	if (failed) { say("VIOLATION " + firstmsg); _exit(3); }
	say("OK");
	_exit(0);
}
void vf_assume(bool c) noexcept { if (!c) { if (failed) finish(); say("ASSUME"); _exit(0); } }
bool vf_same_f32(float a, float b) noexcept { obs("same.a", &a, 4); obs("same.b", &b, 4); return same(a, b); }
bool vf_same_f64(double a, double b) noexcept { obs("same.a", &a, 8); obs("same.b", &b, 8); return same(a, b); }
bool vf_same_u64(uint64_t a, uint64_t b) noexcept { obs("same.a", &a, 8); obs("same.b", &b, 8); return a == b; }
bool vf_same_f80(long double a, long double b) noexcept { obs("same.a", &a, 10); obs("same.b", &b, 10); return same(a, b); }
void vf_near_f32(float a, float b, const char *m) noexcept
{
	obs("near.a", &a, 4); obs("near.b", &b, 4);
	if (!nearv(a, b, 1e-4f)) { if (!failed) firstmsg = m; failed++; }
}
void vf_near_f64(double a, double b, const char *m) noexcept
{
	obs("near.a", &a, 8); obs("near.b", &b, 8);
	if (!nearv(a, b, 1e-9)) { if (!failed) firstmsg = m; failed++; }
}
void vf_expect_abort(bool c) noexcept { expect_abort = c; }
void vf_expect_end(const char *m) noexcept
{
	if (expect_abort) { say(std::string("VIOLATION expected assertion failure did not happen: ") + m); _exit(3); }
	expect_abort = false;
}
void vf_cover(const char *) noexcept {}
void vf_obs_u64(uint64_t v) noexcept { obs("obs", &v, 8); }
}

static void on_abort(int sig)
{
	if (failed) { say("VIOLATION " + firstmsg); _exit(3); }
	if (expect_abort && sig == SIGABRT) { say("OK abort"); _exit(0); }
	say(std::string("VIOLATION ") + (sig == SIGABRT ? "abort (assertion failed, uncaught exception or sanitizer report)" : sig == SIGALRM ? "no termination within 10 s" : "fatal signal"));
	_exit(3);
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	void *h = dlsym(RTLD_DEFAULT, (std::string("h_") + argv[1]).c_str());
	if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
	trace = argc > 3;
	auto fn = (void (*)())h;
	std::ifstream f(argv[2]);
	std::string line;
	int rc = 0;
	while (std::getline(f, line))
	{
		fflush(stdout);
		pid_t p = fork();
		if (p == 0)
		{
			struct rlimit rl { 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
			std::istringstream is(line);
			std::string kv;
			while (is >> kv)
			{
				auto e = kv.rfind('=');
				inputs[kv.substr(0, e)] = kv.substr(e + 1);
			}
			if (!getenv("VF_STDERR")) { (void)!freopen("/dev/null", "w", stderr); }
			for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGALRM}) signal(s, on_abort);
			alarm(10);
			fn();
			if (!failed && expect_abort) { say("VIOLATION expected assertion failure did not happen"); _exit(3); }
			finish();
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) say("VIOLATION process ended abnormally (sanitizer report)");
		rc = 1;
	}
	return rc;
}
