// Native runtime for the contract vocabulary: concrete execution of the same contract TU (replay and
// search for failing inputs, and witnesses that the preconditions are satisfiable).
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <array>
#include <sys/time.h>
#include <unistd.h>

using sz = std::size_t;
using zh = std::uint64_t;
using Zt = __int128;

struct entry {
	const char *name;
	int nargs;
	void *fn;
};
extern entry vc_table[];

static sigjmp_buf jb;
static std::vector<Zt> zt;
static sz ghost[256];
static int fail_line = 0;
static std::set<int> *lines;
static std::map<std::string, std::string> *dummy;
static long hits = 0, run_hits = 0;

static zh put(Zt v) {
	zt.push_back(v);
	return zt.size() - 1;
}
extern "C" {
static long progress;
void vc_requires(bool c) noexcept {
	if (!c)
		siglongjmp(jb, 1);
	++progress;
}
void vc_ensures(int line, bool c) noexcept {
	lines->insert(line);
	++hits;
	if (!c) {
		fail_line = line;
		siglongjmp(jb, 2);
	}
	if (zt.size() > 4000000 || ++run_hits > 400000)
		siglongjmp(jb, 1);
}
void vc_reach(int line) noexcept { lines->insert(line); }
void vc_case(int, bool) noexcept {}
zh vz_u(sz x) { return put(Zt(x)); }
zh vz_s(long x) { return put(Zt(x)); }
static void ovf() { siglongjmp(jb, 1); }
static Zt mul(Zt a, Zt b) {
	Zt r;
	if (__builtin_mul_overflow(a, b, &r))
		ovf();
	return r;
}
static Zt add(Zt a, Zt b) {
	Zt r;
	if (__builtin_add_overflow(a, b, &r))
		ovf();
	return r;
}
zh vz_add(zh a, zh b) { return put(add(zt[a], zt[b])); }
zh vz_sub(zh a, zh b) {
	Zt r;
	if (__builtin_sub_overflow(zt[a], zt[b], &r))
		ovf();
	return put(r);
}
zh vz_mul(zh a, zh b) {
	Zt r;
	if (__builtin_mul_overflow(zt[a], zt[b], &r))
		ovf();  // the concrete run cannot represent the mathematical value: input not used
	return put(r);
}
zh vz_div(zh a, zh b) {
	if (zt[b] <= 0)
		return put(0);
	Zt q = zt[a] / zt[b];
	if (zt[a] % zt[b] < 0)
		--q;
	return put(q);
}
zh vz_mod(zh a, zh b) {
	if (zt[b] <= 0)
		return put(0);
	Zt r = zt[a] % zt[b];
	if (r < 0)
		r += zt[b];
	return put(r);
}
zh vz_ite(bool c, zh a, zh b) { return c ? a : b; }
bool vz_eq(zh a, zh b) { return zt[a] == zt[b]; }
bool vz_le(zh a, zh b) { return zt[a] <= zt[b]; }
bool vz_lt(zh a, zh b) { return zt[a] < zt[b]; }
bool vb_and(bool a, bool b) { return a && b; }
bool vb_or(bool a, bool b) { return a || b; }
bool vb_not(bool a) { return !a; }
bool vb_id(bool a) { return a; }
sz vg_get(int s) noexcept { return ghost[s]; }
void vg_set(int s, sz v) noexcept { ghost[s] = v; }
// one placement that satisfies the contract of the abstract structure: rows and planes are padded by amounts that depend
// on the lengths, so that no two lengths are interchangeable
static Zt row(Zt l1, Zt l0) { return add(l1, Zt((unsigned long long)l0 % 3)); }
static Zt plane(Zt l2, Zt l0, Zt l1) { return add(l2, Zt((unsigned long long)(l0 % 2 + 2 * (l1 % 2)) % 3)); }
static Zt place(int id, Zt e, Zt l0, Zt l1, Zt l2, Zt i0, Zt i1, Zt i2) {
	Zt r = add(mul(add(mul(i0, row(l1, l0)), i1), plane(l2, l0, l1)), i2);
	// ids >= 200: any placement is allowed; take one that is not aligned
	return id >= 200 ? add(mul(r, add(e, Zt(3))), Zt(1)) : mul(r, e);
}
static Zt room(int id, Zt e, Zt l0, Zt l1, Zt l2) {
	if (l0 <= 0 || l1 <= 0 || l2 <= 0)
		return id >= 200 ? Zt(1) : Zt(0);
	Zt s = mul(mul(l0, row(l1, l0)), mul(plane(l2, l0, l1), id >= 200 ? add(e, Zt(3)) : e));
	return id >= 200 ? add(s, Zt(1)) : s;
}
sz abs_off(int id, sz e, sz l0, sz l1, sz l2, sz i0, sz i1, sz i2) {
	if ((id < 100 || id >= 200) && !(i0 < l0 && i1 < l1 && i2 < l2)) {
		fail_line = -1;  // sub-structure precondition
		siglongjmp(jb, 2);
	}
	if (mul(mul(Zt(l0), l1), l2) >= (Zt(1) << 60))
		siglongjmp(jb, 1);
	return sz(place(id, e, l0, l1, l2, i0, i1, i2));
}
sz abs_size(int id, sz e, sz l0, sz l1, sz l2) {
	if (mul(mul(Zt(l0), l1), l2) >= (Zt(1) << 60))
		siglongjmp(jb, 1);
	Zt s = room(id, e, l0, l1, l2);
	if (s >> 64)
		siglongjmp(jb, 1);  // the size of a structure is a size_t
	return sz(s);
}
zh vz_abs_off(int id, zh e, zh l0, zh l1, zh l2, zh i0, zh i1, zh i2) {
	return put(place(id, zt[e], zt[l0], zt[l1], zt[l2], zt[i0], zt[i1], zt[i2]));
}
zh vz_abs_size(int id, zh e, zh l0, zh l1, zh l2) {
	Zt s = room(id, zt[e], zt[l0], zt[l1], zt[l2]);
	if (s >> 64)
		ovf();  // abs_size is a size_t
	return put(s);
}
static std::vector<char> m, snap;
static sz mused, tracked;
struct exp_t { std::ptrdiff_t off; sz n, v; };
static std::vector<exp_t> expected;
static struct { int line; const char *p; sz n, v; } pend;
static void vc_restore() {
	if (tracked)
		std::memcpy(m.data(), snap.data(), tracked);
	tracked = mused = 0;
	pend.p = nullptr;
	expected.clear();
}
const char *vc_memory(sz n) noexcept {
	if (m.empty()) {
		m.resize(1 << 22);
		unsigned x = 12345;
		for (char &c : m)
			c = char((x = x * 1103515245 + 12345) >> 16);
	}
	if (n > m.size() - 64)
		siglongjmp(jb, 1);
	mused = n;
	return m.data();
}
void vc_track() noexcept {
	tracked = mused + 64 < 65536 ? mused + 64 : 65536;
	snap.assign(m.begin(), m.begin() + tracked);
	pend.p = nullptr;
}
static void settle(int line) {
	if (pend.p && std::memcmp(pend.p, &pend.v, pend.n)) {
		fail_line = line;
		siglongjmp(jb, 2);
	}
}
void vc_expect(int line, const void *p, sz n, sz v) noexcept {
	lines->insert(line);
	settle(line);
	pend = {line, static_cast<const char *>(p), n, v};
	expected.push_back({static_cast<const char *>(p) - m.data(), n, v});
}
void vc_expect_done(int line) noexcept {
	lines->insert(line);
	settle(line);
	std::vector<char> want(snap);
	for (auto &e : expected)
		if (e.off >= 0 && sz(e.off) + e.n <= want.size())
			std::memcpy(want.data() + e.off, &e.v, e.n);
	if (std::memcmp(want.data(), m.data(), want.size())) {
		fail_line = line;
		siglongjmp(jb, 2);
	}
	expected.clear();
}
sz vu_fun(int id, sz a, sz b, sz c) {
	sz h = 1469598103934665603ull ^ sz(id);
	for (sz x : {a, b, c})
		h = (h ^ x) * 1099511628211ull, h ^= h >> 29;
	return h % 1000003;
}
}

template<std::size_t... I>
static void call_n(void *f, const sz *a, std::index_sequence<I...>) {
	using F = void (*)(decltype((void)I, sz())...);
	reinterpret_cast<F>(f)(a[I]...);
}
static void call(void *f, int n, const sz *a) {
	switch (n) {
#define CS(k) case k: call_n(f, a, std::make_index_sequence<k>()); break;
		CS(0) CS(1) CS(2) CS(3) CS(4) CS(5) CS(6) CS(7) CS(8) CS(9) CS(10) CS(11) CS(12) CS(13) CS(14) CS(15) CS(16)
	}
}
static void onsig(int s) { siglongjmp(jb, s == SIGALRM || s == SIGVTALRM ? 4 : 3); }

// 0 ok, 1 precondition not met, 2 postcondition failed, 3 crash, 4 no termination within the limit
static int once(entry &e, const sz *a, double limit) {
	vc_restore();
	zt.clear(); run_hits = 0;
	std::memset(ghost, 0, sizeof ghost);
	fail_line = 0;
	struct itimerval it = {{0, 0}, {long(limit), long((limit - long(limit)) * 1e6)}};
	int r = sigsetjmp(jb, 1);
	if (r == 0) {
		setitimer(ITIMER_VIRTUAL, &it, nullptr);
		call(e.fn, e.nargs, a);
	}
	struct itimerval z = {{0, 0}, {0, 0}};
	setitimer(ITIMER_VIRTUAL, &z, nullptr);
	return r;
}
static std::uint64_t rs;
static std::uint64_t rnd() {
	rs ^= rs << 13, rs ^= rs >> 7, rs ^= rs << 17;
	return rs;
}
static sz pick(int mode) {
	switch (mode) {
		case 0: return rnd() % 4;
		case 1: return rnd() % 8;
		case 2: return rnd() % 24;
		case 3: return rnd() % 200;
		case 4: return (sz(1) << (rnd() % 20)) + rnd() % 3 - 1;
		default:
			switch (rnd() % 8) {
				case 0: return (sz(1) << (rnd() % 64)) + rnd() % 5 - 2;
				case 1: return ~sz(0) - rnd() % 5;
				case 2: return rnd() >> (rnd() % 64);
				default: return rnd() % 8;
			}
	}
}
int main(int argc, char **argv) {
	for (int s : {SIGFPE, SIGSEGV, SIGILL, SIGBUS, SIGABRT, SIGTRAP, SIGVTALRM}) {
		struct sigaction sa;
		std::memset(&sa, 0, sizeof sa);
		sa.sa_handler = onsig;
		sa.sa_flags = SA_NODEFER;
		sigaction(s, &sa, nullptr);
	}
	lines = new std::set<int>;
	std::string cmd = argc > 1 ? argv[1] : "";
	entry *e = nullptr;
	if (argc > 2)
		for (entry *p = vc_table; p->name; ++p)
			if (!std::strcmp(p->name, argv[2]))
				e = p;
	if (!e)
		return 9;
	if (cmd == "run") {
		sz a[20] = {};
		for (int i = 0; i < e->nargs; ++i)
			a[i] = std::strtoull(argv[3 + i], nullptr, 10);
		int r = once(*e, a, 5);
		static const char *nm[] = {"holds", "precondition-not-met", "postcondition-violated", "crash", "does-not-terminate"};
		std::printf("%s line=%d\n", nm[r], fail_line);
		return r == 0 ? 0 : r == 1 ? 77 : 1;
	}
	if (cmd == "search") {
		rs = std::strtoull(argv[3], nullptr, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
		long count = std::atol(argv[4]);
		int big = std::atoi(argv[5]);
		double budget = std::atof(argv[6]);
		long ok = 0, pre = 0, best = -1;
		std::vector<std::array<sz, 20>> pool;
		timeval t0, t1;
		gettimeofday(&t0, nullptr);
		for (long i = 0; i < count || (!ok && i < 20 * count); ++i) {
			sz a[20] = {};
			int mode = big ? int(rnd() % 6) : int(rnd() % 3);
			if (pool.empty() || e->nargs == 0 || rnd() % 2) {
				for (int k = 0; k < e->nargs; ++k)
					a[k] = (rnd() % 6 == 0) ? pick(0) : pick(mode);
			} else {
				// vary an input that came further through the preconditions than others
				std::memcpy(a, pool[rnd() % pool.size()].data(), sizeof a);
				for (int c = 1 + int(rnd() % 3); c; --c) {
					sz &x = a[rnd() % e->nargs], y = a[rnd() % e->nargs];
					switch (rnd() % 8) {
						case 0: x = pick(0); break;
						case 1: case 2: x = pick(mode); break;
						case 3: x = y + rnd() % 3 - 1; break;
						case 4: x = x + rnd() % 3 - 1; break;
						case 5: x = rnd() % 2 ? x * 2 : x / 2; break;
						case 6: x = y * a[rnd() % e->nargs] + rnd() % 3 - 1; break;
						default: x = y + a[rnd() % e->nargs]; break;
					}
					if (!big && x > 64)
						x = x % 64;
				}
			}
			progress = 0;
			int r = once(*e, a, 2);
			if (r <= 1) {
				const long reached = r == 0 ? 1 << 30 : progress;
				if (reached > best)
					pool.clear(), best = reached;
				if (reached == best) {
					std::array<sz, 20> v;
					std::memcpy(v.data(), a, sizeof a);
					if (pool.size() < 64)
						pool.push_back(v);
					else if (rnd() % 4 == 0)
						pool[rnd() % pool.size()] = v;
				}
			}
			if (r == 0)
				++ok;
			else if (r == 1)
				++pre;
			else {
				std::printf("FAIL kind=%d line=%d args=", r, fail_line);
				for (int k = 0; k < e->nargs; ++k)
					std::printf("%s%zu", k ? "," : "", a[k]);
				std::printf("\n");
				break;
			}
			if ((i & 63) == 0) {
				gettimeofday(&t1, nullptr);
				const double used = double(t1.tv_sec - t0.tv_sec) + double(t1.tv_usec - t0.tv_usec) * 1e-6;
				if (used > budget && (ok || used > budget + 14))
					break;
			}
		}
		std::printf("STATS ok=%ld pre=%ld hits=%ld lines=", ok, pre, hits);
		for (int l : *lines)
			std::printf("%d,", l);
		std::printf("\n");
		return 0;
	}
	return 9;
}
