#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

const char* const io_kind_name[K_NKINDS] = {
        "open-read", "open-write", "read", "write", "close", "mkstemp", "fdopen", "rename",
        "remove", "chmod", "access", "stat", "mmap", "munmap", "opendir", "readdir",
        "realpath", "stdin-read", "stdout-write", "seek"};
const char* const fault_kind_name[F_NKINDS] = {
        "io-error", "disk-full", "short-transfer", "crash-before-op", "crash-after-op",
        "torn-write-crash", "alloc-failure", "signal", "kill", "thread-create-failure"};
const char* const verdict_name[] = {"none", "deadlock", "livelock", "hang", "sync-misuse", "escape"};

uint64_t mix(uint64_t a, uint64_t b)
{
	Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull));
	r.next();
	return r.next();
}

Shm* shm;
void init_shm()
{
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(3);
	}
	shm = (Shm*)p;
}

// ---------------------------------------------------------------- state
enum TState { RUNNABLE, B_MUTEX, B_COND, B_JOIN, SLEEPING, DONE };
static const char* const tstate_name[] = {"runnable", "waiting for a mutex", "waiting on a condition",
                                          "joining", "stalled", "done"};
struct Thr {
	int id;
	pthread_t real{};
	std::atomic<int> baton{0};
	TState st = RUNNABLE;
	const void* obj = nullptr;
	int joinee = -1;
	uint64_t wake_ev = 0;
	uint64_t prio = 0;
	void* ret = nullptr;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	bool joined = false;
	std::atomic<int> rel{0};
};
struct Mtx {
	int owner = -1;
};
struct Cnd {
	std::vector<int> waiters;
};

struct State {
	bool on = false, mt = false;
	Cfg c;
	Rng srng{1}, iorng{1};
	std::vector<Thr*> thr;
	int cur = 0;
	uint64_t ev = 0, next_shared = ~0ull, next_any = ~0ull, next_special = ~0ull, shared = 0;
	uint64_t slice_end = 0;
	std::unordered_map<const void*, Mtx> mtx;
	std::unordered_map<const void*, Cnd> cnd;
	uint64_t hash = 1469598103934665603ull, ilv = 1469598103934665603ull;
	size_t rpos = 0; // replay cursor
	uint64_t io = 0, alloc = 0, tcreate = 0;
	bool full = false;
	int full_errno = 0;
	int out_full = 0;
	unsigned tmpseq = 0;
	std::vector<Fault> evf; // event-placed faults, sorted
	size_t evp = 0;
	int sig_hold = 0, sig_held = 0;
	bool in_handler = false;
	int streams = 0;
	std::map<void*, size_t> maps;
	size_t stdin_pos = 0;
};
static State S;
bool on() { return S.on; }
uint64_t cur_ev() { return S.ev; }

static inline void hmix(uint64_t v)
{
	S.hash = (S.hash ^ v) * 1099511628211ull;
}
static inline void imix(uint64_t v)
{
	S.ilv = (S.ilv ^ v) * 1099511628211ull;
}

static void totals()
{
	shm->ev = S.ev;
	shm->hash = S.hash;
	shm->ilv_hash = S.ilv;
	shm->io_ops = S.io;
	shm->allocs = S.alloc;
	shm->shared_ev = S.shared;
	shm->threads = S.thr.size();
	shm->leaked_streams = S.streams;
}
void finish()
{
	S.on = false;
	S.mt = false;
	totals();
}
[[noreturn]] void leave(int phase, int code)
{
	S.on = false;
	totals();
	shm->exit_code = code;
	shm->phase = phase;
	_exit(code);
}
[[noreturn]] static void verdict(int v, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(shm->vmsg, sizeof(shm->vmsg), fmt, ap);
	va_end(ap);
	shm->verdict = v;
	leave(P_RUN, 88);
}

// ---------------------------------------------------------------- threads
static void futex_wait(std::atomic<int>* a, int v)
{
	int e = errno; // what the code under test keeps there
	syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
	errno = e;
}
static void futex_wake(std::atomic<int>* a)
{
	int e = errno;
	syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	errno = e;
}
static void baton_wait(Thr* t)
{
	while (t->baton.load(std::memory_order_acquire) == 0) {
		futex_wait(&t->baton, 0);
	}
	t->baton.store(0, std::memory_order_relaxed);
}
static void baton_give(Thr* t)
{
	t->baton.store(1, std::memory_order_release);
	futex_wake(&t->baton);
}

static void record(uint8_t type, uint32_t val)
{
	if (shm->ndec < NDEC) {
		Dec& d = shm->dec[shm->ndec++];
		d.ev = S.ev;
		d.type = type;
		d.val = val;
	}
}
// replay: is there a decision of this type at this event?
static bool replayed(uint8_t type, uint32_t& val)
{
	while (S.rpos < S.c.dec.size() && S.c.dec[S.rpos].ev < S.ev) {
		++S.rpos;
	}
	for (size_t i = S.rpos; i < S.c.dec.size() && S.c.dec[i].ev == S.ev; ++i) {
		if (S.c.dec[i].type == type) {
			val = S.c.dec[i].val;
			return true;
		}
	}
	return false;
}

static uint64_t gap(uint32_t mean)
{
	// geometric-like, at least 1
	return 1 + S.srng.below(2 * (uint64_t)mean);
}
static void arm_replay()
{
	// next preemption/sleep decision in the list at an access event
	size_t i = S.rpos;
	while (i < S.c.dec.size() && (S.c.dec[i].ev <= S.ev || (S.c.dec[i].type != D_PREEMPT && S.c.dec[i].type != D_SLEEP))) {
		++i;
	}
	S.next_any = i < S.c.dec.size() ? S.c.dec[i].ev : ~0ull;
}
static void new_slice()
{
	// not a fixed length: a spinning thread must not always be stopped at the same
	// place, for instance while it holds the lock the others need
	uint64_t h = (S.ev + 1) * 0x9E3779B97F4A7C15ull;
	S.slice_end = S.ev + S.c.sched.quantum + (h >> 40) % 211;
}
static void arm_special()
{
	uint64_t n = S.c.max_ev;
	if (S.evp < S.evf.size()) {
		n = std::min(n, S.evf[S.evp].at);
	}
	if (S.mt) {
		n = std::min(n, S.slice_end);
	}
	S.next_special = n;
}

static void wake_sleepers(bool force)
{
	Thr* best = nullptr;
	for (Thr* t : S.thr) {
		if (t->st == SLEEPING) {
			if (t->wake_ev <= S.ev) {
				t->st = RUNNABLE;
			} else if (best == nullptr || t->wake_ev < best->wake_ev) {
				best = t;
			}
		}
	}
	if (force && best) {
		best->st = RUNNABLE;
	}
}
static int runnable(std::vector<int>& v)
{
	v.clear();
	for (Thr* t : S.thr) {
		if (t->st == RUNNABLE) {
			v.push_back(t->id);
		}
	}
	return (int)v.size();
}
static std::string describe()
{
	std::string s;
	for (Thr* t : S.thr) {
		char b[128];
		snprintf(b, sizeof(b), "%s thread %d: %s", s.empty() ? "" : ";", t->id, tstate_name[t->st]);
		s += b;
	}
	return s;
}
static void do_switch(int to)
{
	if (to == S.cur) {
		return;
	}
	Thr* me = S.thr[S.cur];
	Thr* nx = S.thr[to];
	++shm->switches;
	hmix(S.ev * 64 + to);
	imix(S.shared * 64 + to);
	S.cur = to;
	new_slice();
	arm_special();
	baton_give(nx);
	if (me->st != DONE) {
		baton_wait(me);
	}
}
// the default successor when a thread gives way: round robin
static int default_next(const std::vector<int>& v)
{
	for (int id : v) {
		if (id > S.cur) {
			return id;
		}
	}
	return v[0];
}
static int top_prio(const std::vector<int>& v)
{
	int b = v[0];
	for (int id : v) {
		if (S.thr[id]->prio > S.thr[b]->prio) {
			b = id;
		}
	}
	return b;
}
static int policy_pick(const std::vector<int>& v)
{
	return S.c.sched.prio ? top_prio(v) : v[S.srng.below(v.size())];
}

// current thread cannot continue (state already set): pick another
static std::vector<int> scratch_v;
static void block_switch()
{
	wake_sleepers(false);
	if (!runnable(scratch_v)) {
		wake_sleepers(true);
		if (!runnable(scratch_v)) {
			verdict(V_DEADLOCK, "no thread can run:%s", describe().c_str());
		}
	}
	int d = default_next(scratch_v), n = d;
	uint32_t val;
	if (S.c.replay) {
		if (replayed(D_PICK, val) && val < S.thr.size() && S.thr[val]->st == RUNNABLE) {
			n = val;
		}
	} else {
		n = policy_pick(scratch_v);
	}
	if (n != d) {
		record(D_PICK, n);
	}
	if (n == S.cur) {
		return; // the thread itself became runnable again
	}
	do_switch(n);
}
// current thread may be preempted here
static void preempt_to(int n)
{
	++shm->preempts;
	record(D_PREEMPT, n);
	do_switch(n);
}
static void maybe_preempt(bool at_sync)
{
	wake_sleepers(false);
	uint32_t val;
	if (S.c.replay) {
		if (replayed(D_SLEEP, val)) {
			Thr* t = S.thr[S.cur];
			runnable(scratch_v);
			if (scratch_v.size() > 1) {
				t->st = SLEEPING;
				t->wake_ev = S.ev + val;
				record(D_SLEEP, val);
				++shm->sleeps;
				block_switch();
			}
		} else if (replayed(D_PREEMPT, val)) {
			if (val < S.thr.size() && S.thr[val]->st == RUNNABLE && (int)val != S.cur) {
				preempt_to(val);
			}
		}
		arm_replay();
		return;
	}
	SchedCfg& k = S.c.sched;
	if (at_sync && !(k.p_sync > 0 && S.srng.chance(k.p_sync))) {
		return;
	}
	if (runnable(scratch_v) < 2) {
		return;
	}
	if (k.p_sleep > 0 && S.srng.chance(k.p_sleep)) {
		uint32_t len = (uint32_t)(1 + S.srng.below(k.sleep_len));
		Thr* t = S.thr[S.cur];
		t->st = SLEEPING;
		t->wake_ev = S.ev + len;
		record(D_SLEEP, len);
		++shm->sleeps;
		block_switch();
		return;
	}
	if (k.prio) {
		if (!at_sync) {
			// priority change point
			S.thr[S.cur]->prio = (1ull << 32) + S.srng.below(1000);
		}
		int n = top_prio(scratch_v);
		if (n != S.cur) {
			preempt_to(n);
		}
		return;
	}
	int n = scratch_v[S.srng.below(scratch_v.size())];
	if (n != S.cur) {
		preempt_to(n);
	}
}

// ---------------------------------------------------------------- events
static void (*sig_handler[65])(int);
static void raise_in_sim(int signo);

static void special()
{
	if (S.ev >= S.c.max_ev) {
		if (S.mt) {
			verdict(V_LIVELOCK, "no completion within %llu steps;%s", (unsigned long long)S.c.max_ev,
			        describe().c_str());
		}
		verdict(V_HANG, "no completion within %llu steps", (unsigned long long)S.c.max_ev);
	}
	while (S.evp < S.evf.size() && S.evf[S.evp].at <= S.ev) {
		Fault f = S.evf[S.evp++];
		shm->fired[f.kind]++;
		shm->fired_at_ev = S.ev;
		if (f.kind == F_KILL_EV) {
			leave(P_KILLED, 137);
		}
		arm_special();
		raise_in_sim(f.arg);
	}
	if (S.mt && S.ev >= S.slice_end) {
		// fairness: nobody monopolises the processor (not recorded: part of the default)
		new_slice();
		wake_sleepers(false);
		if (runnable(scratch_v) > 1) {
			if (S.c.sched.prio && !S.c.replay) {
				uint64_t lo = ~0ull;
				for (Thr* t : S.thr) {
					lo = std::min(lo, t->prio);
				}
				S.thr[S.cur]->prio = lo ? lo - 1 : 0;
			}
			int n = default_next(scratch_v);
			arm_special();
			do_switch(n);
		}
	}
	arm_special();
}

// exact last-writer / last-toucher table, keyed by 8-byte granule
struct Gran {
	uintptr_t key;
	int16_t wr, any;
};
constexpr size_t NG = 1 << 15;
static Gran* gran;
static size_t gran_n;
static bool touch(uintptr_t a, bool w)
{
	a >>= 3;
	size_t h = (a * 0x9e3779b97f4a7c15ull) >> 40;
	int me = S.cur;
	for (;; ++h) {
		Gran& g = gran[h & (NG - 1)];
		if (g.key == a) {
			bool sh = w ? (g.any != me) : (g.wr >= 0 && g.wr != me);
			g.any = me;
			if (w) {
				g.wr = me;
			}
			return sh;
		}
		if (g.key == 0) {
			if (++gran_n > NG * 3 / 4) {
				memset(gran, 0, NG * sizeof(Gran));
				gran_n = 0;
				return false;
			}
			g.key = a;
			g.any = me;
			g.wr = w ? me : -1;
			return false;
		}
	}
}
static void slow_access()
{
	if (S.ev >= S.next_special) {
		special();
	}
}
static inline void access_hook(uintptr_t a, bool w)
{
	if (__builtin_expect(!S.on, 1)) {
		return;
	}
	++S.ev;
	if (__builtin_expect(S.ev >= S.next_special, 0)) {
		slow_access();
	}
	if (!S.mt) {
		return;
	}
	if (touch(a, w)) {
		++S.shared;
		if (S.shared >= S.next_shared) {
			S.next_shared = S.shared + gap(S.c.sched.gap_shared);
			maybe_preempt(false);
			return;
		}
	}
	if (__builtin_expect(S.ev >= S.next_any, 0)) {
		if (!S.c.replay) {
			S.next_any = S.ev + gap(S.c.sched.gap_any);
		}
		maybe_preempt(false);
	}
}
static void sync_point()
{
	++S.ev;
	++shm->syncops;
	if (S.ev >= S.next_special) {
		special();
	}
	maybe_preempt(true);
}

// ---------------------------------------------------------------- set up
static void cookie_stdio();
void begin(const Cfg& c)
{
	S.c = c;
	S.srng = Rng(mix(c.sched.seed, 17));
	S.iorng = Rng(mix(c.io_seed, 23));
	Thr* t = new Thr;
	t->id = 0;
	t->real = pthread_self();
	t->prio = (1ull << 32) + 500;
	S.thr.push_back(t);
	for (auto& f : S.c.faults) {
		if ((f.kind == F_SIGNAL && !(f.arg & SIG_AT_OP)) || f.kind == F_KILL_EV) {
			S.evf.push_back(f);
		}
	}
	std::sort(S.evf.begin(), S.evf.end(), [](const Fault& a, const Fault& b) { return a.at < b.at; });
	gran = (Gran*)calloc(NG, sizeof(Gran));
	arm_special();
	cookie_stdio();
	S.on = true;
	shm->phase = P_RUN;
}
static void start_mt()
{
	if (S.mt || !S.c.sched.mt) {
		return;
	}
	S.mt = true;
	new_slice();
	if (S.c.replay) {
		arm_replay();
	} else {
		S.next_shared = S.c.sched.gap_shared ? S.shared + gap(S.c.sched.gap_shared) : ~0ull;
		S.next_any = S.c.sched.gap_any ? S.ev + gap(S.c.sched.gap_any) : ~0ull;
	}
	new_slice();
	arm_special();
}
static int count_fds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d) {
		return -1;
	}
	while (readdir(d)) {
		++n;
	}
	closedir(d);
	return n;
}
void act_begin(int i)
{
	bool o = S.on;
	S.on = false;
	ActRes& a = shm->act[i];
	a.started = 1;
	a.out_b = shm->out_len;
	a.txt_b = shm->txt_len;
	a.io_b = S.io;
	a.ev_b = S.ev;
	a.al_b = S.alloc;
	a.fds_before = count_fds();
	shm->nact = i + 1;
	S.on = o;
}
void act_end(int i, long ret, long rows)
{
	bool o = S.on;
	S.on = false;
	ActRes& a = shm->act[i];
	a.finished = 1;
	a.ret = ret;
	a.rows = rows;
	a.out_e = shm->out_len;
	a.txt_e = shm->txt_len;
	a.io_e = S.io;
	a.ev_e = S.ev;
	a.al_e = S.alloc;
	a.fds_after = count_fds();
	int left = 0;
	for (Thr* t : S.thr) {
		left += t->id && !t->joined;
	}
	a.threads_left = left;
	S.on = o;
}
void emit_text(const char* s, size_t n)
{
	if (shm->txt_len + n <= TXT_MAX) {
		memcpy(shm->txt + shm->txt_len, s, n);
		shm->txt_len += n;
	}
}

// ---------------------------------------------------------------- I/O faults
struct IoDec {
	int err = 0;       // fail with this errno
	int permille = -1; // transfer only this share
	int crash_after = 0;
	int sig = 0; // signal to deliver once the operation is done
};
static bool space_kind(IoKind k)
{
	return k == K_OPENW || k == K_WRITE || k == K_MKSTEMP;
}
static IoDec io_op(IoKind k)
{
	IoDec d;
	if (!S.on) {
		return d;
	}
	uint64_t n = S.io++;
	shm->io_cnt[k]++;
	if (n < NIO) {
		shm->io_kind[n] = k;
	}
	hmix(0x1000 + k);
	if (S.out_full && k == K_STDOUT) {
		d.err = S.out_full;
		shm->fired_io[F_STICKY][k]++;
		return d;
	}
	if (S.full && space_kind(k)) {
		d.err = S.full_errno;
		shm->fired_io[F_STICKY][k]++;
		return d;
	}
	for (auto& f : S.c.faults) {
		if (f.at != n) {
			continue;
		}
		switch (f.kind) {
		case F_ERR:
			if (k == K_MUNMAP) {
				break;
			}
			d.err = f.arg;
			break;
		case F_STICKY:
			if (k == K_STDOUT) {
				S.out_full = f.arg;
				d.err = f.arg;
				break;
			}
			S.full = true;
			S.full_errno = f.arg;
			if (!space_kind(k)) {
				shm->fired[F_STICKY]++;
				continue;
			}
			d.err = f.arg;
			break;
		case F_SHORT:
			if (k != K_WRITE && k != K_READ && k != K_STDIN && k != K_STDOUT) {
				continue;
			}
			d.permille = f.arg;
			break;
		case F_CRASH_BEFORE:
			shm->fired[f.kind]++;
			shm->fired_io[f.kind][k]++;
			leave(P_KILLED, 137);
		case F_CRASH_AFTER:
			d.crash_after = 1;
			break;
		case F_CRASH_PART:
			d.crash_after = 1;
			d.permille = f.arg;
			break;
		case F_SIGNAL:
			if (!(f.arg & SIG_AT_OP)) {
				continue;
			}
			shm->fired[f.kind]++;
			shm->fired_io[f.kind][k]++;
			shm->fired_at_ev = S.ev;
			if (f.arg & SIG_AFTER) {
				d.sig = f.arg & 0xff;
			} else {
				raise_in_sim(f.arg & 0xff);
			}
			continue;
		default:
			continue;
		}
		shm->fired[f.kind]++;
		shm->fired_io[f.kind][k]++;
		shm->fired_at_ev = S.ev;
	}
	return d;
}
static void io_done(const IoDec& d)
{
	if (d.sig) {
		raise_in_sim(d.sig);
	}
	if (d.crash_after) {
		int e = errno;
		leave(P_KILLED, 137);
		errno = e;
	}
}

static bool contained(const char* path)
{
	if (!S.on) {
		return true;
	}
	std::string p = path;
	bool bad = p.find("..") != std::string::npos;
	if (!p.empty() && p[0] == '/') {
		bad |= p.compare(0, S.c.root.size() + 1, S.c.root + "/") != 0;
	}
	if (bad) {
		shm->escapes++;
		snprintf(shm->vmsg, sizeof(shm->vmsg), "attempt to modify %s outside the scratch directory", path);
	}
	return !bad;
}

// ---------------------------------------------------------------- streams
struct Cookie {
	int fd;
	int kind; // 0 file, 1 stdin, 2 stdout
};
static ssize_t ck_read(void* c, char* buf, size_t n)
{
	Cookie* k = (Cookie*)c;
	IoDec d = io_op(k->kind == 1 ? K_STDIN : K_READ);
	if (d.err) {
		errno = d.err;
		io_done(d);
		return -1;
	}
	size_t want = n;
	if (d.permille >= 0) {
		want = std::max<size_t>(1, n * d.permille / 1000);
	}
	if (k->kind == 1) {
		int ch = S.c.stdin_chunk;
		if (ch > 0) {
			want = std::min<size_t>(want, ch);
		} else if (ch < 0) {
			want = std::min<size_t>(want, 1 + S.iorng.below(-ch));
		}
		size_t left = S.c.stdin_data.size() - S.stdin_pos;
		want = std::min(want, left);
		memcpy(buf, S.c.stdin_data.data() + S.stdin_pos, want);
		S.stdin_pos += want;
		io_done(d);
		return want;
	}
	ssize_t r = read(k->fd, buf, want);
	io_done(d);
	return r;
}
static ssize_t ck_write(void* c, const char* buf, size_t n)
{
	Cookie* k = (Cookie*)c;
	IoDec d = io_op(k->kind == 2 ? K_STDOUT : K_WRITE);
	if (d.err) {
		if (k->kind == 2) {
			shm->out_error = 1;
		}
		errno = d.err;
		io_done(d);
		return 0; // fopencookie: 0 means error
	}
	size_t done = 0;
	size_t want = n;
	if (d.permille >= 0) {
		want = n * d.permille / 1000;
	}
	// glibc's write loop retries short writes, so a bare short count is legal
	while (done < want) {
		ssize_t r;
		if (k->kind == 2) {
			r = std::min<size_t>(want - done, OUT_MAX - shm->out_len);
			memcpy(shm->out + shm->out_len, buf + done, r);
			shm->out_len += r;
			if (r == 0) {
				break;
			}
		} else {
			r = write(k->fd, buf + done, want - done);
			if (r < 0) {
				return 0;
			}
		}
		done += r;
	}
	io_done(d);
	if (done == 0 && n > 0) {
		done = 0;
		if (d.permille >= 0) {
			// a short write of nothing: transfer a single byte instead (0 would be an error)
			if (k->kind == 2) {
				shm->out[shm->out_len++] = buf[0];
				return 1;
			}
			return write(k->fd, buf, 1);
		}
	}
	return done;
}
static int ck_seek(void* c, off64_t* off, int whence)
{
	Cookie* k = (Cookie*)c;
	if (k->kind) {
		errno = ESPIPE;
		return -1;
	}
	off64_t r = lseek64(k->fd, *off, whence);
	if (r < 0) {
		return -1;
	}
	*off = r;
	return 0;
}
static int ck_close(void* c)
{
	Cookie* k = (Cookie*)c;
	IoDec d = io_op(K_CLOSE);
	if (k->kind == 0) {
		close(k->fd);
		--S.streams;
	}
	delete k;
	io_done(d);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	return 0;
}
static void set_buf(FILE* f)
{
	static const int sz[] = {0, 16, 64, 256, 512, 1024, 4096};
	int m = S.c.buf_mode;
	if (m < 0) {
		m = sz[S.iorng.below(7)];
	}
	if (m > 0) {
		setvbuf(f, nullptr, _IOFBF, m);
	}
}
static FILE* wrap(int fd, int kind, const char* mode)
{
	Cookie* c = new Cookie{fd, kind};
	cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
	FILE* f = fopencookie(c, mode, fn);
	if (kind == 0) {
		++S.streams;
	}
	set_buf(f);
	return f;
}
static void cookie_stdio()
{
	stdin = wrap(-1, 1, "r");
	stdout = wrap(-1, 2, "w");
}
static int open_flags(const char* mode)
{
	int plus = strchr(mode, '+') != nullptr;
	switch (mode[0]) {
	case 'r':
		return plus ? O_RDWR : O_RDONLY;
	case 'w':
		return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | (strchr(mode, 'x') ? O_EXCL : 0);
	default:
		return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	}
}

// ---------------------------------------------------------------- signals
static void raise_in_sim(int signo)
{
	void (*h)(int) = sig_handler[signo];
	if (h == SIG_IGN) {
		return;
	}
	if (h == nullptr || h == SIG_DFL) {
		leave(P_KILLED, 128 + signo);
	}
	if (S.in_handler) {
		return; // blocked while its handler runs
	}
	if (S.sig_hold > 0) { // inside the stand-in library
		S.sig_held = signo;
		return;
	}
	S.in_handler = true;
	int e = errno;
	h(signo);
	errno = e;
	S.in_handler = false;
}

// read-only environment for child threads
static void thread_finish(Thr*);
static void* trampoline(void* p)
{
	Thr* t = (Thr*)p;
	baton_wait(t);
	t->ret = t->fn(t->arg);
	// thread function returned: same as pthread_exit
	thread_finish(t);
	return t->ret;
}
static void thread_finish(Thr* t)
{
	++S.ev;
	++shm->syncops;
	t->st = DONE;
	for (Thr* o : S.thr) {
		if (o->st == B_JOIN && o->joinee == t->id) {
			o->st = RUNNABLE;
		}
	}
	// give the processor away; the real thread lingers until it is joined so that
	// its teardown happens at a decided point
	wake_sleepers(false);
	block_switch();
	while (t->rel.load() == 0) {
		futex_wait(&t->rel, 0);
	}
}
static Thr* find(pthread_t p)
{
	for (size_t i = S.thr.size(); i-- > 0;) {
		if (!S.thr[i]->joined && pthread_equal(S.thr[i]->real, p)) {
			return S.thr[i];
		}
	}
	return nullptr;
}
static void reap(Thr* t)
{
	t->rel.store(1);
	futex_wake(&t->rel);
	pthread_join(t->real, nullptr);
	t->joined = true;
}

} // namespace sim

using namespace sim;

// ================================================================ seams
extern "C" {

#define HOOK(N) \
	void __sanitizer_cov_load##N(void* a) { access_hook((uintptr_t)a, false); } \
	void __sanitizer_cov_store##N(void* a) { access_hook((uintptr_t)a, true); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)

static uint32_t n_edges;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e)
{
	if (b == e || *b) {
		return;
	}
	for (; b < e; ++b) {
		*b = ++n_edges;
	}
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
	if (S.on && *g < NEDGE) {
		shm->edge[*g] = 1;
	}
}
uint32_t sim_edge_total() { return n_edges; }

// ---- threads
int sim_pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (!S.on) {
		return pthread_create(out, attr, fn, arg);
	}
	uint64_t n = S.tcreate++;
	for (auto& f : S.c.faults) {
		if (f.kind == F_THREAD && f.at == n) {
			shm->fired[F_THREAD]++;
			return EAGAIN;
		}
	}
	start_mt();
	Thr* t = new Thr;
	t->id = (int)S.thr.size();
	t->fn = fn;
	t->arg = arg;
	t->prio = S.c.replay ? 0 : (1ull << 32) + S.srng.below(1000);
	if (t->id >= 4000) {
		return EAGAIN;
	}
	int r = pthread_create(&t->real, attr, trampoline, t);
	if (r) {
		delete t;
		return r;
	}
	++shm->thr_created;
	*out = t->real;
	S.thr.push_back(t);
	sync_point();
	return 0;
}
void sim_pthread_exit(void* ret)
{
	if (!S.on || S.cur == 0) {
		pthread_exit(ret);
	}
	Thr* t = S.thr[S.cur];
	t->ret = ret;
	thread_finish(t);
	pthread_exit(ret);
}
int sim_pthread_join(pthread_t p, void** ret)
{
	if (!S.on) {
		return pthread_join(p, ret);
	}
	sync_point();
	Thr* t = find(p);
	if (!t) {
		return ESRCH;
	}
	if (t->st != DONE) {
		Thr* me = S.thr[S.cur];
		me->st = B_JOIN;
		me->joinee = t->id;
		block_switch();
	}
	if (ret) {
		*ret = t->ret;
	}
	reap(t);
	return 0;
}
int sim_pthread_tryjoin_np(pthread_t p, void** ret)
{
	if (!S.on) {
		return pthread_tryjoin_np(p, ret);
	}
	sync_point();
	Thr* t = find(p);
	if (!t) {
		return ESRCH;
	}
	if (t->st != DONE) {
		return EBUSY;
	}
	if (ret) {
		*ret = t->ret;
	}
	reap(t);
	return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	if (!S.on) {
		return pthread_mutex_init(m, a);
	}
	memset(m, 0, sizeof(*m));
	S.mtx.erase(m);
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (!S.on) {
		return pthread_mutex_destroy(m);
	}
	auto it = S.mtx.find(m);
	if (it != S.mtx.end()) {
		if (it->second.owner >= 0) {
			verdict(V_MISUSE, "a locked mutex is destroyed");
		}
		S.mtx.erase(it);
	}
	return 0;
}
static void lock_mtx(const void* m)
{
	for (;;) {
		Mtx& x = S.mtx[m];
		if (x.owner < 0) {
			x.owner = S.cur;
			return;
		}
		Thr* me = S.thr[S.cur];
		me->st = B_MUTEX;
		me->obj = m;
		block_switch();
	}
}
static void unlock_mtx(const void* m)
{
	Mtx& x = S.mtx[m];
	if (x.owner != S.cur) {
		verdict(V_MISUSE, "thread %d unlocks a mutex owned by %d", S.cur, x.owner);
	}
	x.owner = -1;
	for (Thr* t : S.thr) {
		if (t->st == B_MUTEX && t->obj == m) {
			t->st = RUNNABLE;
		}
	}
}
int sim_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!S.on) {
		return pthread_mutex_lock(m);
	}
	sync_point();
	lock_mtx(m);
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!S.on) {
		return pthread_mutex_trylock(m);
	}
	sync_point();
	Mtx& x = S.mtx[m];
	if (x.owner >= 0) {
		return EBUSY;
	}
	x.owner = S.cur;
	return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!S.on) {
		return pthread_mutex_unlock(m);
	}
	unlock_mtx(m);
	sync_point();
	return 0;
}
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	if (!S.on) {
		return pthread_cond_init(c, a);
	}
	memset(c, 0, sizeof(*c));
	S.cnd.erase(c);
	return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c)
{
	if (!S.on) {
		return pthread_cond_destroy(c);
	}
	auto it = S.cnd.find(c);
	if (it != S.cnd.end()) {
		if (!it->second.waiters.empty()) {
			verdict(V_MISUSE, "a condition with waiters is destroyed");
		}
		S.cnd.erase(it);
	}
	return 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!S.on) {
		return pthread_cond_wait(c, m);
	}
	sync_point();
	unlock_mtx(m);
	bool spurious = false;
	uint32_t val;
	if (S.c.replay) {
		spurious = replayed(D_SPURIOUS, val);
	} else {
		spurious = S.c.sched.p_spurious > 0 && S.srng.chance(S.c.sched.p_spurious);
	}
	if (spurious) {
		record(D_SPURIOUS, 0);
		++shm->spurious;
		++S.ev;
		// let somebody else run in between when possible
		wake_sleepers(false);
		maybe_preempt(true);
	} else {
		S.cnd[c].waiters.push_back(S.cur);
		Thr* me = S.thr[S.cur];
		me->st = B_COND;
		me->obj = c;
		block_switch();
	}
	lock_mtx(m);
	return 0;
}
static void wake_cond(pthread_cond_t* c, bool all)
{
	sync_point();
	auto it = S.cnd.find(c);
	if (it == S.cnd.end()) {
		return;
	}
	auto& w = it->second.waiters;
	while (!w.empty()) {
		size_t i = 0;
		uint32_t val;
		if (!all && w.size() > 1) {
			if (S.c.replay) {
				if (replayed(D_SIGNALEE, val) && val < w.size()) {
					i = val;
				}
			} else if (S.c.sched.rand_signalee) {
				i = S.srng.below(w.size());
			}
			if (i) {
				record(D_SIGNALEE, i);
			}
		}
		Thr* t = S.thr[w[i]];
		w.erase(w.begin() + i);
		t->st = RUNNABLE;
		if (!all) {
			return;
		}
	}
}
int sim_pthread_cond_signal(pthread_cond_t* c)
{
	if (!S.on) {
		return pthread_cond_signal(c);
	}
	wake_cond(c, false);
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!S.on) {
		return pthread_cond_broadcast(c);
	}
	wake_cond(c, true);
	return 0;
}
int sim_sched_yield(void)
{
	if (!S.on) {
		return sched_yield();
	}
	sync_point();
	return 0;
}
int sim_usleep(unsigned us)
{
	if (!S.on) {
		return usleep(us);
	}
	++S.ev;
	shm->sim_us += us;
	if (S.mt) {
		Thr* t = S.thr[S.cur];
		t->st = SLEEPING;
		t->wake_ev = S.ev + us;
		block_switch();
	}
	return 0;
}
int sim_nanosleep(const struct timespec* a, struct timespec*)
{
	if (!S.on) {
		return nanosleep(a, nullptr);
	}
	return sim_usleep(a->tv_sec * 1000000 + a->tv_nsec / 1000 + 1);
}
long sim_sysconf(int n)
{
	if (S.on && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) {
		return S.c.nproc;
	}
	return sysconf(n);
}
int sim_rand(void)
{
	return S.on ? (int)(S.iorng.next() & 0x7fffffff) : rand();
}
long sim_random(void)
{
	return S.on ? (long)(S.iorng.next() & 0x7fffffff) : random();
}
void sim_srand(unsigned) {}
time_t sim_time(time_t* t)
{
	time_t v = 1700000000 + (S.ev >> 20);
	if (t) {
		*t = v;
	}
	return v;
}

// ---- process
static std::vector<void (*)(void)>* at_exit_fns;
void sim_signal_hold(int d)
{
	S.sig_hold += d;
	if (S.sig_hold == 0 && S.sig_held) {
		int n = S.sig_held;
		S.sig_held = 0;
		raise_in_sim(n);
	}
}
int sim_atexit(void (*f)(void))
{
	if (!at_exit_fns) {
		at_exit_fns = new std::vector<void (*)(void)>;
	}
	at_exit_fns->push_back(f);
	return 0;
}
void sim_exit(int code)
{
	if (S.on) {
		while (at_exit_fns && !at_exit_fns->empty()) {
			auto f = at_exit_fns->back();
			at_exit_fns->pop_back();
			f();
		}
		// as exit(3): flush what the streams hold, run handlers
		fflush(nullptr);
		S.on = false;
		totals();
		shm->exit_code = code;
		shm->phase = P_EXIT;
		_exit(code & 255);
	}
	exit(code);
}
void sim__exit(int code)
{
	if (S.on) {
		leave(P_EXIT, code & 255);
	}
	_exit(code);
}
void sim_abort(void)
{
	if (S.on) {
		totals();
		snprintf(shm->vmsg, sizeof(shm->vmsg), "abort() called");
	}
	abort();
}
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* old)
{
	if (s < 1 || s > 64) {
		errno = EINVAL;
		return -1;
	}
	if (old) {
		memset(old, 0, sizeof(*old));
		old->sa_handler = sig_handler[s];
	}
	if (a) {
		sig_handler[s] = a->sa_handler;
	}
	return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int)
{
	void (*o)(int) = sig_handler[s];
	sig_handler[s] = h;
	return o;
}
int sim_raise(int s)
{
	raise_in_sim(s);
	return 0;
}

// ---- memory
static bool alloc_fails()
{
	if (!S.on) {
		return false;
	}
	uint64_t n = S.alloc++;
	for (auto& f : S.c.faults) {
		if (f.kind == F_ALLOC && f.at == n) {
			shm->fired[F_ALLOC]++;
			shm->fired_at_ev = S.ev;
			errno = ENOMEM;
			return true;
		}
	}
	return false;
}
void* sim_malloc(size_t n) { return alloc_fails() ? nullptr : malloc(n); }
void* sim_calloc(size_t a, size_t b) { return alloc_fails() ? nullptr : calloc(a, b); }
void* sim_realloc(void* p, size_t n) { return alloc_fails() ? nullptr : realloc(p, n); }
char* sim_strdup(const char* s) { return alloc_fails() ? nullptr : strdup(s); }
char* sim_strndup(const char* s, size_t n) { return alloc_fails() ? nullptr : strndup(s, n); }

// ---- files
int sim_open(const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
	va_end(ap);
	bool w = (flags & O_ACCMODE) != O_RDONLY;
	IoDec d = io_op(w ? K_OPENW : K_OPENR);
	if (d.err || (w && !contained(path))) {
		errno = d.err ? d.err : EACCES;
		return -1;
	}
	int r = open(path, flags, mode);
	int e = errno;
	io_done(d);
	errno = e;
	return r;
}
FILE* sim_fopen(const char* path, const char* mode)
{
	if (!S.on) {
		return fopen(path, mode);
	}
	int fl = open_flags(mode);
	bool w = fl != O_RDONLY;
	IoDec d = io_op(w ? K_OPENW : K_OPENR);
	if (d.err || (w && !contained(path))) {
		errno = d.err ? d.err : EACCES;
		return nullptr;
	}
	int fd = open(path, fl, 0666);
	int e = errno;
	io_done(d);
	if (fd < 0) {
		errno = e;
		return nullptr;
	}
	struct stat sb;
	if (fstat(fd, &sb) == 0 && S_ISDIR(sb.st_mode) && w) {
		close(fd);
		errno = EISDIR;
		return nullptr;
	}
	return wrap(fd, 0, mode);
}
FILE* sim_fdopen(int fd, const char* mode)
{
	if (!S.on) {
		return fdopen(fd, mode);
	}
	IoDec d = io_op(K_FDOPEN);
	if (d.err) {
		errno = d.err;
		return nullptr;
	}
	if (fcntl(fd, F_GETFL) < 0) {
		errno = EBADF;
		return nullptr;
	}
	io_done(d);
	return wrap(fd, 0, mode);
}
int sim_close(int fd)
{
	IoDec d = io_op(K_CLOSE);
	int r = close(fd);
	io_done(d);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	return r;
}
ssize_t sim_write(int fd, const void* b, size_t n)
{
	IoDec d = io_op(K_WRITE);
	if (d.err) {
		errno = d.err;
		io_done(d);
		return -1;
	}
	if (d.permille >= 0) {
		n = std::max<size_t>(n ? 1 : 0, n * d.permille / 1000);
	}
	ssize_t r = write(fd, b, n);
	io_done(d);
	return r;
}
ssize_t sim_read(int fd, void* b, size_t n)
{
	IoDec d = io_op(K_READ);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	return read(fd, b, n);
}
int sim_mkstemp(char* tmpl)
{
	if (!S.on) {
		return mkstemp(tmpl);
	}
	IoDec d = io_op(K_MKSTEMP);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	size_t n = strlen(tmpl);
	if (n < 6 || strcmp(tmpl + n - 6, "XXXXXX")) {
		errno = EINVAL;
		return -1;
	}
	if (!contained(tmpl)) {
		errno = EACCES;
		return -1;
	}
	for (;;) {
		char b[16];
		snprintf(b, sizeof(b), "%06u", S.tmpseq++ % 1000000);
		memcpy(tmpl + n - 6, b, 6);
		int fd = open(tmpl, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd >= 0 || errno != EEXIST) {
			int e = errno;
			io_done(d);
			errno = e;
			return fd;
		}
	}
}
static int path_op(IoKind k, const char* p, const char* q, int (*f)(const char*, const char*))
{
	IoDec d = io_op(k);
	if (d.err || !contained(p) || (q && !contained(q))) {
		errno = d.err ? d.err : EACCES;
		return -1;
	}
	int r = f(p, q);
	int e = errno;
	io_done(d);
	errno = e;
	return r;
}
int sim_rename(const char* a, const char* b)
{
	return path_op(K_RENAME, a, b, [](const char* x, const char* y) { return rename(x, y); });
}
int sim_remove(const char* a)
{
	return path_op(K_REMOVE, a, nullptr, [](const char* x, const char*) { return remove(x); });
}
int sim_unlink(const char* a)
{
	return path_op(K_REMOVE, a, nullptr, [](const char* x, const char*) { return unlink(x); });
}
static int chmod_mode;
int sim_chmod(const char* a, mode_t m)
{
	chmod_mode = m;
	return path_op(K_CHMOD, a, nullptr, [](const char* x, const char*) { return chmod(x, chmod_mode); });
}
int sim_truncate(const char* a, off_t n)
{
	static off_t len;
	len = n;
	return path_op(K_WRITE, a, nullptr, [](const char* x, const char*) { return truncate(x, len); });
}
int sim_access(const char* p, int m)
{
	IoDec d = io_op(K_ACCESS);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	int r = access(p, m);
	io_done(d);
	return r;
}
int sim_stat(const char* p, struct stat* sb)
{
	IoDec d = io_op(K_STAT);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	return stat(p, sb);
}
int sim_fstat(int fd, struct stat* sb)
{
	IoDec d = io_op(K_STAT);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	return fstat(fd, sb);
}
void* sim_mmap(void* a, size_t n, int p, int fl, int fd, off_t o)
{
	IoDec d = io_op(K_MMAP);
	if (d.err) {
		errno = d.err;
		return MAP_FAILED;
	}
	// a copy of just that size, so that reading past the end of the file shows
	if (a || p != PROT_READ || !n) {
		return mmap(a, n, p, fl, fd, o);
	}
	char* m = new char[n];
	size_t got = 0;
	for (ssize_t k = 1; k > 0 && got < n; got += k) {
		k = pread(fd, m + got, n - got, o + (off_t)got);
		k = k < 0 ? 0 : k;
	}
	memset(m + got, 0, n - got);
	S.maps[m] = n;
	++S.streams;
	return m;
}
int sim_munmap(void* a, size_t n)
{
	io_op(K_MUNMAP);
	auto it = S.maps.find(a);
	if (it == S.maps.end()) {
		return munmap(a, n);
	}
	S.maps.erase(it);
	--S.streams;
	delete[] (char*)a;
	return 0;
}
char* sim_realpath(const char* p, char* out)
{
	IoDec d = io_op(K_REALPATH);
	if (d.err) {
		errno = d.err;
		return nullptr;
	}
	return realpath(p, out);
}
int sim_isatty(int fd)
{
	if (S.on && fd == 0) {
		return S.c.stdin_tty;
	}
	return isatty(fd);
}

struct SimDir {
	std::vector<dirent> e;
	size_t i = 0;
};
DIR* sim_opendir(const char* p)
{
	IoDec d = io_op(K_OPENDIR);
	if (d.err) {
		errno = d.err;
		return nullptr;
	}
	DIR* r = opendir(p);
	if (!r) {
		return nullptr;
	}
	SimDir* s = new SimDir;
	while (dirent* x = readdir(r)) {
		s->e.push_back(*x);
	}
	closedir(r);
	std::sort(s->e.begin(), s->e.end(),
	          [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
	if (S.on && S.c.dir_seed) {
		Rng g(S.c.dir_seed);
		for (size_t i = s->e.size(); i > 1; --i) {
			std::swap(s->e[i - 1], s->e[g.below(i)]);
		}
	}
	return (DIR*)s;
}
struct dirent* sim_readdir(DIR* p)
{
	SimDir* s = (SimDir*)p;
	if (s->i == 0) {
		IoDec d = io_op(K_READDIR);
		if (d.err) {
			s->i = s->e.size();
			errno = d.err;
			return nullptr;
		}
	}
	return s->i < s->e.size() ? &s->e[s->i++] : nullptr;
}
int sim_closedir(DIR* p)
{
	delete (SimDir*)p;
	return 0;
}

// ---- calls the code does not make today, so that an edit that starts making them
// stays inside the simulation
int sim_fsync(int fd)
{
	IoDec d = io_op(K_WRITE);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	(void)fd;
	io_done(d);
	return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n)
{
	IoDec d = io_op(K_WRITE);
	if (d.err) {
		errno = d.err;
		return -1;
	}
	int r = ftruncate(fd, n);
	io_done(d);
	return r;
}
int sim_link(const char* a, const char* b)
{
	return path_op(K_RENAME, a, b, [](const char* x, const char* y) { return link(x, y); });
}
int sim_symlink(const char* a, const char* b)
{
	return path_op(K_RENAME, b, nullptr, [](const char*, const char*) { errno = EPERM; return -1; });
}
int sim_mkdir(const char* a, mode_t)
{
	return path_op(K_OPENW, a, nullptr, [](const char* x, const char*) { return mkdir(x, 0755); });
}
int sim_rmdir(const char* a)
{
	return path_op(K_REMOVE, a, nullptr, [](const char* x, const char*) { return rmdir(x); });
}
int sim_pthread_detach(pthread_t) { return 0; }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{
	if (!S.on) {
		return ETIMEDOUT;
	}
	// time passes as fast as the scheduler wants: give way, then time out
	sync_point();
	unlock_mtx(m);
	sim_usleep(1000);
	lock_mtx(m);
	return ETIMEDOUT;
}
struct SimSem {
	unsigned n;
};
static std::unordered_map<const void*, unsigned> sems;
int sim_sem_init(void* s, int, unsigned v)
{
	sems[s] = v;
	return 0;
}
int sim_sem_destroy(void* s)
{
	sems.erase(s);
	return 0;
}
int sim_sem_wait(void* s)
{
	sync_point();
	while (sems[s] == 0) {
		S.cnd[s].waiters.push_back(S.cur);
		Thr* me = S.thr[S.cur];
		me->st = B_COND;
		me->obj = s;
		block_switch();
	}
	--sems[s];
	return 0;
}
int sim_sem_post(void* s)
{
	++sems[s];
	wake_cond((pthread_cond_t*)s, false);
	return 0;
}
int sim_open64(const char*, int, ...) __attribute__((alias("sim_open")));
FILE* sim_fopen64(const char*, const char*) __attribute__((alias("sim_fopen")));
int sim_mkstemp64(char*) __attribute__((alias("sim_mkstemp")));
int sim_stat64(const char*, struct stat*) __attribute__((alias("sim_stat")));
int sim_fstat64(int, struct stat*) __attribute__((alias("sim_fstat")));
void* sim_mmap64(void*, size_t, int, int, int, off_t) __attribute__((alias("sim_mmap")));
struct dirent* sim_readdir64(DIR*) __attribute__((alias("sim_readdir")));
char* sim___strdup(const char*) __attribute__((alias("sim_strdup")));
int sim_truncate64(const char*, off_t) __attribute__((alias("sim_truncate")));
// called when the address sanitizer is about to end the process
void sim_asan_death()
{
	if (shm && S.on) {
		totals();
		shm->phase = P_ASAN;
	}
}
}
