// Deterministic simulation runtime: every source of nondeterminism fql touches
// (thread scheduling, file and stream I/O, directory order, allocation failure,
// signals, crashes, randomness, sleeping) is decided here from one seed or, on
// replay, from a recorded decision list.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>

namespace sim {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- kinds of I/O operation the seam sees
enum IoKind : uint8_t {
	K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_MKSTEMP, K_FDOPEN, K_RENAME,
	K_REMOVE, K_CHMOD, K_ACCESS, K_STAT, K_MMAP, K_MUNMAP, K_OPENDIR, K_READDIR,
	K_REALPATH, K_STDIN, K_STDOUT, K_SEEK, K_NKINDS
};
extern const char* const io_kind_name[K_NKINDS];

enum FaultKind : uint8_t {
	F_ERR,          // operation #at fails with errno `arg`
	F_STICKY,       // as F_ERR, and every later space-consuming operation too (full disk)
	F_SHORT,        // a write/read transfers only `arg` permille of what was asked
	F_CRASH_BEFORE, // the process is killed before operation #at
	F_CRASH_AFTER,  // ... after it
	F_CRASH_PART,   // ... inside it: a write is torn at `arg` permille
	F_ALLOC,        // allocation #at returns NULL
	F_SIGNAL,       // signal `arg` is delivered at event #at
	F_KILL_EV,      // the process is killed at event #at
	F_THREAD,       // thread creation #at fails with EAGAIN
	F_NKINDS
};
extern const char* const fault_kind_name[F_NKINDS];
// F_SIGNAL: `at` is an event, or with this bit in `arg` an I/O operation
constexpr int SIG_AT_OP = 1 << 16, SIG_AFTER = 1 << 17;
struct Fault {
	uint8_t kind;
	uint64_t at;
	int32_t arg;
};

// recorded schedule decisions: at event `ev`, of type `type`, value `val`
enum DecType : uint8_t { D_PREEMPT, D_PICK, D_SIGNALEE, D_SPURIOUS, D_SLEEP };
struct Dec {
	uint64_t ev;
	uint8_t type;
	uint8_t pad[3];
	uint32_t val;
};

enum Verdict : int { V_NONE, V_DEADLOCK, V_LIVELOCK, V_HANG, V_MISUSE, V_ESCAPE };
extern const char* const verdict_name[];

enum Phase : int { P_BOOT, P_RUN, P_DONE, P_EXIT, P_KILLED, P_ASAN };

constexpr size_t OUT_MAX = 48 << 20, TXT_MAX = 1 << 20, NACT = 64, NDEC = 1 << 15, NIO = 1 << 14, NEDGE = 1 << 14;

struct ActRes {
	int started, finished;
	long ret;
	long rows;
	uint32_t out_b, out_e; // stdout bytes [b,e)
	uint32_t txt_b, txt_e; // step-API text [b,e)
	uint64_t io_b, io_e, ev_b, ev_e, al_b, al_e;
	int fds_before, fds_after, threads_left;
};

struct Shm {
	volatile int phase;
	int verdict;
	char vmsg[2048];
	int exit_code;
	uint64_t ev, switches, preempts, syncops, allocs, hash, ilv_hash, sim_us;
	uint64_t spurious, sleeps, shared_ev, io_ops, threads, thr_created;
	uint64_t edges_hit;
	int nact;
	ActRes act[NACT];
	uint32_t out_len, txt_len;
	char out[OUT_MAX], txt[TXT_MAX];
	uint8_t io_kind[NIO];
	uint32_t io_cnt[K_NKINDS];
	uint32_t fired[F_NKINDS];
	uint32_t fired_io[F_NKINDS][K_NKINDS];
	uint64_t fired_at_ev;
	uint32_t escapes;
	uint32_t ndec;
	Dec dec[NDEC];
	uint8_t edge[NEDGE];
	int out_error; // stdout reported a failure to the program
	int leaked_streams;
};

struct SchedCfg {
	bool mt = false;       // scheduling active
	uint64_t seed = 1;
	double p_sync = 0;     // switch probability at synchronisation operations
	uint32_t gap_shared = 0; // mean number of cross-thread accesses between preemptions (0 = off)
	uint32_t gap_any = 0;    // mean number of memory accesses between preemptions (0 = off)
	double p_spurious = 0; // spurious condition wakeup
	double p_sleep = 0;    // at a preemption point, stall the thread instead
	uint32_t sleep_len = 1000;
	bool prio = false;     // priority scheduling with random change points
	uint32_t quantum = 20000;
	bool rand_signalee = false;
};

struct Cfg {
	SchedCfg sched;
	std::vector<Fault> faults;
	uint64_t io_seed = 1;
	int stdin_chunk = 0;   // 0: as asked; n>0: at most n bytes; <0: random 1..-n
	int buf_mode = 0;      // stream buffer: 0 default, n: setvbuf size n
	uint64_t max_ev = 500000000;
	uint64_t dir_seed = 0; // 0: sorted
	std::string root;      // scratch directory; nothing outside may be modified
	std::string stdin_data;
	bool stdin_tty = false;
	bool replay = false;
	std::vector<Dec> dec;  // replay decisions
	int nproc = 8;
};

extern Shm* shm;
void init_shm();
void begin(const Cfg& c);      // in the child, before the workload
void act_begin(int i);
void act_end(int i, long ret, long rows);
void emit_text(const char* s, size_t n);
void finish();                 // workload complete: fill in totals
[[noreturn]] void leave(int phase, int code);
bool on();
uint64_t cur_ev();
} // namespace sim
