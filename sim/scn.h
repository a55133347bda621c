// A scenario: input files, the calls made, what must come out, the faults and the
// schedule.  It is also the replay file format.
#pragma once
#include "rt.h"
#include <map>

typedef std::map<std::string, std::string> Files;

// Expected text: groups in order; the lines of one group may come in any order.
// take >= 0: any `take` lines of the group.
struct Group {
	std::vector<std::string> lines; // with their terminators
	int take = -1;
};
typedef std::vector<Group> Text;

struct Act {
	std::string kind; // new free reset opt import exec plans stepn rest cli fifo
	int h = 0;
	std::vector<std::string> a;
	// expectation
	int ret = 1;         // 1 succeeds, -1 fails, 0 either
	bool chk = false;    // output is checked
	Text out;
	int state = -1;      // index into states when the act has completed (-1: unchanged)
};

struct Scenario {
	std::string prop;
	uint64_t seed = 0;
	std::string tag;          // family of scenario, for the evidence
	Files files;
	std::vector<Act> acts;
	std::vector<std::map<std::string, Text>> states; // state 0: the initial files
	bool stop_on_fail = true; // later acts are skipped after a failing one
	bool retry_ro = false;    // repeat a failing act once (faults are over by then)
	bool faulty = false;      // judged with the rules for faults
	bool into_placeholder = false;
	bool any_order_ok = false;
	bool threaded = false;
	bool fault_once = false;  // one call may fail because of the fault, no other
	int mode = 0;             // faults to choose from (0: those of the property)
	bool no_threads = false;  // never run with threads
	std::string expect_cls;   // of a replay file: the violation it must reproduce
	std::string expect_msg;
	sim::Cfg cfg;
};

std::string esc(const std::string&);
std::string unesc(const std::string&);
std::string to_text(const Scenario&);
bool from_text(const std::string&, Scenario&, std::string& err);
Text raw_text(const std::string& bytes);
std::string plain(const Text&);

// ---- exec.cpp
struct RunResult {
	bool started = false;
	int status = 0; // wait status
	bool timeout = false;
	std::string err; // what the process wrote to its error stream
	Files fs;        // files left behind
	double ms = 0;
};
void exec_setup(const char* scratch_base);
void run_scenario(const Scenario&, RunResult&);
extern std::string scratch_dir;

// ---- judge.cpp
struct Verd {
	std::string cls; // empty: fine
	std::string msg;
	std::string sig; // identifies the finding
};
Verd judge(const Scenario&, const RunResult&);
bool match_text(const Text&, const std::string&, std::string* why);
bool match_partial(const Text&, const std::string&, std::string* why);

// ---- build.cpp, variant.cpp
bool gen(const std::string& prop, uint64_t seed, Scenario& out);
enum Mode { M_PLAIN = 0, M_THR = 1, M_MIX = 2, M_KILL = 4, M_WERR = 8, M_RERR = 16, M_SIG = 32, M_ALLOC = 64, M_OUT = 128, M_SCHED = 256, M_ENV = 512 };
int plan_variants(const std::string& prop);
int prop_mode(const std::string& prop);
// what a fault-free run did: where faults can be put
struct Base {
	std::vector<uint8_t> io; // kind of each operation
	std::vector<sim::ActRes> acts;
	uint64_t ev = 0, allocs = 0, threads = 0;
	void take(); // from sim::shm
};
// derive variant v (>=1) of a scenario from its base run; false: there is none
bool variant(const Scenario& base, const Base& b, int mode, int v, sim::Rng& g, Scenario& out);
