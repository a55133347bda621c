// Derives faulty / rescheduled variants of a scenario whose fault-free run is known.
#include "variant.h"
#include <algorithm>
#include <cerrno>
#include <signal.h>
using namespace sim;

void sched_pick(Rng& g, SchedCfg& c)
{
	c = SchedCfg();
	c.mt = true;
	c.seed = g.next();
	c.p_sync = g.pick(std::vector<double> {0, 0.05, 0.2, 0.5, 0.9});
	switch (g.below(6)) {
	case 0:
		c.gap_shared = g.pick(std::vector<int> {2, 5, 20});
		break;
	case 1:
		c.gap_shared = g.pick(std::vector<int> {50, 200, 1000});
		break;
	case 2:
		c.gap_any = g.pick(std::vector<int> {200, 1000, 10000});
		break;
	case 3:
		c.gap_shared = g.pick(std::vector<int> {10, 100});
		c.p_sleep = g.pick(std::vector<double> {0.05, 0.3, 0.8});
		c.sleep_len = g.pick(std::vector<int> {100, 2000, 30000});
		break;
	case 4:
		c.prio = true;
		c.gap_shared = g.pick(std::vector<int> {100, 1000, 5000});
		break;
	default:
		break;
	}
	if (g.chance(0.4)) {
		c.p_spurious = g.pick(std::vector<double> {0.01, 0.1, 0.4});
	}
	c.quantum = g.pick(std::vector<int> {500, 3000, 20000});
	c.rand_signalee = g.chance(0.7);
}

void Base::take()
{
	io.assign(shm->io_kind, shm->io_kind + std::min<uint64_t>(shm->io_ops, NIO));
	acts.assign(shm->act, shm->act + NACT);
	ev = shm->ev;
	allocs = shm->allocs;
	threads = shm->thr_created;
}

namespace {
bool works(const std::string& k) { return k == "exec" || k == "fifo" || k == "execn" || k == "cli" || k == "stepn" || k == "rest" || k == "plans" || k == "reset"; }
// operations of these kinds that the calls of the scenario made
std::vector<uint64_t> ops(const Scenario& s, const Base& b, std::initializer_list<int> kinds)
{
	std::vector<uint64_t> r;
	for (size_t i = 0; i < s.acts.size() && i < 32; ++i) {
		if (!works(s.acts[i].kind) || !b.acts[i].started) {
			continue;
		}
		for (uint64_t k = b.acts[i].io_b; k < b.acts[i].io_e && k < b.io.size(); ++k) {
			for (int x : kinds) {
				if (b.io[k] == x) {
					r.push_back(k);
				}
			}
		}
	}
	return r;
}
struct Choice {
	int kind, weight;
	std::vector<int> errs;
};
// one operation: by kind, then within the kind
bool pick_op(const Scenario& s, const Base& b, Rng& g, const std::vector<Choice>& ch, uint64_t& at, const Choice*& c)
{
	std::vector<std::pair<const Choice*, std::vector<uint64_t>>> have;
	int sum = 0;
	for (auto& x : ch) {
		auto v = ops(s, b, {x.kind});
		if (!v.empty()) {
			have.push_back({&x, v});
			sum += x.weight;
		}
	}
	if (have.empty()) {
		return false;
	}
	int r = (int)g.below(sum);
	for (auto& h : have) {
		r -= h.first->weight;
		if (r < 0) {
			c = h.first;
			switch (g.below(4)) {
			case 0:
				at = h.second.back();
				break;
			case 1:
				at = h.second[std::min<size_t>(h.second.size() - 1, g.below(3))];
				break;
			default:
				at = g.pick(h.second);
			}
			return true;
		}
	}
	return false;
}
bool pick_window(const Scenario& s, const Base& b, Rng& g, uint64_t ActRes::*lo, uint64_t ActRes::*hi, uint64_t& at)
{
	std::vector<size_t> w;
	for (size_t i = 0; i < s.acts.size() && i < 32; ++i) {
		if (works(s.acts[i].kind) && b.acts[i].started && b.acts[i].*hi > b.acts[i].*lo) {
			w.push_back(i);
		}
	}
	if (w.empty()) {
		return false;
	}
	size_t i = g.pick(w);
	at = b.acts[i].*lo + g.below(b.acts[i].*hi - b.acts[i].*lo);
	return true;
}
const std::vector<Choice> W_WRITE = {
        {K_OPENW, 3, {EACCES, EMFILE, ENOSPC, EROFS}},
        {K_MKSTEMP, 3, {EMFILE, ENOSPC, EACCES}},
        {K_FDOPEN, 1, {ENOMEM}},
        {K_WRITE, 6, {ENOSPC, EIO, EDQUOT}},
        {K_CLOSE, 3, {EIO, ENOSPC}},
        {K_RENAME, 3, {EACCES, ENOSPC, EIO}},
        {K_CHMOD, 2, {EPERM, EIO}},
        {K_REMOVE, 1, {EACCES, EIO}},
};
const std::vector<Choice> W_READ = {
        {K_OPENR, 3, {EACCES, EMFILE, EIO, ENOENT}},
        {K_READ, 6, {EIO}},
        {K_STDIN, 4, {EIO}},
        {K_MMAP, 3, {ENOMEM, EIO}},
        {K_STAT, 1, {EIO, EOVERFLOW}},
        {K_OPENDIR, 2, {EMFILE, EACCES}},
        {K_SEEK, 2, {EIO}},
        {K_REALPATH, 1, {EACCES, ENAMETOOLONG}},
        {K_ACCESS, 1, {EACCES}},
};
const std::vector<Choice> W_KILL = {
        {K_OPENW, 3, {}}, {K_MKSTEMP, 2, {}}, {K_WRITE, 6, {}}, {K_CLOSE, 3, {}}, {K_RENAME, 6, {}},
        {K_CHMOD, 4, {}}, {K_REMOVE, 2, {}}, {K_READ, 1, {}},
};
const std::vector<Choice> W_OUT = {{K_STDOUT, 1, {EPIPE, ENOSPC, EIO}}};
} // namespace

bool variant(const Scenario& base, const Base& b, int mode, int v, Rng& g, Scenario& out)
{
	out = base;
	out.cfg.replay = false;
	out.cfg.dec.clear();
	out.cfg.faults.clear();
	if ((mode & M_SCHED) && base.threaded) { // another schedule of the same calls
		sched_pick(g, out.cfg.sched);
		return true;
	}
	if (mode & M_ENV) { // another environment
		env_vary(out, g);
		return true;
	}
	std::vector<int> modes;
	for (int m : {M_KILL, M_WERR, M_RERR, M_SIG, M_ALLOC, M_OUT}) {
		if (mode & m) {
			modes.push_back(m);
		}
	}
	if (modes.empty()) {
		return false;
	}
	out.faulty = true;
	int m = g.pick(modes);
	Fault f {};
	const Choice* c = nullptr;
	switch (m) {
	case M_KILL:
		if (g.chance(0.2)) {
			f.kind = F_KILL_EV;
			if (!pick_window(base, b, g, &ActRes::ev_b, &ActRes::ev_e, f.at)) {
				return false;
			}
			break;
		}
		if (!pick_op(base, b, g, W_KILL, f.at, c)) {
			return false;
		}
		f.kind = g.pick(std::vector<int> {F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_PART});
		f.arg = (int)g.below(1001);
		break;
	case M_WERR:
		if (!pick_op(base, b, g, W_WRITE, f.at, c)) {
			return false;
		}
		f.arg = g.pick(c->errs);
		f.kind = F_ERR;
		if (c->kind == K_WRITE) {
			f.kind = g.pick(std::vector<int> {F_ERR, F_STICKY, F_STICKY, F_SHORT});
			if (f.kind == F_SHORT) {
				f.arg = (int)g.below(1000);
			} else if (f.kind == F_STICKY) {
				f.arg = ENOSPC;
			}
		}
		break;
	case M_RERR:
		if (!pick_op(base, b, g, W_READ, f.at, c)) {
			return false;
		}
		f.arg = g.pick(c->errs);
		f.kind = F_ERR;
		if ((c->kind == K_READ || c->kind == K_STDIN) && g.chance(0.3)) {
			f.kind = F_SHORT;
			f.arg = (int)g.below(1000);
		}
		break;
	case M_OUT:
		if (!pick_op(base, b, g, W_OUT, f.at, c)) {
			return false;
		}
		f.arg = g.pick(c->errs);
		f.kind = F_STICKY;
		break;
	case M_SIG:
		f.kind = F_SIGNAL;
		f.arg = g.pick(std::vector<int> {SIGINT, SIGTERM, SIGHUP, SIGQUIT});
		if (g.chance(0.5)) { // around an operation on a file
			uint64_t op;
			if (pick_op(base, b, g, W_KILL, op, c)) {
				f.at = op;
				f.kind = F_SIGNAL;
				f.arg |= SIG_AT_OP | (g.chance(0.5) ? SIG_AFTER : 0);
				break;
			}
		}
		if (!pick_window(base, b, g, &ActRes::ev_b, &ActRes::ev_e, f.at)) {
			return false;
		}
		break;
	case M_ALLOC:
		if (base.threaded && g.chance(0.2) && b.threads) {
			f.kind = F_THREAD;
			f.at = g.below(b.threads);
			break;
		}
		f.kind = F_ALLOC;
		if (!pick_window(base, b, g, &ActRes::al_b, &ActRes::al_e, f.at)) {
			return false;
		}
		break;
	}
	out.cfg.faults = {f};
	return true;
}
