// Decides whether a run satisfied its property: the run's outputs, return values and
// the files it left behind against the reference model's expectations.
#include "scn.h"
#include <algorithm>
#include <cstring>
#include <signal.h>
#include <sys/wait.h>
#include <unordered_map>
using sim::shm;

static std::string clip(const std::string& s, size_t n = 300)
{
	return s.size() <= n ? esc(s) : esc(s.substr(0, n)) + "...";
}

// next record: up to a newline that is not inside quotes
static size_t rec_end(const std::string& b, size_t p)
{
	bool q = false;
	for (; p < b.size(); ++p) {
		if (b[p] == '"') {
			q = !q;
		} else if (b[p] == '\n' && !q) {
			return p + 1;
		}
	}
	return b.size();
}
static bool nl_lines(const Text& t)
{
	for (auto& g : t) {
		for (auto& l : g.lines) {
			if (l.empty() || l.back() != '\n' || rec_end(l, 0) != l.size()
			    || std::count(l.begin(), l.end(), '"') % 2) {
				return false;
			}
		}
	}
	return true;
}

struct Bag {
	std::unordered_map<std::string, int> n;
	std::vector<size_t> lens;
	size_t left = 0;
	void add(const std::string& l)
	{
		++n[l];
		++left;
		if (std::find(lens.begin(), lens.end(), l.size()) == lens.end()) {
			lens.push_back(l.size());
			std::sort(lens.rbegin(), lens.rend()); // a record may begin like another one
		}
	}
	// consume one line at p; 0 if none fits
	size_t take(const std::string& b, size_t p, bool nl)
	{
		if (nl) {
			size_t e = rec_end(b, p);
			auto it = n.find(b.substr(p, e - p));
			if (it == n.end() || it->second == 0) {
				return 0;
			}
			--it->second;
			--left;
			return e - p;
		}
		for (size_t l : lens) {
			if (p + l > b.size()) {
				continue;
			}
			auto it = n.find(b.substr(p, l));
			if (it != n.end() && it->second > 0) {
				--it->second;
				--left;
				return l;
			}
		}
		return 0;
	}
};

bool match_text(const Text& t, const std::string& b, std::string* why)
{
	bool nl = nl_lines(t);
	size_t p = 0, line = 0;
	for (auto& g : t) {
		Bag bag;
		for (auto& l : g.lines) {
			bag.add(l);
		}
		size_t want = g.take >= 0 ? (size_t)g.take : g.lines.size();
		for (size_t i = 0; i < want; ++i, ++line) {
			size_t n = p < b.size() ? bag.take(b, p, nl) : 0;
			if (!n) {
				if (why) {
					std::string have = p < b.size() ? clip(b.substr(p, rec_end(b, p) - p)) : "the end";
					std::string one;
					for (auto& x : bag.n) {
						if (x.second) {
							one = x.first;
							break;
						}
					}
					char h[128];
					snprintf(h, sizeof(h), "record %zu: ", line);
					*why = h + ("found " + have) + ", expected "
					       + (bag.left > 1 ? "one of " + std::to_string(bag.left) + " records such as " : "")
					       + clip(one);
				}
				return false;
			}
			p += n;
		}
	}
	if (p < b.size()) {
		if (why) {
			*why = "unexpected record " + clip(b.substr(p, rec_end(b, p) - p)) + " after the last one";
		}
		return false;
	}
	return true;
}

// what came out before a failure: every complete record is one that was due, none more
// often than it is due; the last may be cut
bool match_partial(const Text& t, const std::string& b, std::string* why)
{
	bool nl = nl_lines(t);
	Bag bag;
	for (auto& g : t) {
		for (auto& l : g.lines) {
			bag.add(l);
		}
	}
	size_t p = 0;
	while (p < b.size()) {
		size_t n = bag.take(b, p, nl);
		if (!n) {
			std::string rest = b.substr(p);
			bool last = !nl || rec_end(b, p) == b.size();
			if (last) {
				for (auto& x : bag.n) {
					if (x.second > 0 && x.first.compare(0, rest.size(), rest) == 0) {
						return true;
					}
				}
			}
			if (why) {
				*why = "record " + clip(rest.substr(0, rec_end(rest, 0))) + " is not part of the result";
			}
			return false;
		}
		p += n;
	}
	return true;
}

static bool same_fs(const std::map<std::string, Text>& st, const Files& fs, bool placeholder, bool extras,
                    const std::map<std::string, Text>* all, std::string* why)
{
	for (auto& f : st) {
		auto it = fs.find(f.first);
		std::string w;
		if (it == fs.end()) {
			*why = "file " + f.first + " is missing";
			return false;
		}
		if (!match_text(f.second, it->second, &w)) {
			*why = "file " + f.first + ": " + w;
			return false;
		}
	}
	for (auto& f : fs) {
		if (st.count(f.first)) {
			continue;
		}
		if (placeholder && f.second.empty() && all && all->count(f.first)) {
			continue;
		}
		if (extras || (all && all->count(f.first))) {
			*why = "file " + f.first + " (" + std::to_string(f.second.size()) + " bytes) should not be there";
			return false;
		}
	}
	return true;
}

static std::string first_frames(const std::string& err)
{
	// addresses of the first frames inside the program
	std::string r;
	size_t p = 0;
	int n = 0;
	while (n < 6 && (p = err.find("    #", p)) != std::string::npos) {
		size_t x = err.find("0x", p);
		size_t nl = err.find('\n', p);
		if (x == std::string::npos || nl == std::string::npos) {
			break;
		}
		std::string l = err.substr(x, nl - x);
		size_t sp = l.find(' ');
		if (l.find("fqlsim-") != std::string::npos) {
			r += (r.empty() ? "" : " ") + l.substr(0, sp);
			++n;
		}
		p = nl;
	}
	return r;
}

Verd judge(const Scenario& s, const RunResult& r)
{
	Verd v;
	auto bad = [&](const char* c, const std::string& m, const std::string& sig = "") {
		v.cls = c;
		v.msg = m;
		v.sig = sig.empty() ? c : sig;
		return v;
	};
	const std::string& P = s.prop;
	bool killed = shm->phase == sim::P_KILLED;
	auto at = [&]() {
		int i = shm->nact ? shm->nact - 1 : 0;
		if (i >= 32 && i - 32 < (int)s.acts.size()) {
			i -= 32;
		}
		if (i < (int)s.acts.size()) {
			std::string q = s.acts[i].kind;
			for (auto& x : s.acts[i].a) {
				q += " " + x;
			}
			return " (in: " + q.substr(0, 200) + ")";
		}
		return std::string();
	};
	if (!r.started) {
		return bad("infra", "the run did not start");
	}
	if (shm->verdict != sim::V_NONE) {
		std::string n = sim::verdict_name[shm->verdict];
		return bad(shm->verdict == sim::V_DEADLOCK ? "deadlock"
		           : shm->verdict == sim::V_LIVELOCK ? "livelock"
		           : shm->verdict == sim::V_HANG ? "hang"
		           : shm->verdict == sim::V_ESCAPE ? "escape" : "misuse",
		           n + ": " + shm->vmsg + at());
	}
	if (r.timeout) {
		return bad("hang", "no progress within 40 s of processor time" + at());
	}
	if (r.err.find("AddressSanitizer") != std::string::npos) {
		size_t p = r.err.find("ERROR: AddressSanitizer: ");
		std::string kind = p == std::string::npos ? "DEADLYSIGNAL" : r.err.substr(p + 25, r.err.find_first_of(" \n", p + 25) - p - 25);
		return bad("asan", "memory error: " + kind + at() + " at " + first_frames(r.err), "asan:" + kind + ":" + first_frames(r.err));
	}
	if (WIFSIGNALED(r.status) && !killed) {
		return bad("crash", std::string("killed by signal ") + std::to_string(WTERMSIG(r.status)) + at());
	}
	if (!killed && shm->phase != sim::P_DONE && shm->phase != sim::P_EXIT) {
		return bad("crash", "the process ended unexpectedly, status " + std::to_string(r.status) + at());
	}
	if (shm->escapes) {
		return bad("escape", std::string("tried to change a path outside its directory: ") + shm->vmsg);
	}
	bool exited = shm->phase == sim::P_EXIT;
	bool sigged = shm->fired[sim::F_SIGNAL] > 0;
	if (exited && !(s.faulty && shm->exit_code != 0)) {
		return bad("exit", "the process called exit(" + std::to_string(shm->exit_code) + ")" + at() + " stderr: " + clip(r.err));
	}
	// ---- calls, in order
	int last_ok = 0, reach = 0; // states
	bool failed = false;
	bool retried = false;
	int exec_fds = -1;
	for (size_t i = 0; i < s.acts.size() && i < 32; ++i) {
		const Act& a = s.acts[i];
		const sim::ActRes& x = shm->act[i];
		if (!x.started) {
			break;
		}
		std::string out(shm->out + x.out_b, shm->out + (x.finished ? x.out_e : shm->out_len));
		std::string txt(shm->txt + x.txt_b, shm->txt + (x.finished ? x.txt_e : shm->txt_len));
		bool step = a.kind == "stepn";
		const std::string& got = step ? txt : out;
		std::string label = a.kind + (a.a.empty() ? "" : " " + a.a.back());
		if (a.state >= 0) {
			reach = std::max(reach, a.state);
		}
		std::string w;
		if (!x.finished) {
			failed = true;
			if (a.chk && a.ret >= 0 && !match_partial(a.out, got, &w)) {
				return bad("output", "before the process ended: " + w + " in " + clip(label));
			}
			break;
		}
		bool ok = x.ret != -5;
		if (P == "C20" && a.kind == "exec") {
			if (x.fds_after != x.fds_before) {
				return bad("fd-leak", "descriptors or streams open before the call: " + std::to_string(x.fds_before)
				           + ", after it: " + std::to_string(x.fds_after) + " in " + clip(label));
			}
			exec_fds = x.fds_after;
		}
		if (x.threads_left) {
			return bad("threads", std::to_string(x.threads_left) + " threads still running after " + clip(label));
		}
		if (ok) {
			if (a.ret < 0) {
				return bad("ret", "succeeded although it must fail: " + clip(label));
			}
			if (a.chk && !match_text(a.out, got, &w)) {
				return bad("output", w + " in " + clip(label, 400));
			}
			if (a.state >= 0) {
				last_ok = a.state;
			}
			continue;
		}
		if (a.ret > 0 && !s.faulty) {
			return bad("ret", "failed although nothing was wrong: " + clip(label, 400) + " stderr: " + clip(r.err));
		}
		if (a.ret < 0 && (!s.faulty || s.fault_once)) { // fails as it must: what it may have done is known
			if (a.chk && !match_text(a.out, got, &w)) {
				return bad("output", "in a call that fails: " + w + " in " + clip(label));
			}
			if (a.state >= 0) {
				last_ok = a.state;
			}
			continue;
		}
		if (a.ret > 0 && s.fault_once && failed) {
			return bad("retry", "fails although the fault is over: " + clip(label, 400) + " stderr: " + clip(r.err));
		}
		if (a.ret >= 0) {
			failed = true;
			if (a.chk && !match_partial(a.out, got, &w)) {
				return bad("output", "in a failed call: " + w + " in " + clip(label));
			}
		}
		const sim::ActRes& y = shm->act[i + 32];
		if (s.retry_ro && y.started && y.finished) {
			retried = true;
			std::string out2(shm->out + y.out_b, shm->out + y.out_e);
			if (y.ret == -5) {
				return bad("retry", "the call still fails after the fault is over: " + clip(label) + " stderr: " + clip(r.err));
			}
			if (a.chk && !match_text(a.out, out2, &w)) {
				return bad("output", "repeated after the fault: " + w + " in " + clip(label));
			}
			if (a.state >= 0) {
				last_ok = a.state;
			}
			failed = false;
			continue;
		}
		if (a.ret > 0 && s.stop_on_fail) {
			break;
		}
	}
	(void)retried;
	(void)exec_fds;
	if (exited) {
		failed = true;
	}
	// ---- the files
	if (!s.states.empty()) {
		std::map<std::string, Text> all;
		for (auto& st : s.states) {
			for (auto& f : st) {
				all[f.first];
			}
		}
		bool extras = (!killed || (P == "C07" && sigged)) && (P == "C06" || P == "C07" || !s.faulty);
		bool open_end = failed || killed;
		std::string why, w1;
		bool any = false;
		int hi = open_end ? std::max(reach, last_ok) : last_ok;
		// the empty file of a SELECT INTO that did not complete
		bool place = (killed && !sigged) || shm->fired_io[sim::F_ERR][sim::K_REMOVE];
		for (int k = last_ok; k <= hi && k < (int)s.states.size() && !any; ++k) {
			// leftovers are reported separately
			any = same_fs(s.states[k], r.fs, place, false, &all, &w1);
			if (k == last_ok) {
				why = w1;
			}
		}
		if (!any) {
			return bad("state", (killed ? "after the kill: " : sigged ? "after the signal: " : failed ? "after the failure: " : "")
			           + why + at());
		}
		// what could not be removed stays
		for (auto& f : s.cfg.faults) {
			(void)f;
			extras = extras && !shm->fired_io[sim::F_ERR][sim::K_REMOVE];
		}
		if (extras) {
			for (auto& f : r.fs) {
				if (!all.count(f.first)) {
					return bad("leftover", "file " + f.first + " (" + std::to_string(f.second.size())
					           + " bytes) was left behind" + at());
				}
			}
		}
	}
	if (P == "C20" && shm->phase == sim::P_DONE && shm->leaked_streams) {
		return bad("fd-leak", std::to_string(shm->leaked_streams) + " streams or descriptors still open after every handle was closed");
	}
	return v;
}
