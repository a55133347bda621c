// Search (seeds, schedules, faults), confirmation and minimisation of what it finds.
#include "scn.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <set>
#include <time.h>
#include <unordered_set>
using namespace sim;

namespace {
double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
uint64_t fs_hash(const RunResult& r)
{
	std::hash<std::string> h;
	uint64_t x = 1;
	for (auto& f : r.fs) {
		x = mix(mix(x, h(f.first)), h(f.second));
	}
	return x;
}
struct Outcome {
	Verd v;
	uint64_t hash = 0, fs = 0;
};
Outcome once(const Scenario& s)
{
	RunResult r;
	run_scenario(s, r);
	Outcome o;
	o.v = judge(s, r);
	o.hash = shm->hash;
	o.fs = fs_hash(r);
	return o;
}
struct Stats {
	uint64_t runs = 0, base = 0, faulty = 0, threaded = 0, ev = 0, switches = 0, preempts = 0, sim_us = 0, io = 0, spurious = 0,
	         sleeps = 0, fault_runs_fired = 0, rejected = 0, max_ev = 0;
	uint64_t fired[F_NKINDS] = {}, fired_io[F_NKINDS][K_NKINDS] = {};
	std::map<std::string, uint64_t> tags;
	std::unordered_set<uint64_t> ilv, outs, runs_h;
	std::vector<uint8_t> edge = std::vector<uint8_t>(NEDGE, 0);
	std::vector<std::string> samples;
};
void account(Stats& st, const Scenario& s, const RunResult& r)
{
	++st.runs;
	st.ev += shm->ev;
	st.max_ev = std::max<uint64_t>(st.max_ev, shm->ev);
	st.switches += shm->switches;
	st.preempts += shm->preempts;
	st.sim_us += shm->sim_us;
	st.io += shm->io_ops;
	st.spurious += shm->spurious;
	st.sleeps += shm->sleeps;
	st.threaded += s.threaded;
	bool any = false;
	for (int f = 0; f < F_NKINDS; ++f) {
		st.fired[f] += shm->fired[f];
		any |= shm->fired[f] > 0;
		for (int k = 0; k < K_NKINDS; ++k) {
			st.fired_io[f][k] += shm->fired_io[f][k];
		}
	}
	st.faulty += s.faulty;
	st.fault_runs_fired += any;
	++st.tags[s.tag + (s.threaded ? "/threads" : "")];
	if (s.threaded) {
		st.ilv.insert(shm->ilv_hash);
	}
	st.outs.insert(mix(std::hash<std::string>()(std::string(shm->out, shm->out + shm->out_len)), fs_hash(r)));
	uint64_t wl = 0;
	std::hash<std::string> hs;
	for (auto& a : s.acts) {
		for (auto& x : a.a) {
			wl = mix(wl, hs(x));
		}
	}
	for (auto& f : s.files) {
		wl = mix(wl, hs(f.second));
	}
	st.runs_h.insert(mix(mix(wl, hs(s.cfg.stdin_data)), shm->hash));
	for (size_t i = 0; i < NEDGE; ++i) {
		st.edge[i] |= shm->edge[i];
	}
}
std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o;
}

// ---- minimisation: every candidate is run; it is kept if the same kind of violation shows
struct Mini {
	std::string cls;
	double until;
	int tried = 0;
	bool holds(const Scenario& s)
	{
		++tried;
		return now() < until && once(s).v.cls == cls;
	}
};
void minimise(Scenario& s, const std::string& cls, double budget)
{
	Mini m {cls, now() + budget};
	// calls after the failing one
	{
		RunResult r;
		run_scenario(s, r);
		size_t last = 0;
		for (size_t i = 0; i < s.acts.size() && i < 32; ++i) {
			if (shm->act[i].started) {
				last = i;
			}
		}
		for (size_t n = 1; n < s.acts.size() && n <= last + 1; ++n) {
			Scenario t = s;
			t.acts.resize(n);
			if (m.holds(t)) {
				s = t;
				break;
			}
		}
	}
	// a fault that is not needed
	for (size_t i = 0; i < s.cfg.faults.size();) {
		Scenario t = s;
		t.cfg.faults.erase(t.cfg.faults.begin() + i);
		if (m.holds(t)) {
			s = t;
		} else {
			++i;
		}
	}
	// the plain environment
	for (int k = 0; k < 3; ++k) {
		Scenario t = s;
		if (k == 0) {
			t.cfg.stdin_chunk = 0;
		} else if (k == 1) {
			t.cfg.buf_mode = 0;
		} else {
			t.cfg.dir_seed = 0;
		}
		if (m.holds(t)) {
			s = t;
		}
	}
	if (!s.cfg.sched.mt) {
		return;
	}
	// the schedule: from a seed to a list of decisions, then fewer of them
	{
		RunResult r;
		run_scenario(s, r);
		if (shm->ndec >= NDEC) {
			return;
		}
		Scenario t = s;
		t.cfg.replay = true;
		t.cfg.dec.assign(shm->dec, shm->dec + shm->ndec);
		if (!m.holds(t)) {
			return;
		}
		s = t;
	}
	size_t n = 2;
	auto& d = s.cfg.dec;
	while (!d.empty() && now() < m.until) {
		size_t len = std::max<size_t>(1, (d.size() + n - 1) / n);
		bool cut = false;
		for (size_t at = 0; at < d.size() && now() < m.until; at += len) {
			Scenario t = s;
			t.cfg.dec.erase(t.cfg.dec.begin() + at, t.cfg.dec.begin() + std::min(d.size(), at + len));
			if (m.holds(t)) {
				s = t;
				cut = true;
				n = std::max<size_t>(2, n - 1);
				break;
			}
		}
		if (!cut) {
			if (len == 1) {
				break;
			}
			n = std::min(d.size(), n * 2);
		}
	}
}
} // namespace

// exit: 0 nothing found, 1 violations found, 2 the machinery failed
int run_search(int argc, char** argv)
{
	std::string prop, out, rdir;
	uint64_t seed0 = 1;
	int n = 100, worker = 0, nw = 1, vover = -1;
	double limit = 1e9;
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--prop") prop = v;
		else if (k == "--seed0") seed0 = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = atoi(v.c_str());
		else if (k == "--worker") worker = atoi(v.c_str());
		else if (k == "--nw") nw = atoi(v.c_str());
		else if (k == "--time") limit = atof(v.c_str());
		else if (k == "--out") out = v;
		else if (k == "--replays") rdir = v;
		else if (k == "--variants") vover = atoi(v.c_str());
	}
	double t0 = now();
	Stats st;
	std::vector<std::string> viol;
	std::set<std::string> seen;
	bool infra = false;
	std::string infra_msg;
	int mode = prop_mode(prop), nv = vover >= 0 ? vover : plan_variants(prop);
	int done = 0, found = 0, unconfirmed = 0;
	auto check = [&](const Scenario& s, uint64_t sub) -> bool { // true: fine
		RunResult r;
		run_scenario(s, r);
		Verd v = judge(s, r);
		account(st, s, r);
		if (v.cls.empty()) {
			return true;
		}
		++found;
		std::string sig = v.sig + "|" + v.cls + "|" + s.tag + "|" + (s.faulty && !s.cfg.faults.empty() ? fault_kind_name[s.cfg.faults[0].kind] : "-");
		if (!seen.insert(sig).second || seen.size() > 3) {
			return false;
		}
		uint64_t h = shm->hash, f = fs_hash(r);
		bool slow = v.cls == "hang" || v.cls == "livelock";
		// the same seed must give exactly the same run
		for (int k = 0; k < (slow ? 1 : 2); ++k) {
			Outcome o = once(s);
			if (o.hash != h || o.fs != f || o.v.cls != v.cls) {
				++unconfirmed;
				infra = unconfirmed > 5;
				seen.erase(sig);
				infra_msg = "a run did not repeat: prop " + prop + " seed " + std::to_string(s.seed) + "/" + std::to_string(sub)
				            + " " + v.cls + "/" + o.v.cls + (o.hash != h ? " hash" : "") + (o.fs != f ? " files" : "") + ": " + v.msg;
				return false;
			}
		}
		Scenario t = s;
		minimise(t, v.cls, slow ? 15 : 20);
		Outcome o = once(t);
		if (o.v.cls != v.cls) {
			t = s;
			o = once(t);
		}
		t.expect_cls = o.v.cls;
		t.expect_msg = o.v.msg;
		std::string file = rdir + "/" + prop + "-" + std::to_string(s.seed) + "-" + std::to_string(sub) + ".replay";
		std::ofstream of(file);
		of << to_text(t);
		of.close();
		viol.push_back("{\"file\":\"" + jesc(file) + "\",\"class\":\"" + jesc(o.v.cls) + "\",\"message\":\"" + jesc(o.v.msg.substr(0, 900))
		               + "\",\"seed\":" + std::to_string(s.seed) + ",\"sub\":" + std::to_string(sub) + ",\"decisions\":"
		               + std::to_string(t.cfg.dec.size()) + "}");
		return false;
	};
	for (int i = worker; i < n; i += nw) {
		if (now() - t0 > limit || seen.size() > 3 || infra) {
			break;
		}
		Scenario s;
		uint64_t seed = seed0 + (uint64_t)i;
		if (!gen(prop, seed, s)) {
			++st.rejected;
			continue;
		}
		++done;
		++st.base;
		if (st.samples.size() < 2 && !s.acts.empty()) {
			std::string q;
			for (auto& a : s.acts) {
				q += a.kind;
				for (auto& x : a.a) {
					q += " " + x;
				}
				q += " / ";
			}
			st.samples.push_back(q.substr(0, 400));
		}
		if (!check(s, 0)) {
			continue;
		}
		Base b;
		b.take();
		for (int v = 1; v <= nv && !infra && now() - t0 <= limit; ++v) {
			Rng g(mix(seed, 0xfa17 + v));
			Scenario t;
			if (!variant(s, b, s.mode ? s.mode : mode, v, g, t)) {
				break;
			}
			check(t, v);
		}
	}
	uint64_t edges = 0;
	std::ofstream o(out);
	std::string ebits;
	for (size_t i = 0; i < NEDGE; i += 4) {
		int x = 0;
		for (int k = 0; k < 4; ++k) {
			x |= (st.edge[i + k] ? 1 : 0) << k;
			edges += st.edge[i + k] != 0;
		}
		ebits += "0123456789abcdef"[x];
	}
	o << "{\"scenarios\":" << done << ",\"runs\":" << st.runs << ",\"threaded\":" << st.threaded << ",\"faulty\":" << st.faulty
	  << ",\"fault_runs_fired\":" << st.fault_runs_fired << ",\"steps\":" << st.ev << ",\"max_steps\":" << st.max_ev << ",\"switches\":" << st.switches
	  << ",\"preemptions\":" << st.preempts << ",\"sim_us\":" << st.sim_us << ",\"io_ops\":" << st.io << ",\"spurious\":" << st.spurious
	  << ",\"stalls\":" << st.sleeps << ",\"found\":" << found << ",\"unconfirmed\":" << unconfirmed << ",\"edges\":\"" << ebits << "\",\"wall\":" << now() - t0
	  << ",\"infra\":\"" << jesc(infra_msg) << "\",\"fired\":{";
	const char* sep = "";
	for (int f = 0; f < F_NKINDS; ++f) {
		uint64_t io = 0;
		for (int k = 0; k < K_NKINDS; ++k) {
			if (st.fired_io[f][k]) {
				o << sep << "\"" << fault_kind_name[f] << ":" << io_kind_name[k] << "\":" << st.fired_io[f][k];
				sep = ",";
				io += st.fired_io[f][k];
			}
		}
		if (st.fired[f] > io) {
			o << sep << "\"" << fault_kind_name[f] << "\":" << st.fired[f] - io;
			sep = ",";
		}
	}
	o << "},\"tags\":{";
	sep = "";
	for (auto& t : st.tags) {
		o << sep << "\"" << jesc(t.first) << "\":" << t.second;
		sep = ",";
	}
	o << "},\"ilv\":[";
	sep = "";
	for (auto x : st.ilv) {
		o << sep << x;
		sep = ",";
	}
	o << "],\"results\":[";
	sep = "";
	for (auto x : st.outs) {
		o << sep << x;
		sep = ",";
	}
	o << "],\"traces\":[";
	sep = "";
	for (auto x : st.runs_h) {
		o << sep << x;
		sep = ",";
	}
	o << "],\"samples\":[";
	sep = "";
	for (auto& x : st.samples) {
		o << sep << "\"" << jesc(x) << "\"";
		sep = ",";
	}
	o << "],\"violations\":[";
	sep = "";
	for (auto& x : viol) {
		o << sep << x;
		sep = ",";
	}
	o << "]}\n";
	o.close();
	if (!infra_msg.empty()) {
		fprintf(stderr, "%s\n", infra_msg.c_str());
	}
	return !viol.empty() ? 1 : found ? 2 : 0;
}
