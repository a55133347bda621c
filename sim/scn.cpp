#include "scn.h"
#include <cstring>
#include <sstream>

std::string esc(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '\n') {
			r += "\\n";
		} else if (c == '\t') {
			r += "\\t";
		} else if (c == '\r') {
			r += "\\r";
		} else if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c < 32 || c > 126) {
			snprintf(b, sizeof(b), "\\x%02x", c);
			r += b;
		} else {
			r += c;
		}
	}
	return r + "\"";
}
std::string unesc(const std::string& s)
{
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '\\' || i + 1 >= s.size()) {
			r += s[i];
			continue;
		}
		char c = s[++i];
		switch (c) {
		case 'n':
			r += '\n';
			break;
		case 't':
			r += '\t';
			break;
		case 'r':
			r += '\r';
			break;
		case 'x':
			r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
			i += 2;
			break;
		default:
			r += c;
		}
	}
	return r;
}
static std::vector<std::string> words(const std::string& l)
{
	std::vector<std::string> v;
	size_t i = 0;
	while (i < l.size()) {
		if (l[i] == ' ') {
			++i;
			continue;
		}
		std::string w;
		if (l[i] == '"') {
			++i;
			while (i < l.size() && l[i] != '"') {
				if (l[i] == '\\' && i + 1 < l.size()) {
					w += l[i++];
				}
				w += l[i++];
			}
			++i;
			v.push_back(unesc(w));
		} else {
			while (i < l.size() && l[i] != ' ') {
				w += l[i++];
			}
			v.push_back(w);
		}
	}
	return v;
}

Text raw_text(const std::string& b)
{
	Text t;
	size_t i = 0;
	while (i < b.size()) {
		size_t e = b.find('\n', i);
		e = e == std::string::npos ? b.size() : e + 1;
		Group g;
		g.lines.push_back(b.substr(i, e - i));
		t.push_back(g);
		i = e;
	}
	return t;
}
std::string plain(const Text& t)
{
	std::string s;
	for (auto& g : t) {
		for (auto& l : g.lines) {
			s += l;
		}
	}
	return s;
}

static void put_text(std::ostringstream& o, const char* pre, const Text& t)
{
	for (auto& g : t) {
		o << pre << "group " << g.take;
		for (auto& l : g.lines) {
			o << " " << esc(l);
		}
		o << "\n";
	}
}

std::string to_text(const Scenario& s)
{
	std::ostringstream o;
	o << "fqlsim-replay 1\nprop " << s.prop << "\nseed " << s.seed << "\ntag " << esc(s.tag) << "\n";
	if (!s.expect_cls.empty()) {
		o << "violation " << s.expect_cls << " " << esc(s.expect_msg) << "\n";
	}
	o << "flags stop_on_fail " << s.stop_on_fail << " retry_ro " << s.retry_ro << " faulty " << s.faulty
	  << " into_placeholder " << s.into_placeholder << " any_order_ok " << s.any_order_ok << " threaded "
	  << s.threaded << " fault_once " << s.fault_once << "\n";
	auto& c = s.cfg;
	auto& k = c.sched;
	char b[512];
	snprintf(b, sizeof(b),
	         "cfg mt %d sseed %llu p_sync %.9g gap_shared %u gap_any %u p_spurious %.9g p_sleep %.9g sleep_len %u "
	         "prio %d quantum %u rand_signalee %d io_seed %llu stdin_chunk %d buf_mode %d max_ev %llu dir_seed "
	         "%llu stdin_tty %d nproc %d replay %d\n",
	         k.mt, (unsigned long long)k.seed, k.p_sync, k.gap_shared, k.gap_any, k.p_spurious, k.p_sleep,
	         k.sleep_len, k.prio, k.quantum, k.rand_signalee, (unsigned long long)c.io_seed, c.stdin_chunk,
	         c.buf_mode, (unsigned long long)c.max_ev, (unsigned long long)c.dir_seed, c.stdin_tty, c.nproc,
	         c.replay);
	o << b;
	for (auto& f : c.faults) {
		o << "fault " << (int)f.kind << " " << f.at << " " << f.arg << " # " << sim::fault_kind_name[f.kind] << "\n";
	}
	if (!c.stdin_data.empty()) {
		o << "stdin " << esc(c.stdin_data) << "\n";
	}
	for (auto& f : s.files) {
		o << "file " << esc(f.first) << " " << esc(f.second) << "\n";
	}
	for (auto& a : s.acts) {
		o << "act " << a.kind << " " << a.h << " " << a.ret << " " << a.chk << " " << a.state;
		for (auto& x : a.a) {
			o << " " << esc(x);
		}
		o << "\n";
		put_text(o, "a", a.out);
	}
	for (auto& st : s.states) {
		o << "state\n";
		for (auto& f : st) {
			o << "sfile " << esc(f.first) << "\n";
			put_text(o, "s", f.second);
		}
	}
	for (auto& d : c.dec) {
		o << "dec " << d.ev << " " << (int)d.type << " " << d.val << "\n";
	}
	return o.str();
}

bool from_text(const std::string& t, Scenario& s, std::string& err)
{
	std::istringstream in(t);
	std::string l;
	std::string sfile;
	bool head = false;
	while (std::getline(in, l)) {
		auto w = words(l);
		if (w.empty()) {
			continue;
		}
		const std::string& k = w[0];
		auto num = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), nullptr, 10) : 0ull; };
		auto inum = [&](size_t i) { return i < w.size() ? atoi(w[i].c_str()) : 0; };
		if (k == "fqlsim-replay") {
			head = true;
		} else if (k == "prop") {
			s.prop = w[1];
		} else if (k == "seed") {
			s.seed = num(1);
		} else if (k == "tag") {
			s.tag = w[1];
		} else if (k == "violation") {
			s.expect_cls = w[1];
			s.expect_msg = w.size() > 2 ? w[2] : "";
		} else if (k == "flags" || k == "cfg") {
			for (size_t i = 1; i + 1 < w.size(); i += 2) {
				const std::string& n = w[i];
				uint64_t v = num(i + 1);
				double d = atof(w[i + 1].c_str());
				auto& c = s.cfg;
				if (n == "stop_on_fail") s.stop_on_fail = v;
				else if (n == "retry_ro") s.retry_ro = v;
				else if (n == "fault_once") s.fault_once = v;
				else if (n == "faulty") s.faulty = v;
				else if (n == "into_placeholder") s.into_placeholder = v;
				else if (n == "any_order_ok") s.any_order_ok = v;
				else if (n == "threaded") s.threaded = v;
				else if (n == "mt") c.sched.mt = v;
				else if (n == "sseed") c.sched.seed = v;
				else if (n == "p_sync") c.sched.p_sync = d;
				else if (n == "gap_shared") c.sched.gap_shared = v;
				else if (n == "gap_any") c.sched.gap_any = v;
				else if (n == "p_spurious") c.sched.p_spurious = d;
				else if (n == "p_sleep") c.sched.p_sleep = d;
				else if (n == "sleep_len") c.sched.sleep_len = v;
				else if (n == "prio") c.sched.prio = v;
				else if (n == "quantum") c.sched.quantum = v;
				else if (n == "rand_signalee") c.sched.rand_signalee = v;
				else if (n == "io_seed") c.io_seed = v;
				else if (n == "stdin_chunk") c.stdin_chunk = atoi(w[i + 1].c_str());
				else if (n == "buf_mode") c.buf_mode = atoi(w[i + 1].c_str());
				else if (n == "max_ev") c.max_ev = v;
				else if (n == "dir_seed") c.dir_seed = v;
				else if (n == "stdin_tty") c.stdin_tty = v;
				else if (n == "nproc") c.nproc = v;
				else if (n == "replay") c.replay = v;
			}
		} else if (k == "fault") {
			sim::Fault f;
			f.kind = inum(1);
			f.at = num(2);
			f.arg = inum(3);
			s.cfg.faults.push_back(f);
		} else if (k == "stdin") {
			s.cfg.stdin_data = w[1];
		} else if (k == "file") {
			s.files[w[1]] = w.size() > 2 ? w[2] : "";
		} else if (k == "act") {
			Act a;
			a.kind = w[1];
			a.h = inum(2);
			a.ret = inum(3);
			a.chk = inum(4);
			a.state = inum(5);
			a.a.assign(w.begin() + 6, w.end());
			s.acts.push_back(a);
		} else if (k == "agroup" || k == "sgroup") {
			Group g;
			g.take = inum(1);
			g.lines.assign(w.begin() + 2, w.end());
			if (k == "agroup") {
				s.acts.back().out.push_back(g);
			} else {
				s.states.back()[sfile].push_back(g);
			}
		} else if (k == "state") {
			s.states.emplace_back();
		} else if (k == "sfile") {
			sfile = w[1];
			s.states.back()[sfile];
		} else if (k == "dec") {
			sim::Dec d;
			memset(&d, 0, sizeof(d));
			d.ev = num(1);
			d.type = inum(2);
			d.val = inum(3);
			s.cfg.dec.push_back(d);
		} else if (k[0] != '#') {
			err = "unknown line: " + l;
			return false;
		}
	}
	if (!head) {
		err = "not a replay file";
	}
	return head;
}
