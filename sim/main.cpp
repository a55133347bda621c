#include "scn.h"
#include "variant.h"
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include "fql.h"
using namespace sim;
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=4:symbolize=0";
}
static const char* warm_sql[] = {
        "select top 3 a.x, count(*) c, sum(cast(b.y as int)) from [t.csv] a join u b on a.x = b.x and b.y > 3 left join (select distinct "
        "q from z where q in ('a','b')) s on s.q = a.x where (a.k like 'a%' or b.v <= 4) and a.z is null group by a.x having "
        "count(*) > 2 order by c desc, 1",
        "select x into [#new] from t union all select y from u where y in (select z from v) and w >= (select max(cast(q as int)) from r)",
        "update t set a = cast(b as int) + 3, c = 'x' where d = 5 delete from t where a <> 4",
        "update y set a = b.c from [t] y join u b on y.i = b.i where b.k = 'x'; delete y from t y join u z on y.a = z.b",
        "declare @x int = 0 declare @f varchar = 'a' + 'b' while @x < 3 begin select @x set @x = @x + 1 end if @x > 2 select 1 else select 2",
        "select *, case when a > 3 then 'hi' else 'lo' end, left(k,1), 42, 'lit' from __stdin"};
static void warm()
{
	fflush(stdout);
	int o = dup(1), e = dup(2), n = open("/dev/null", O_RDWR);
	dup2(n, 1);
	dup2(n, 2);
	for (auto s : warm_sql) {
		fqlhandle* h = fql_new();
		fql_set_parse_only(h, 1);
		fql_set_allow_stdin(h, 1);
		fql_make_plans(h, s);
		fql_free(h);
	}
	fflush(stdout);
	dup2(o, 1);
	dup2(e, 2);
	close(o);
	close(e);
	close(n);
}
int run_search(int argc, char** argv);
static int show(const Scenario& s, bool verbose)
{
	RunResult r;
	run_scenario(s, r);
	Verd v = judge(s, r);
	if (verbose) {
		for (size_t j = 0; j < s.acts.size() && j < 32; ++j) {
			ActRes& x = shm->act[j];
			if (!x.started) {
				break;
			}
			printf("-- %s", s.acts[j].kind.c_str());
			for (auto& a : s.acts[j].a) {
				printf(" %s", a.c_str());
			}
			printf(": ret=%ld\n%s%s", x.ret, std::string(shm->out + x.out_b, shm->out + (x.finished ? x.out_e : shm->out_len)).c_str(),
			       std::string(shm->txt + x.txt_b, shm->txt + (x.finished ? x.txt_e : shm->txt_len)).c_str());
		}
		printf("stderr: %s\n", r.err.c_str());
		for (auto& f : r.fs) {
			auto it = s.files.find(f.first);
			if (it == s.files.end() || it->second != f.second) {
				printf("file %s: %s\n", f.first.c_str(), esc(f.second).c_str());
			}
		}
		printf("phase=%d verdict=%s %s ev=%llu io=%llu alloc=%llu switches=%llu pre=%llu hash=%llx status=%x ms=%.1f\n", shm->phase,
		       verdict_name[shm->verdict], shm->vmsg, (unsigned long long)shm->ev, (unsigned long long)shm->io_ops,
		       (unsigned long long)shm->allocs, (unsigned long long)shm->switches, (unsigned long long)shm->preempts,
		       (unsigned long long)shm->hash, r.status, r.ms);
		for (int f = 0; f < F_NKINDS; ++f) {
			for (int k = 0; k < K_NKINDS; ++k) {
				if (shm->fired_io[f][k]) {
					printf("fired %s at %s\n", fault_kind_name[f], io_kind_name[k]);
				}
			}
		}
	}
	printf("%s %s\n", v.cls.empty() ? "OK" : v.cls.c_str(), esc(v.msg).c_str());
	return v.cls.empty() ? 0 : 1;
}
int main(int argc, char** argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) {
			execv("/proc/self/exe", argv);
		}
	}
	init_shm();
	exec_setup(nullptr);
	warm();
	std::string cmd = argc > 1 ? argv[1] : "";
	if (cmd == "try") { // fqlsim try PROP FROM COUNT: generate, run, print what is wrong
		std::map<std::string, int> n, bad;
		int from = atoi(argv[3]), cnt = atoi(argv[4]), shown = 0, lim = argc > 5 ? atoi(argv[5]) : 5;
		for (int i = from; i < from + cnt; ++i) {
			Scenario s;
			gen(argv[2], i, s);
			RunResult r;
			run_scenario(s, r);
			Verd v = judge(s, r);
			++n[s.tag];
			if (!v.cls.empty()) {
				++bad[s.tag];
				if (shown++ < lim) {
					printf("%d %s %s: %s\n", i, s.tag.c_str(), v.cls.c_str(), v.msg.substr(0, 500).c_str());
				}
			}
		}
		for (auto& x : n) {
			printf("%s: %d/%d bad\n", x.first.c_str(), bad[x.first], x.second);
		}
		return 0;
	}
	if (cmd == "show") {
		Scenario s;
		gen(argv[2], atoi(argv[3]), s);
		if (getenv("MAXEV")) {
			s.cfg.max_ev = strtoull(getenv("MAXEV"), 0, 10);
		}
		if (getenv("QUIET") == nullptr) {
			printf("%s", to_text(s).c_str());
		}
		return show(s, true);
	}
	if (cmd == "run") {
		return run_search(argc, argv);
	}
	if (cmd == "replay") {
		std::ifstream f(argv[2]);
		std::ostringstream o;
		o << f.rdbuf();
		Scenario s;
		std::string err;
		if (!from_text(o.str(), s, err)) {
			printf("%s\n", err.c_str());
			return 2;
		}
		return show(s, true);
	}
	if (cmd == "sql") { // fqlsim sql -f n=c -o k=v -i stdin SQL...
		Scenario s;
		s.stop_on_fail = false;
		Act a;
		a.kind = "new";
		s.acts.push_back(a);
		for (int i = 2; i < argc; ++i) {
			std::string x = argv[i];
			if (x == "-f") {
				std::string n = argv[++i];
				s.files[n.substr(0, n.find('='))] = unesc(n.substr(n.find('=') + 1));
			} else if (x == "-o") {
				std::string n = argv[++i];
				a.kind = "opt";
				a.a = {n.substr(0, n.find('=')), n.substr(n.find('=') + 1)};
				s.acts.push_back(a);
			} else if (x == "-S") {
				Rng g(atol(argv[++i]));
				sched_pick(g, s.cfg.sched);
				a.kind = "opt";
				a.a = {"threading", "1"};
				s.acts.push_back(a);
			} else if (x == "-i") {
				s.cfg.stdin_data = unesc(argv[++i]);
			} else {
				a.kind = "exec";
				a.a = {x};
				s.acts.push_back(a);
			}
		}
		return show(s, true);
	}
	return 2;
}
