// Runs one scenario in a child process under the simulator.
#include "scn.h"
#include <cerrno>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <getopt.h>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "fql.h"

std::string scratch_dir;
static std::string work, errfile;
extern "C" int fql_main(int, char**);
extern "C" void sim_asan_death();
extern "C" void sim_exit(int);
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" long fifo_harness(int argc, const char** argv);

static void rmtree(const std::string& d)
{
	DIR* p = opendir(d.c_str());
	if (!p) {
		return;
	}
	while (dirent* e = readdir(p)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") {
			continue;
		}
		std::string f = d + "/" + n;
		struct stat sb;
		if (lstat(f.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) {
			rmtree(f);
			rmdir(f.c_str());
		} else {
			unlink(f.c_str());
		}
	}
	closedir(p);
}
static void cleanup()
{
	if (!scratch_dir.empty()) {
		rmtree(scratch_dir);
		rmdir(scratch_dir.c_str());
	}
}
static pid_t owner;
void exec_setup(const char*)
{
	const char* base = "/dev/shm";
	char b[256];
	for (int i = 0; i < 2; ++i) {
		snprintf(b, sizeof(b), "%s/fqlsim.%d.XXXXXX", base, (int)getpid());
		if (mkdtemp(b)) {
			break;
		}
		base = "/tmp";
	}
	scratch_dir = b;
	owner = getpid();
	work = scratch_dir + "/w";
	errfile = scratch_dir + "/err";
	mkdir(work.c_str(), 0755);
	setenv("HOME", scratch_dir.c_str(), 1);
	setenv("FQL_SCHEMA_PATH", ".", 1);
	atexit([]() {
		if (getpid() == owner) {
			cleanup();
		}
	});
}

static int opt_set(fqlhandle* f, const std::string& k, const std::string& v)
{
	int n = atoi(v.c_str());
	if (k == "threading") fql_set_threading(f, n);
	else if (k == "pipe_factor") fql_set_pipe_factor(f, n);
	else if (k == "overwrite") fql_set_overwrite(f, n);
	else if (k == "force_cartesian") fql_set_force_cartesian(f, n);
	else if (k == "allow_stdin") fql_set_allow_stdin(f, n);
	else if (k == "print_header") fql_set_print_header(f, n);
	else if (k == "add_header") fql_set_add_header(f, n);
	else if (k == "schema") fql_set_schema(f, v.c_str());
	else if (k == "out_delim") fql_set_out_delim(f, v.c_str());
	else if (k == "in_delim") fql_set_in_delim(f, v.c_str());
	else if (k == "strict") fql_set_strict_mode(f, n);
	else if (k == "loose_groups") fql_set_loose_groups(f, n);
	else if (k == "crlf") fql_set_crlf_output(f, n);
	else if (k == "rec_term") fql_set_record_terminator(f, v.c_str());
	else if (k == "verbose") fql_set_verbose(f, (fql_verbose)n);
	else if (k == "char_as_byte") fql_set_char_as_byte(f, n);
	else if (k == "dry_run") fql_set_dry_run(f, n);
	else if (k == "in_std") return fql_set_in_std(f, v.c_str());
	else if (k == "out_std") return fql_set_out_std(f, v.c_str());
	else return FQL_FAIL;
	return FQL_GOOD;
}

struct H {
	fqlhandle* f = nullptr;
};
static long rows_out;
static void emit_row(fqlhandle* f, fql_field* fd, int n)
{
	std::string s;
	for (int i = 0; i < n; ++i) {
		if (i) {
			s += '|';
		}
		char b[64];
		switch (fd[i].type) {
		case FQL_INT:
			snprintf(b, sizeof(b), "%ld", fd[i].data.i);
			s += fd[i].is_null ? "" : b;
			break;
		case FQL_FLOAT:
			snprintf(b, sizeof(b), "%f", fd[i].data.f);
			s += fd[i].is_null ? "" : b;
			break;
		case FQL_STRING:
			if (!fd[i].is_null && fd[i].data.s) {
				for (const char* c = fd[i].data.s; *c; ++c) {
					s += *c == '\n' ? "\\n" : *c == '"' ? "\\q" : std::string(1, *c);
				}
			}
			break;
		default:
			s += "?";
		}
	}
	s += '\n';
	sim::emit_text(s.data(), s.size());
	++rows_out;
}
// run queries until `n` rows were stepped (n<0: to the end of the whole script)
static long step_rows(fqlhandle* f, long n)
{
	long got = 0;
	while (n < 0 || got < n) {
		if (fql_exec_until_select(f) == FQL_FAIL) {
			return FQL_FAIL;
		}
		if (fql_get_operation_type(f) == FQL_NONE) {
			return FQL_GOOD;
		}
		int nf = fql_field_count(f);
		if (nf == FQL_FAIL) {
			return FQL_FAIL;
		}
		fql_field* fd = nullptr;
		int r = 0;
		while ((n < 0 || got < n) && (r = fql_step(f, &fd)) == 1) {
			emit_row(f, fd, nf);
			++got;
		}
		if (r == FQL_FAIL) {
			return FQL_FAIL;
		}
	}
	return FQL_GOOD;
}

static long do_act(const Act& a, std::map<int, H>& hs)
{
	rows_out = 0;
	fqlhandle*& f = hs[a.h].f;
	const std::string& k = a.kind;
	if (k == "new") {
		f = fql_new();
		return f ? FQL_GOOD : FQL_FAIL;
	}
	if (k == "free") {
		fql_free(f);
		f = nullptr;
		return FQL_GOOD;
	}
	if (k == "reset") {
		return fql_reset(f);
	}
	if (k == "opt") {
		return opt_set(f, a.a[0], a.a[1]);
	}
	if (k == "import") {
		return fql_import_variable(f, a.a[0].c_str());
	}
	if (k == "exec") {
		int r = fql_exec(f, a.a[0].c_str());
		return r < 0 ? FQL_FAIL : FQL_GOOD;
	}
	if (k == "plans") {
		int r = fql_make_plans(f, a.a[0].c_str());
		return r < 0 ? FQL_FAIL : FQL_GOOD;
	}
	if (k == "stepn") {
		return step_rows(f, atol(a.a[0].c_str()));
	}
	if (k == "execn") {
		int r = fql_exec_plans(f, atoi(a.a[0].c_str()));
		return r < 0 ? FQL_FAIL : FQL_GOOD;
	}
	if (k == "rest") {
		int r = fql_exec_all_plans(f);
		return r < 0 ? FQL_FAIL : FQL_GOOD;
	}
	if (k == "cli") {
		std::vector<char*> v;
		v.push_back((char*)"fql");
		std::vector<std::string> keep(a.a.begin(), a.a.end());
		for (auto& s : keep) {
			v.push_back((char*)s.c_str());
		}
		v.push_back(nullptr);
		optind = 0;
		int r = fql_main((int)v.size() - 1, v.data());
		return r == 0 ? FQL_GOOD : FQL_FAIL;
	}
	if (k == "fifo") {
		std::vector<const char*> v;
		for (auto& s : a.a) {
			v.push_back(s.c_str());
		}
		return fifo_harness((int)v.size(), v.data());
	}
	return FQL_FAIL;
}

static void child(const Scenario& s)
{
	int fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	dup2(fd, 2);
	if (fd > 2) {
		close(fd);
	}
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0);
	dup2(nul, 1);
	if (nul > 2) {
		close(nul);
	}
	if (chdir(work.c_str())) {
		_exit(97);
	}
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 64 << 20;
	setrlimit(RLIMIT_FSIZE, &rl);
	struct itimerval tv = {{0, 0}, {40, 0}};
	setitimer(ITIMER_PROF, &tv, nullptr); // processor time
	alarm(400);
	__sanitizer_set_death_callback(sim_asan_death);
	sim::Cfg c = s.cfg;
	c.root = work;
	static std::map<int, H> hs;
	sim::begin(c);
	bool cli = false;
	for (size_t i = 0; i < s.acts.size() && i < sim::NACT; ++i) {
		sim::act_begin((int)i);
		cli |= s.acts[i].kind == "cli";
		long r = do_act(s.acts[i], hs);
		fflush(stdout);
		sim::act_end((int)i, r, rows_out);
		if (r == FQL_FAIL && s.retry_ro && s.acts[i].kind == "exec") {
			sim::act_begin((int)i + 32);
			r = do_act(s.acts[i], hs);
			fflush(stdout);
			sim::act_end((int)i + 32, r, rows_out);
		}
		if (r == FQL_FAIL && s.stop_on_fail && s.acts[i].ret != -1) {
			break;
		}
	}
	// an orderly end of the process: handles that are still there are closed
	for (auto& h : hs) {
		if (h.second.f) {
			fql_free(h.second.f);
			h.second.f = nullptr;
		}
	}
	sim::finish();
	sim::shm->phase = sim::P_DONE;
	fflush(nullptr);
	_exit(0);
}

static std::string slurp(const std::string& f)
{
	std::ifstream i(f, std::ios::binary);
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}
static double now_ms()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

void run_scenario(const Scenario& s, RunResult& r)
{
	rmtree(work);
	for (auto& f : s.files) {
		size_t sl = f.first.find('/');
		if (sl != std::string::npos) {
			mkdir((work + "/" + f.first.substr(0, sl)).c_str(), 0755);
		}
		std::ofstream o(work + "/" + f.first, std::ios::binary);
		o << f.second;
	}
	// everything in the shared block up to the bulk buffers, then what was used of them
	sim::Shm* m = sim::shm;
	uint32_t ol = m->out_len, tl = m->txt_len;
	memset((void*)m, 0, offsetof(sim::Shm, out));
	(void)ol;
	(void)tl;
	memset((char*)m + offsetof(sim::Shm, io_kind), 0, sizeof(sim::Shm) - offsetof(sim::Shm, io_kind));
	double t0 = now_ms();
	pid_t p = fork();
	if (p == 0) {
		child(s);
	}
	if (p < 0) {
		return;
	}
	r.started = true;
	struct rusage ru;
	while (wait4(p, &r.status, 0, &ru) < 0 && errno == EINTR) {
	}
	r.ms = now_ms() - t0;
	r.timeout = WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGPROF || WTERMSIG(r.status) == SIGALRM);
	r.err = slurp(errfile);
	r.fs.clear();
	std::vector<std::string> dirs = {""};
	for (size_t i = 0; i < dirs.size(); ++i) {
		DIR* d = opendir((work + "/" + dirs[i]).c_str());
		if (!d) {
			continue;
		}
		while (dirent* e = readdir(d)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") {
				continue;
			}
			std::string rel = dirs[i] + n;
			struct stat sb;
			if (lstat((work + "/" + rel).c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) {
				dirs.push_back(rel + "/");
			} else {
				r.fs[rel] = slurp(work + "/" + rel);
			}
		}
		closedir(d);
	}
}
