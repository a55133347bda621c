/* Stand-in implementation of the part of jasonKercher/libcsv fql uses.
 *
 * Contract followed (from fql's own sources, fixedwrite.c in particular, which
 * says it mimics the libcsv writer):
 *   - readers map a regular file, or read stdin when nothing was opened;
 *   - fields reference the mapping when possible and a buffer owned by the
 *     csv_record otherwise (doubled quotes, stdin);
 *   - writers write to a temporary file in the target's directory which is
 *     registered for removal on signals, and rename it over the target in
 *     csv_writer_close, only if every write succeeded.
 * Every error a system call reports is reported to the caller.
 */
#define _GNU_SOURCE
#include "csv.h"
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static char errbuf[512];

static int fail(const char* what)
{
	snprintf(errbuf, sizeof(errbuf), "%s: %s", what, strerror(errno));
	return CSV_FAIL;
}

void csv_perror(void)
{
	fprintf(stderr, "%s\n", errbuf);
}

static void* xmalloc(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (p == NULL) {
		perror("malloc");
		exit(EXIT_FAILURE);
	}
	return p;
}

static void* xrealloc(void* q, size_t n)
{
	void* p = realloc(q, n ? n : 1);
	if (p == NULL) {
		perror("realloc");
		exit(EXIT_FAILURE);
	}
	return p;
}

static char* xstrdup(const char* s)
{
	size_t n = strlen(s) + 1;
	return memcpy(xmalloc(n), s, n);
}

/* signals do not interrupt the bookkeeping of temporary files */
__attribute__((weak)) void sim_signal_hold(int);
static void hold(int d)
{
	if (sim_signal_hold) {
		sim_signal_hold(d);
	}
}

/* ---- temporary files removed on a signal ------------------------------ */
struct tmpnode {
	struct tmpnode* next;
	char* name;
};
static struct tmpnode* tmp_head;

static struct tmpnode* tmp_push(const char* name)
{
	struct tmpnode* n = xmalloc(sizeof(*n));
	n->name = xstrdup(name);
	n->next = tmp_head;
	tmp_head = n;
	return n;
}

static void tmp_drop(struct tmpnode* n)
{
	struct tmpnode** it = &tmp_head;
	for (; *it; it = &(*it)->next) {
		if (*it == n) {
			*it = n->next;
			free(n->name);
			free(n);
			return;
		}
	}
}

static void tmp_drop_and_remove(struct tmpnode* n)
{
	struct tmpnode* it = tmp_head;
	for (; it; it = it->next) {
		if (it == n) {
			if (remove(n->name)) {
				perror(n->name);
			}
			tmp_drop(n);
			return;
		}
	}
}

static void csv_cleanexit(int sig)
{
	while (tmp_head) {
		tmp_drop_and_remove(tmp_head);
	}
	if (sig != -1) {
		exit(EXIT_FAILURE);
	}
}

__attribute__((constructor)) static void csv_init_sig(void)
{
	struct sigaction act;
	memset(&act, 0, sizeof(act));
	act.sa_handler = csv_cleanexit;
	sigaction(SIGINT, &act, NULL);
	sigaction(SIGQUIT, &act, NULL);
	sigaction(SIGTERM, &act, NULL);
	sigaction(SIGHUP, &act, NULL);
}

/* ---- records ---------------------------------------------------------- */
struct csv_record_internal {
	char* line; /* raw record, when it is not in a mapping */
	size_t line_cap;
	char* unq; /* unescaped field text */
	size_t unq_cap;
	int fields_cap;
};

struct csv_record* csv_record_new(void)
{
	struct csv_record* rec = xmalloc(sizeof(*rec));
	memset(rec, 0, sizeof(*rec));
	rec->_in = xmalloc(sizeof(*rec->_in));
	memset(rec->_in, 0, sizeof(*rec->_in));
	return rec;
}

void csv_record_free(struct csv_record* rec)
{
	free(rec->_in->line);
	free(rec->_in->unq);
	free(rec->_in);
	free(rec->fields);
	free(rec);
}

/* ---- reader ----------------------------------------------------------- */
struct csv_reader_internal {
	char delim[64];
	bool delim_set;
	int fd; /* -1: not open, use stdin */
	char* map;
	size_t size;
	bool is_file;
};

struct csv_reader* csv_reader_new(void)
{
	struct csv_reader* self = xmalloc(sizeof(*self));
	memset(self, 0, sizeof(*self));
	self->quotes = QUOTE_RFC4180;
	self->_in = xmalloc(sizeof(*self->_in));
	memset(self->_in, 0, sizeof(*self->_in));
	self->_in->fd = -1;
	return self;
}

int csv_reader_close(struct csv_reader* self)
{
	struct csv_reader_internal* in = self->_in;
	if (in->map) {
		munmap(in->map, in->size);
		in->map = NULL;
	}
	if (in->fd != -1) {
		close(in->fd);
		in->fd = -1;
	}
	in->is_file = false;
	in->size = 0;
	self->offset = 0;
	return CSV_GOOD;
}

void csv_reader_free(struct csv_reader* self)
{
	csv_reader_close(self);
	free(self->_in);
	free(self);
}

int csv_reader_open_mmap(struct csv_reader* self, const char* file)
{
	struct csv_reader_internal* in = self->_in;
	struct stat sb;
	in->fd = open(file, O_RDONLY);
	if (in->fd == -1) {
		return fail(file);
	}
	if (fstat(in->fd, &sb) == -1) {
		fail(file);
		close(in->fd);
		in->fd = -1;
		return CSV_FAIL;
	}
	in->is_file = true;
	in->size = sb.st_size;
	self->offset = 0;
	if (in->size == 0) {
		return CSV_GOOD;
	}
	in->map = mmap(NULL, in->size, PROT_READ, MAP_PRIVATE, in->fd, 0);
	if (in->map == MAP_FAILED) {
		in->map = NULL;
		in->size = 0;
		fail(file);
		close(in->fd);
		in->fd = -1;
		return CSV_FAIL;
	}
	return CSV_GOOD;
}

int csv_reader_open(struct csv_reader* self, const char* file)
{
	return csv_reader_open_mmap(self, file);
}

int csv_reader_seek(struct csv_reader* self, size_t offset)
{
	if (!self->_in->is_file || offset > self->_in->size) {
		snprintf(errbuf, sizeof(errbuf), "csv seek out of range");
		return CSV_FAIL;
	}
	self->offset = offset;
	return CSV_GOOD;
}

int csv_reader_reset(struct csv_reader* self)
{
	self->offset = 0;
	return CSV_GOOD;
}

size_t csv_reader_get_file_size(const struct csv_reader* self)
{
	return self->_in->size;
}

void csv_reader_set_delim(struct csv_reader* self, const char* delim)
{
	snprintf(self->_in->delim, sizeof(self->_in->delim), "%s", delim);
	self->_in->delim_set = true;
}

const char* csv_reader_get_delim(const struct csv_reader* self)
{
	return self->_in->delim;
}

static void grow_line(struct csv_record_internal* ri, size_t need)
{
	if (need > ri->line_cap) {
		ri->line_cap = need * 2 + 64;
		ri->line = xrealloc(ri->line, ri->line_cap);
	}
}

static void detect_delim(struct csv_reader* self, const char* s, size_t n)
{
	static const char cand[] = ",|\t;:";
	size_t best = 0;
	char pick = ',';
	for (const char* c = cand; *c; ++c) {
		size_t cnt = 0;
		for (size_t i = 0; i < n; ++i) {
			cnt += s[i] == *c;
		}
		if (cnt > best) {
			best = cnt;
			pick = *c;
		}
	}
	self->_in->delim[0] = pick;
	self->_in->delim[1] = '\0';
	self->_in->delim_set = true;
}

static struct csv_field* add_field(struct csv_record* rec)
{
	if (rec->size == rec->_in->fields_cap) {
		rec->_in->fields_cap = rec->_in->fields_cap * 2 + 8;
		rec->fields = xrealloc(rec->fields,
		                       rec->_in->fields_cap * sizeof(*rec->fields));
	}
	return &rec->fields[rec->size++];
}

static void trim_field(struct csv_field* f)
{
	while (f->len && (*f->data == ' ' || *f->data == '\t')) {
		++f->data;
		--f->len;
	}
	while (f->len && (f->data[f->len - 1] == ' ' || f->data[f->len - 1] == '\t')) {
		--f->len;
	}
}

/* split s[0..n) into fields; s contains exactly one record */
static void split(struct csv_reader* self,
                  struct csv_record* rec,
                  const char* s,
                  size_t n,
                  unsigned max)
{
	const char* delim = self->_in->delim;
	const size_t dlen = strlen(delim);
	const bool quotes = self->quotes != QUOTE_NONE;
	size_t unq_used = 0;
	rec->size = 0;
	rec->rec = s;
	rec->reclen = n;
	if (rec->_in->unq_cap < n + 1) {
		rec->_in->unq_cap = n * 2 + 64;
		rec->_in->unq = xrealloc(rec->_in->unq, rec->_in->unq_cap);
	}

	size_t i = 0;
	for (;;) {
		if ((unsigned)rec->size >= max) {
			return;
		}
		struct csv_field f;
		if (quotes && i < n && s[i] == '"') {
			size_t b = i + 1, j = b;
			bool dbl = false;
			for (; j < n; ++j) {
				if (s[j] != '"') {
					continue;
				}
				if (self->quotes == QUOTE_WEAK) {
					/* closing only if a delimiter or the end follows */
					if (j + 1 == n || (dlen && j + 1 + dlen <= n && !memcmp(&s[j + 1], delim, dlen))) {
						break;
					}
					continue;
				}
				if (j + 1 < n && s[j + 1] == '"') {
					dbl = true;
					++j;
					continue;
				}
				break;
			}
			f = (struct csv_field) {&s[b], (int)(j - b)};
			if (dbl) {
				char* d = rec->_in->unq + unq_used;
				size_t k = b, o = 0;
				for (; k < j; ++k) {
					d[o++] = s[k];
					if (s[k] == '"') {
						++k;
					}
				}
				unq_used += o;
				f = (struct csv_field) {d, (int)o};
			}
			/* skip to the delimiter */
			i = (j < n) ? j + 1 : n;
			while (i < n && !(dlen && i + dlen <= n && !memcmp(&s[i], delim, dlen))) {
				++i;
			}
		} else {
			size_t b = i;
			while (i < n && !(dlen && i + dlen <= n && !memcmp(&s[i], delim, dlen))) {
				++i;
			}
			f = (struct csv_field) {&s[b], (int)(i - b)};
		}
		if (self->trim) {
			trim_field(&f);
		}
		*add_field(rec) = f;
		if (i >= n) {
			return;
		}
		i += dlen;
	}
}

/* length of the record starting at s, not counting its terminator;
 * *adv is how far the next record is.  quoted fields may hold newlines. */
struct scan {
	bool in_quotes;
	bool at_start;
	bool quoted; /* the current field began with a quote */
};

static bool scan_is_end(struct csv_reader* self, struct scan* st, const char* s, size_t i)
{
	const char* delim = self->_in->delim;
	const size_t dlen = strlen(delim);
	const char c = s[i];
	if (self->quotes == QUOTE_NONE) {
		return c == '\n';
	}
	if (st->in_quotes) {
		if (c == '"') {
			st->in_quotes = false;
		}
		return false;
	}
	if (c == '"' && (st->at_start || (st->quoted && s[i - 1] == '"'))) {
		st->in_quotes = true; /* opening, or second of a doubled pair */
		st->quoted = true;
		st->at_start = false;
		return false;
	}
	if (c == '\n') {
		return true;
	}
	st->at_start = dlen && i + 1 >= dlen && !memcmp(&s[i + 1 - dlen], delim, dlen);
	if (st->at_start) {
		st->quoted = false;
	}
	return false;
}

static int get_mapped(struct csv_reader* self, struct csv_record* rec, unsigned max)
{
	struct csv_reader_internal* in = self->_in;
	if (self->offset >= in->size) {
		return EOF;
	}
	const char* s = in->map + self->offset;
	size_t n = in->size - self->offset;
	if (!in->delim_set) {
		const char* nl = memchr(s, '\n', n);
		detect_delim(self, s, nl ? (size_t)(nl - s) : n);
	}
	struct scan st = {false, true, false};
	size_t i = 0;
	while (i < n && !scan_is_end(self, &st, s, i)) {
		++i;
	}
	size_t len = i;
	self->offset += i + (i < n);
	if (len && s[len - 1] == '\r') {
		--len;
	}
	split(self, rec, s, len, max);
	return CSV_GOOD;
}

static int get_stdin(struct csv_reader* self, struct csv_record* rec, unsigned max)
{
	struct csv_record_internal* ri = rec->_in;
	size_t n = 0;
	struct scan st = {false, true, false};
	bool ended = false;
	if (!self->_in->delim_set) {
		/* first line decides the delimiter */
		int c;
		while ((c = getc(stdin)) != EOF) {
			grow_line(ri, n + 1);
			ri->line[n++] = c;
			if (c == '\n') {
				break;
			}
		}
		if (c == EOF && ferror(stdin)) {
			return fail("stdin");
		}
		if (n == 0) {
			return EOF;
		}
		detect_delim(self, ri->line, ri->line[n - 1] == '\n' ? n - 1 : n);
		size_t i = 0;
		for (; i < n; ++i) {
			if (scan_is_end(self, &st, ri->line, i)) {
				ended = true;
				break;
			}
		}
		self->offset += n;
		if (ended) {
			n = i;
		}
	}
	while (!ended) {
		int c = getc(stdin);
		if (c == EOF) {
			if (ferror(stdin)) {
				return fail("stdin");
			}
			if (n == 0) {
				return EOF;
			}
			break;
		}
		++self->offset;
		grow_line(ri, n + 1);
		ri->line[n] = c;
		if (scan_is_end(self, &st, ri->line, n)) {
			break;
		}
		++n;
	}
	if (n && ri->line[n - 1] == '\r') {
		--n;
	}
	grow_line(ri, 1);
	split(self, rec, ri->line, n, max);
	return CSV_GOOD;
}

int csv_get_record_to(struct csv_reader* self, struct csv_record* rec, unsigned max)
{
	if (self->_in->is_file) {
		return get_mapped(self, rec, max);
	}
	return get_stdin(self, rec, max);
}

int csv_get_record(struct csv_reader* self, struct csv_record* rec)
{
	return csv_get_record_to(self, rec, (unsigned)-1);
}

int csv_nparse(struct csv_reader* self, struct csv_record* rec, const char* s, unsigned n)
{
	if (!self->_in->delim_set) {
		detect_delim(self, s, n);
	}
	split(self, rec, s, n, (unsigned)-1);
	return CSV_GOOD;
}

/* ---- writer ----------------------------------------------------------- */
struct csv_writer_internal {
	FILE* file;
	char* tempname;
	char* filename;
	struct tmpnode* tmp;
	char delim[64];
	char term[64];
	bool is_detached;
};

struct csv_writer* csv_writer_new(void)
{
	struct csv_writer* self = xmalloc(sizeof(*self));
	memset(self, 0, sizeof(*self));
	self->quotes = QUOTE_RFC4180;
	self->_in = xmalloc(sizeof(*self->_in));
	memset(self->_in, 0, sizeof(*self->_in));
	self->_in->file = stdout;
	strcpy(self->_in->delim, ",");
	strcpy(self->_in->term, "\n");
	return self;
}

void csv_writer_free(struct csv_writer* self)
{
	struct csv_writer_internal* in = self->_in;
	if (in->file && in->file != stdout) {
		fclose(in->file);
	}
	if (in->tmp) {
		tmp_drop_and_remove(in->tmp);
	}
	free(in->tempname);
	free(in->filename);
	free(in);
	free(self);
}

int csv_writer_isopen(const struct csv_writer* self)
{
	return self->_in->file != NULL && self->_in->file != stdout;
}

static int do_csv_writer_mktmp(struct csv_writer* self)
{
	struct csv_writer_internal* in = self->_in;
	char* cp = NULL;
	const char* dir = ".";
	if (in->filename) {
		cp = xstrdup(in->filename);
		dir = dirname(cp);
	}
	free(in->tempname);
	in->tempname = xmalloc(strlen(dir) + 16);
	sprintf(in->tempname, "%s/csv_XXXXXX", dir);
	free(cp);
	int fd = mkstemp(in->tempname);
	if (fd == -1) {
		return fail(in->tempname);
	}
	in->tmp = tmp_push(in->tempname);
	in->file = fdopen(fd, "w");
	if (in->file == NULL) {
		fail(in->tempname);
		close(fd);
		tmp_drop_and_remove(in->tmp);
		in->tmp = NULL;
		return CSV_FAIL;
	}
	return CSV_GOOD;
}
int csv_writer_mktmp(struct csv_writer* self)
{
	hold(1);
	int ret = do_csv_writer_mktmp(self);
	hold(-1);
	return ret;
}

int csv_writer_open(struct csv_writer* self, const char* file)
{
	struct csv_writer_internal* in = self->_in;
	if (csv_writer_isopen(self)) {
		snprintf(errbuf, sizeof(errbuf), "writer already open");
		return CSV_FAIL;
	}
	free(in->filename);
	in->filename = xstrdup(file);
	in->is_detached = false;
	return csv_writer_mktmp(self);
}

static int do_csv_writer_close(struct csv_writer* self)
{
	struct csv_writer_internal* in = self->_in;
	if (in->file == stdout) {
		return CSV_GOOD;
	}
	if (in->file == NULL) {
		snprintf(errbuf, sizeof(errbuf), "writer not open");
		return CSV_FAIL;
	}
	int bad = ferror(in->file);
	FILE* f = in->file;
	in->file = NULL;
	if (fclose(f) == EOF) {
		bad = 1;
	}
	if (bad) {
		fail(in->tempname ? in->tempname : "write");
		if (in->tmp) {
			tmp_drop_and_remove(in->tmp);
			in->tmp = NULL;
		}
		return CSV_FAIL;
	}
	if (in->is_detached) {
		in->is_detached = false;
		return CSV_GOOD;
	}
	if (in->filename == NULL) {
		snprintf(errbuf, sizeof(errbuf), "file name empty");
		return CSV_FAIL;
	}
	if (chmod(in->tempname, 0666) || rename(in->tempname, in->filename)) {
		fail(in->filename);
		if (in->tmp) {
			tmp_drop_and_remove(in->tmp);
			in->tmp = NULL;
		}
		return CSV_FAIL;
	}
	if (in->tmp) {
		tmp_drop(in->tmp);
		in->tmp = NULL;
	}
	return CSV_GOOD;
}
int csv_writer_close(struct csv_writer* self)
{
	hold(1);
	int ret = do_csv_writer_close(self);
	hold(-1);
	return ret;
}

char* csv_writer_detach_filename(struct csv_writer* self)
{
	struct csv_writer_internal* in = self->_in;
	in->is_detached = true;
	char* ret = in->filename;
	in->filename = NULL;
	return ret;
}

const char* csv_writer_export_tmp(struct csv_writer* self)
{
	struct csv_writer_internal* in = self->_in;
	const char* name;
	if (in->is_detached) {
		name = in->tempname;
		in->tmp = NULL; /* still removed on a signal, as in fixedwrite.c */
	} else {
		name = in->filename;
	}
	return name ? xstrdup(name) : NULL;
}

FILE* csv_writer_get_file(const struct csv_writer* self)
{
	return self->_in->file;
}

void csv_writer_set_file(struct csv_writer* self, FILE* file)
{
	self->_in->file = file;
}

void csv_writer_set_delim(struct csv_writer* self, const char* delim)
{
	snprintf(self->_in->delim, sizeof(self->_in->delim), "%s", delim);
}

void csv_writer_set_line_ending(struct csv_writer* self, const char* term)
{
	snprintf(self->_in->term, sizeof(self->_in->term), "%s", term);
}

struct csv_field csv_writer_get_delim_field(const struct csv_writer* self)
{
	return (struct csv_field) {self->_in->delim, (int)strlen(self->_in->delim)};
}

struct csv_field csv_writer_get_terminator_field(const struct csv_writer* self)
{
	return (struct csv_field) {self->_in->term, (int)strlen(self->_in->term)};
}

int csv_write_field(struct csv_writer* self, const struct csv_field* f)
{
	struct csv_writer_internal* in = self->_in;
	const size_t dlen = strlen(in->delim);
	bool need = self->quotes == QUOTE_ALL;
	bool dbl = self->quotes != QUOTE_WEAK;
	if (self->quotes == QUOTE_RFC4180 || self->quotes == QUOTE_WEAK) {
		for (int i = 0; i < f->len && !need; ++i) {
			need = f->data[i] == '\n' || f->data[i] == '\r'
			       || (f->data[i] == '"' && dbl)
			       || (dlen && i + (int)dlen <= f->len
			           && !memcmp(&f->data[i], in->delim, dlen));
		}
	}
	if (!need) {
		if (f->len) {
			fwrite(f->data, 1, f->len, in->file);
		}
		return f->len;
	}
	int len = 2;
	fputc('"', in->file);
	for (int i = 0; i < f->len; ++i) {
		if (f->data[i] == '"' && dbl) {
			fputc('"', in->file);
			++len;
		}
		fputc(f->data[i], in->file);
		++len;
	}
	fputc('"', in->file);
	return len;
}
