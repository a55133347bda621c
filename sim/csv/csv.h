/* Stand-in for jasonKercher/libcsv's <csv.h>.  The real library is not
 * available offline; this header declares exactly the part of its API that
 * fql uses, with the semantics fql's sources and tests document.
 */
#ifndef SIM_CSV_H
#define SIM_CSV_H

#include <stdio.h>
#include <stddef.h>
#include <stdbool.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif

#define CSV_GOOD 0
#define CSV_FAIL -5

enum quote_style {
	QUOTE_ALL,
	QUOTE_WEAK,
	QUOTE_NONE,
	QUOTE_RFC4180,
};

struct csv_field {
	const char* data;
	int len;
};

struct csv_record_internal;
struct csv_record {
	const char* rec;
	size_t reclen;
	struct csv_field* fields;
	int size;
	struct csv_record_internal* _in;
};

struct csv_reader_internal;
struct csv_reader {
	int quotes;
	int trim;
	int failsafe;
	size_t offset;
	struct csv_reader_internal* _in;
};

struct csv_writer_internal;
struct csv_writer {
	int quotes;
	struct csv_writer_internal* _in;
};

void csv_perror(void);

struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);

struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char* file);
int csv_reader_open_mmap(struct csv_reader*, const char* file);
int csv_reader_close(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t offset);
int csv_reader_reset(struct csv_reader*);
size_t csv_reader_get_file_size(const struct csv_reader*);
void csv_reader_set_delim(struct csv_reader*, const char* delim);
const char* csv_reader_get_delim(const struct csv_reader*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, unsigned max_fields);
int csv_nparse(struct csv_reader*, struct csv_record*, const char* s, unsigned n);

struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char* file);
int csv_writer_close(struct csv_writer*);
int csv_writer_isopen(const struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
const char* csv_writer_export_tmp(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
FILE* csv_writer_get_file(const struct csv_writer*);
void csv_writer_set_file(struct csv_writer*, FILE*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
struct csv_field csv_writer_get_delim_field(const struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(const struct csv_writer*);
int csv_write_field(struct csv_writer*, const struct csv_field*);

#ifdef __cplusplus
}
#endif
#endif
