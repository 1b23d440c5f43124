/* Analysis-only declarations of jasonKercher/libcsv's public interface (the
 * library itself is not installed here).  Only what lib/*.c names is declared,
 * so that clang can type-check and lower those sources.  Nothing is linked. */
#ifndef VERIF_STUB_CSV_H
#define VERIF_STUB_CSV_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
#define CSV_GOOD 0
#define CSV_RESET 1
#define CSV_FAIL -2
#ifndef CSV_SIGNAL_H
#endif
enum csv_quotes { QUOTE_ALL, QUOTE_RFC4180, QUOTE_RFC, QUOTE_WEAK, QUOTE_NONE };
typedef int csv_quote_style;
struct csv_field { const char* data; int len; };
struct csv_record { struct csv_field* fields; const char* rec; size_t reclen; int size; void* _in; };
struct csv_reader { void* _in; size_t offset; int quotes; int trim; int normal; };
struct csv_writer { void* _in; int quotes; };
struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_close(struct csv_reader*);
int csv_reader_reset(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t);
void csv_reader_set_delim(struct csv_reader*, const char*);
const char* csv_reader_get_delim(struct csv_reader*);
size_t csv_reader_get_file_size(struct csv_reader*);
struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, int);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, size_t);
void csv_perror(void);
struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
int csv_writer_isopen(struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
char* csv_writer_export_tmp(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
FILE* csv_writer_get_file(struct csv_writer*);
void csv_writer_set_file(struct csv_writer*, FILE*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
int csv_write_field(struct csv_writer*, const struct csv_field*);
#ifdef __cplusplus
}
#endif
#endif
