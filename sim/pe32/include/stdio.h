/* Hosted headers of the 32-bit harness: just declarations, the functions are in host32.c */
#ifndef P32_STDIO_H
#define P32_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct p32_file FILE;
extern FILE *stdin, *stdout, *stderr;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define BUFSIZ 4096
FILE *fopen(const char *, const char *);
int fclose(FILE *), fseek(FILE *, long, int), feof(FILE *), ferror(FILE *), fflush(FILE *), fgetc(FILE *), getc(FILE *);
void rewind(FILE *), clearerr(FILE *), perror(const char *);
long ftell(FILE *);
size_t fread(void *, size_t, size_t, FILE *), fwrite(const void *, size_t, size_t, FILE *);
int printf(const char *, ...), fprintf(FILE *, const char *, ...), snprintf(char *, size_t, const char *, ...), sprintf(char *, const char *, ...);
int vprintf(const char *, va_list), vfprintf(FILE *, const char *, va_list), vsnprintf(char *, size_t, const char *, va_list);
int puts(const char *), putchar(int), fputs(const char *, FILE *), fputc(int, FILE *);
#endif
