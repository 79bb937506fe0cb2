#ifndef P32_STDLIB_H
#define P32_STDLIB_H
#include <stddef.h>
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
void *malloc(size_t), *calloc(size_t, size_t), *realloc(void *, size_t);
void free(void *);
void exit(int) __attribute__((noreturn)), abort(void) __attribute__((noreturn));
int abs(int);
#endif
