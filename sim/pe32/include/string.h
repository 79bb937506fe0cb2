#ifndef P32_STRING_H
#define P32_STRING_H
#include <stddef.h>
void *memcpy(void *, const void *, size_t), *memmove(void *, const void *, size_t), *memset(void *, int, size_t), *memchr(const void *, int, size_t);
int memcmp(const void *, const void *, size_t), strcmp(const char *, const char *), strncmp(const char *, const char *, size_t);
size_t strlen(const char *), strnlen(const char *, size_t);
char *strcpy(char *, const char *), *strncpy(char *, const char *, size_t), *strchr(const char *, int), *strrchr(const char *, int), *strstr(const char *, const char *), *strcat(char *, const char *);
#endif
