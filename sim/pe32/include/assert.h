#ifndef P32_ASSERT_H
#define P32_ASSERT_H
void abort(void) __attribute__((noreturn));
#define assert(x) ((x) ? (void) 0 : abort())
#endif
