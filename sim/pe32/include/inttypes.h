#ifndef P32_INTTYPES_H
#define P32_INTTYPES_H
#include <stdint.h>
/* uint32_t is "unsigned int" or "unsigned long" depending on the compiler's own stdint.h; both have 32 bits here */
#define PRIX32 "lX"
#define PRIx32 "lx"
#define PRIu32 "lu"
#define PRId32 "ld"
#define PRIX64 "llX"
#define PRIx64 "llx"
#define PRIu64 "llu"
#define PRIX16 "X"
#define PRIu16 "u"
#endif
