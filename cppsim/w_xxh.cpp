// The hash functions declared by xxhash.h (the library itself is not under test).
#define XXH_STATIC_LINKING_ONLY
#define XXH_IMPLEMENTATION
#include <xxHash/xxhash.h>
