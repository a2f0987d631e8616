#include <string>
#include <cstdint>
typedef uint64_t T;
#define TABLE opsU
#include "ops_t.inc"
