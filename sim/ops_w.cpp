#include <string>
#include <cstdint>
typedef uint32_t T;
#define TABLE opsW
#include "ops_t.inc"
