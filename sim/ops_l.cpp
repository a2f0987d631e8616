#include <string>
#include <cstdint>
typedef int64_t T;
#define TABLE opsL
#include "ops_t.inc"
