#include <string>
#include <cstdint>
typedef int8_t T;
#define TABLE opsC
#include "ops_t.inc"
