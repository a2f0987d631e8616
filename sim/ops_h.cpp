#include <string>
#include <cstdint>
typedef int16_t T;
#define TABLE opsH
#include "ops_t.inc"
