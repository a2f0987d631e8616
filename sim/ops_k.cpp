#include <string>
#include <cstdint>
typedef uint16_t T;
#define TABLE opsK
#include "ops_t.inc"
