#include <string>
#include <cstdint>
typedef uint8_t T;
#define TABLE opsY
#include "ops_t.inc"
