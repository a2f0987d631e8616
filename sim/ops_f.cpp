#include <string>
#include <cstdint>
typedef float T;
#define TABLE opsF
#include "ops_t.inc"
