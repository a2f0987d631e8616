#include <string>
#include <cstdint>
typedef double T;
#define TABLE opsD
#include "ops_t.inc"
