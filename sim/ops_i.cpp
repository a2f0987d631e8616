#include <string>
#include <cstdint>
typedef int T;
#define TABLE opsI
#include "ops_t.inc"
