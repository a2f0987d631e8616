#include <string>
#include <cstdint>
typedef bool T;
#define TABLE opsB
#include "ops_t.inc"
