#include <string>
#include <cstdint>
typedef std::string T;
#define TABLE opsS
#include "ops_t.inc"
