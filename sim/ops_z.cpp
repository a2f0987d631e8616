#include <string>
#include "custom.h"
typedef Cust T;
#define TABLE opsZ
#include "ops_t.inc"
