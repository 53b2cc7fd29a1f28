// D02, with the identifiers in shared memory
#define D02_SHARED
#include "d02_txnlog.cc"
