// P07: values travel unchanged between a proxy and a stub of one process.
#include "harness/V.h"
SYM_ENTRY p07_requests() { requests<Itc>(); }
SYM_ENTRY p07_bare() { bare<Itc>(); }
SYM_ENTRY p07_updates() { updates<Itc>(); }
SYM_ENTRY p07_service() { service<Itc>(); }
SYM_ENTRY p07_local() { local<Itc>(); }
SYM_ENTRY p07_executors() { executors<Itc>(); }
SYM_ENTRY p07_refusals() { refusals<Itc>(); }
SYM_ENTRY p07_nothing() { nothing<Itc>(); }
SYM_ENTRY p07_threads() { threads<Itc>((int)sym_cfg("preempt", 1)); }
