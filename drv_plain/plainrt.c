/* The driver on the ordinary OpenMP runtime, with the library compiled as a user compiles it. */
#include <stddef.h>
#include <omp.h>
#include "detrt.h"
struct det_event *det_ev; long det_nev;
struct det_opts det_override; int det_override_on;
void det_config(const struct det_opts *o) { omp_set_num_threads(o->threads < 1 ? 1 : o->threads); }
void det_heap_reset_errors(void) {}
const char *det_error(void) { return NULL; }
long det_switches(void) { return 0; }
size_t det_heap_used(void) { return 0; }
long det_block_id(const void *p) { (void) p; return 0; }
long det_block_size(long id) { (void) id; return 0; }
