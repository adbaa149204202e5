/* Stand-in declarations for OpenPA (an empty submodule here): the analysis only needs the
 * names of the atomic operations; none of this is executed. */
#ifndef OPA_PRIMITIVES_H
#define OPA_PRIMITIVES_H
typedef struct { volatile int v; } OPA_int_t;
int OPA_load_int(const OPA_int_t *);
void OPA_store_int(OPA_int_t *, int);
int OPA_cas_int(OPA_int_t *, int, int);
void OPA_incr_int(OPA_int_t *);
void OPA_decr_int(OPA_int_t *);
int OPA_fetch_and_incr_int(OPA_int_t *);
#endif
