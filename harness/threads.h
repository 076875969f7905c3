#ifndef VF_THREADS_H
#define VF_THREADS_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { THR_OK, THR_DIFFERS, THR_DIED, THR_TIMEOUT };
struct ThrOut { int status, rc, threads, style; char msg[200]; uint64_t order; uint32_t steps, switches; };
int thr_trial(uint64_t seed, struct ThrOut *o);	/* in processes of their own; 0 if the results agree */
#ifdef __cplusplus
}
#endif
#endif
