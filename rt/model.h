// StarPU model used both under the nsym executor and natively (replay).
#pragma once
#include "nsym.h"
#include <starpu.h>
extern "C" {
// scheduling: 0 = run at submission, 1 = deferred FIFO, 2 = deferred LIFO (latest ready task first),
// 3 = deferred, next ready task chosen by the explorer
extern int rt_order; extern int rt_pick_budget;
extern int rt_check_access;      // verify R buffers are not modified
extern int rt_redux;             // 1: REDUX accesses go to private accumulators; 2: and the first combination order is explored
extern int rt_acc_budget;        // how many accumulator choices are explored
extern int rt_symerr;            // refused submissions return a symbolic negative code
extern int rt_fail_at;           // >0: the n-th submission from now fails; 0 never
extern int rt_failed;            // how many submissions were made to fail
extern int rt_ntasks, rt_nsubmitted, rt_live; // executed tasks, submissions, registered handles
extern int rt_footprints;        // call footprint functions
void rt_run_all(void);
void rt_finish(void);            // everything drained, every handle unregistered
int rt_any_pending(void);
extern int rt_acquire_fail_at;    // >0: the n-th local acquisition from now fails
int rt_how(starpu_data_handle_t h);       // 0 registered, 1 unregistered, 2 unregistered without coherency, 3 lazily (submit)
int rt_acquired(starpu_data_handle_t h);  // local acquisitions in force
extern int rt_virtual;            // registered sizes may be symbolic: buffers of 64 bytes stand in for the storage
extern int rt_blas_exact;         // the norm of the numerical library does not overflow (obligations off inside it)
extern int rt_capture;            // the numerical library records its arguments instead of computing
extern int rt_ncap, rt_ncalls; extern int64_t rt_caps[64]; extern int rt_capcall[64]; extern const char*rt_capname[16]; extern int64_t rt_capptr[48];
void rt_cap_begin(const char*); void rt_cap(int64_t);
extern int64_t rt_copied;         // bytes copied by the last data copy (rt_virtual)
int64_t rt_size(starpu_data_handle_t h);
extern int rt_last_where;        // 'where' of the last inserted codelet
}
