/* Deterministic simulator: interface for the drivers and the TSan-callback shim. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

/* ---- scenario ---------------------------------------------------------- */
const char *sc_str(const char *key, const char *dflt);
long long sc_int(const char *key, long long dflt);
/* i-th value of a repeated key, NULL when there is none */
const char *sc_nth(const char *key, int i, size_t *len);

/* ---- scheduler --------------------------------------------------------- */
extern int sim_mt;               /* more than one live simulated thread (or step counting forced) */
extern uint64_t sim_steps;       /* monotone step counter: one per access / call point */
extern uint64_t sim_next_event;  /* step at which slow path must look at the schedule */
extern int sim_acc_mode;         /* 1: conflict-directed preemption, 2: access log, 3: both */
void sim_mem_event(void);                       /* sim_steps reached sim_next_event */
void sim_acc(uintptr_t a, unsigned size, int wr);  /* slow part of an access */
void sim_atomic_point(void);
void sim_point(int kind, uint64_t arg);         /* call point: hashed, may switch threads */
int  sim_self(void);                            /* simulated thread number, main is 0 */

/* ---- driver output ----------------------------------------------------- */
void aux_printf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void aux_write(const void *p, size_t n);
uint64_t sim_rng(void);          /* driver-side pseudo-random stream, from the scenario seed */
void sim_work(uint64_t n);       /* account n units of simulated CPU work */
uint64_t sim_vns(void);           /* simulated time so far, ns */
uint64_t sim_out_pos(void);      /* flush standard output, bytes written so far */
void sim_fatal(const char *fmt, ...);
void sim_stop(const char *why);   /* ends the run with the outcome 'budget' */

enum { PK_NONE, PK_CREATE, PK_JOIN, PK_LOCK, PK_UNLOCK, PK_THR_EXIT, PK_PRINT, PK_ALLOC, PK_FREE,
       PK_READ, PK_WRITE, PK_OPEN, PK_CLOCK, PK_DL, PK_USER, PK_COND, PK_YIELD, PK_SELF, PK_EXIT,
       PK_THR_START, PK_ATOMIC, PK_MISC };

/* program entry points */
int sut_smokerand_main(int argc, char **argv);
int sut_sr_speed_main(int argc, char **argv);
int sut_sr_tiny_main(int argc, char **argv);
int sut_test_syscrypto_main(int argc, char **argv);
int api_driver_main(int argc, char **argv);
int inst_driver_main(int argc, char **argv);
int unit_driver_main(int argc, char **argv);
#endif
