/* Cooperative scheduler for two threads inside the module under test.
 *
 * Exactly one of the two threads runs at a time. Control may pass where the interpreter lock is given up or about to be taken again, at
 * every machine instruction in between (the region is run under the trap flag), and at the boundaries of operations (sched_point, called
 * by the explorer). These points are numbered in the order in which they occur; the plan says at which of them control passes. */
#define _GNU_SOURCE
#include <Python.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <ucontext.h>

#define EXP __attribute__((visibility("default")))

static sem_t sems[3];                  /* two threads and the explorer */
static __thread int tid = -1;
static volatile int finished[2];
static volatile long npoints, nregions, nsteps;
static long plan[8];
static int nplan;
static long stride = 1;
static long cap;                       /* stop stepping after so many instructions */
static volatile int ready;
static __thread volatile int stepping;

static void take(int i) {
    while (sem_wait(&sems[i]) != 0 && errno == EINTR) {}
}

static void point(void) {
    long k = npoints++;
    for (int i = 0; i < nplan; i++) {
        if (plan[i] == k && !finished[1 - tid]) {
            sem_post(&sems[1 - tid]);
            take(tid);
            return;
        }
    }
}

static void on_trap(int sig, siginfo_t *info, void *ctx) {
    (void) sig; (void) info;
    if (tid < 0 || !stepping) return;
    if (nsteps >= cap) {
        ((ucontext_t *) ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        stepping = 0;
        return;
    }
    if (++nsteps % stride == 0) {
        int e = errno;
        point();
        errno = e;
    }
}

static inline void trap_on(void) {
    __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

static inline void trap_off(void) {
    __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

EXP void sched_setup(const long *p, int n, long str, long steps) {
    for (int i = 0; i < 3; i++) {
        if (ready) sem_destroy(&sems[i]);
        sem_init(&sems[i], 0, 0);
    }
    if (!ready) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = on_trap;
        sa.sa_flags = SA_SIGINFO | SA_RESTART;
        sigaction(SIGTRAP, &sa, NULL);
    }
    ready = 1;
    finished[0] = finished[1] = 0;
    npoints = nregions = nsteps = 0;
    nplan = n > 8 ? 8 : n;
    for (int i = 0; i < nplan; i++) plan[i] = p[i];
    stride = str;
    cap = steps;
}

EXP void sched_enter(int i) {
    tid = i;
    take(i);
}

EXP void sched_point(void) { point(); }

EXP void sched_exit(void) {
    int me = tid;
    tid = -1;
    finished[me] = 1;
    sem_post(&sems[finished[1 - me] ? 2 : 1 - me]);
}

/* runs both threads to their end; the first one to go is given */
EXP void sched_run(int first) {
    sem_post(&sems[first]);
    take(2);
}

EXP long sched_points(void) { return npoints; }
EXP long sched_regions(void) { return nregions; }
EXP long sched_steps(void) { return nsteps; }

PyThreadState *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState *);
void __real_PyEval_ReleaseThread(PyThreadState *);
void __real_PyEval_AcquireThread(PyThreadState *);

static void left(void) {
    if (tid < 0) return;
    nregions++;
    point();
    stepping = 1;
    trap_on();
}

static void back(void) {
    trap_off();
    if (tid < 0) return;
    stepping = 0;
    point();
}

PyThreadState *__wrap_PyEval_SaveThread(void) {
    PyThreadState *ts = __real_PyEval_SaveThread();
    left();
    return ts;
}

void __wrap_PyEval_RestoreThread(PyThreadState *ts) {
    back();
    __real_PyEval_RestoreThread(ts);
}

void __wrap_PyEval_ReleaseThread(PyThreadState *ts) {
    __real_PyEval_ReleaseThread(ts);
    left();
}

void __wrap_PyEval_AcquireThread(PyThreadState *ts) {
    back();
    __real_PyEval_AcquireThread(ts);
}
