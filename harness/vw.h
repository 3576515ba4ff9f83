/*
 * Interposition layer: the external symbols of the library's object files are
 * renamed (objcopy --redefine-sym foo=vw_foo) to the functions of vw.c, which
 * account for memory, inject failures, cut i/o short, virtualise timers, and
 * (when the scheduler is on) control the interleaving of threads.
 */
#ifndef VW_H
#define VW_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

#define VW_CALLS(X) \
	X(malloc) X(calloc) X(realloc) X(strdup) X(free) X(asprintf) \
	X(dup) X(close) X(read) X(write) X(readv) X(writev) X(send) X(recv) \
	X(sendto) X(recvfrom) X(sendmsg) X(recvmsg) X(socket) X(bind) X(listen) \
	X(accept) X(accept4) X(connect) X(shutdown) X(getsockname) X(getpeername) \
	X(getsockopt) X(setsockopt) X(fcntl) X(pipe) X(pipe2) X(eventfd) \
	X(epoll_create) X(epoll_create1) X(epoll_ctl) X(epoll_wait) X(poll) \
	X(timerfd_create) X(timerfd_settime) X(timer_create) X(timer_settime) \
	X(timer_delete) X(chmod) X(unlink) X(sigaction) X(clock_gettime) \
	X(pthread_create) X(pthread_join) X(pthread_mutex_init) \
	X(pthread_mutex_destroy) X(pthread_mutex_lock) X(pthread_mutex_unlock) \
	X(pthread_cond_init) X(pthread_cond_destroy) X(pthread_cond_signal) \
	X(pthread_cond_broadcast) X(pthread_cond_wait) X(pthread_cond_timedwait) \
	X(getaddrinfo) X(freeaddrinfo) X(eventfd_read) X(eventfd_write) \
	X(strndup) X(vasprintf) X(ppoll) X(dup3) X(pthread_mutex_trylock) \
	X(timerfd_gettime) X(timer_gettime)

enum vw_call {
#define X(n) VW_##n,
	VW_CALLS(X)
#undef X
	VW_NCALLS
};
extern const char *const vw_names[];

/* Live library allocations and descriptors open in the process */
extern long vw_nalloc;
int vw_nfds(void);
int vw_pthreads(void);		/* live library threads */
int vw_nsync(void);		/* mutexes + conds initialised, not destroyed */
int vw_ntimers(void);		/* posix timers created, not deleted */
int vw_naddrinfo(void);

/*
 * Fault injection: the n-th (1-based) fallible call made by the library from
 * now on whose bit is in the mask fails with the given errno (0: its default
 * errno), and the following `more` ones as well (-1: all).
 */
void vw_fault_arm(long n, int err, uint64_t mask, int more);
void vw_fault_disarm(void);
extern long vw_fault_seen;	/* fallible calls seen since armed */
extern long vw_fault_done;	/* failures injected since armed */
extern int vw_fault_call;	/* last call that was made to fail */

/*
 * Hook called before i/o on descriptors. It may shorten *len or return an
 * errno value to fail the call, or -1 to make it return 0 (end of file).
 */
extern int (*vw_pre)(enum vw_call call, int fd, size_t *len);
/* Called after i/o with its result */
/* address given to or returned by the call in vw_pre and vw_post */
struct sockaddr;
extern const struct sockaddr *vw_addr;
extern void (*vw_post)(enum vw_call call, int fd, const void *buf, ssize_t res);
/* Called by virtual timers when set (virtual time, in ms) */
extern void (*vw_timer_set)(int vid, uint32_t delay, uint32_t period);

/* Virtual timers. vid: creation index */
extern int vw_vtimers;		/* virtual timers on */
extern uint64_t vw_now;		/* virtual time, ms */
int vw_timer_fire(int vid);	/* 1 expiration if armed; returns 1 if fired */
int vw_timer_armed(int vid);
int64_t vw_timer_expiry(int vid);
int vw_timer_next(int64_t *expiry);	/* vid of first to expire, or -1 */
int vw_timer_of_fd(int fd);
int vw_timer_count(void);

/* Virtual descriptor blocking wait: poll/epoll_wait never block when set */
extern int vw_noblock;
extern int vw_wait_timeout;	/* last timeout asked by the library */

/* Controlled scheduler */
extern int vw_sched_on;
void vw_sched_start(uint64_t seed, const char *choices, int mode);
void vw_sched_stop(void);
int vw_spawn(void (*fn)(void *), void *arg);
void vw_sched_join_all(void);
void vw_point(void);		/* scheduling point */
void vw_yield(void);		/* until no other thread can run */
extern int vw_mem_period;	/* scheduling point at 1 of n memory accesses (0: none) */
int vw_self(void);
void vw_advance(uint64_t ms);	/* advance virtual time */
extern int vw_deadlock;
extern uint64_t vw_steps;

void vw_free(void *p);
#endif
