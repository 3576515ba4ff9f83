#include "vw.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

const char *const vw_names[] = {
#define X(n) #n,
	VW_CALLS(X)
#undef X
	NULL
};

long vw_nalloc;
long vw_fault_seen, vw_fault_done;
int vw_fault_call = -1;
static long fault_n;
static int fault_err, fault_more;
static uint64_t fault_mask;
int (*vw_pre)(enum vw_call call, int fd, size_t *len);
void (*vw_post)(enum vw_call call, int fd, const void *buf, ssize_t res);
void (*vw_timer_set)(int vid, uint32_t delay, uint32_t period);
const struct sockaddr *vw_addr;
int vw_vtimers, vw_noblock, vw_wait_timeout;
uint64_t vw_now;
static int naddrinfo;

int vw_naddrinfo(void) { return naddrinfo; }

int vw_nfds(void)
{
	int n = 0, fd;
	for (fd = 0; fd < 512; fd++)
		n += fcntl(fd, F_GETFD) >= 0;
	return n;
}

void vw_fault_arm(long n, int err, uint64_t mask, int more)
{
	vw_fault_seen = vw_fault_done = 0;
	vw_fault_call = -1;
	fault_n = n;
	fault_err = err;
	fault_mask = mask;
	fault_more = more;
}

void vw_fault_disarm(void)
{
	fault_n = 0;
	fault_mask = 0;
}

static int dflt_errno(enum vw_call c)
{
	switch (c) {
	case VW_malloc: case VW_calloc: case VW_realloc: case VW_strdup:
	case VW_asprintf: case VW_strndup: case VW_vasprintf: return ENOMEM;
	case VW_dup: case VW_dup3: case VW_socket: case VW_accept: case VW_accept4:
	case VW_pipe: case VW_pipe2: case VW_eventfd: case VW_epoll_create:
	case VW_epoll_create1: case VW_timerfd_create: return EMFILE;
	case VW_epoll_ctl: return ENOMEM;
	case VW_epoll_wait: case VW_poll: return EINTR;
	case VW_timer_create: case VW_pthread_create: return EAGAIN;
	case VW_connect: return ECONNREFUSED;
	case VW_bind: return EADDRINUSE;
	case VW_getaddrinfo: return EAI_MEMORY;
	case VW_read: case VW_recv: case VW_recvmsg: case VW_recvfrom: return ECONNRESET;
	case VW_write: case VW_send: case VW_sendmsg: case VW_sendto: return EPIPE;
	default: return EINVAL;
	}
}

/* returns 0 or the errno to fail with */
static int hit(enum vw_call c)
{
	vw_point();
	if (c < 64 ? !(fault_mask & (1ull << c)) : fault_mask != ~0ull)
		return 0;
	vw_fault_seen++;
	if (fault_n > 0 && vw_fault_seen >= fault_n &&
			(fault_more < 0 || vw_fault_seen <= fault_n + fault_more)) {
		vw_fault_done++;
		vw_fault_call = c;
		return fault_err ? fault_err : dflt_errno(c);
	}
	return 0;
}
#define FAIL(c) do { int e_ = hit(VW_##c); if (e_) { errno = e_; return -1; } } while (0)

/* memory: never a scheduling point (private to a thread) */
static int hitm(enum vw_call c)
{
	int on = vw_sched_on, e;
	vw_sched_on = 0;
	e = hit(c);
	vw_sched_on = on;
	return e;
}
#define FAILM(c) do { int e_ = hitm(VW_##c); if (e_) { errno = e_; return NULL; } } while (0)

static void *got(void *p) { if (p) __sync_add_and_fetch(&vw_nalloc, 1); return p; }
/* allocated memory is filled with a pattern so that use of uninitialised
 * memory shows up the same way on each run */
void *vw_malloc(size_t n)
{
	void *p;
	FAILM(malloc);
	p = got(malloc(n));
	if (p)
		memset(p, 0xa5, n);
	return p;
}
void *vw_calloc(size_t a, size_t b) { FAILM(calloc); return got(calloc(a, b)); }
void *vw_realloc(void *p, size_t n)
{
	void *r;
	FAILM(realloc);
	r = realloc(p, n);
	if (p == NULL && r != NULL)
		__sync_add_and_fetch(&vw_nalloc, 1);
	else if (p != NULL && r == NULL && n == 0)
		__sync_sub_and_fetch(&vw_nalloc, 1);
	return r;
}
char *vw_strdup(const char *s) { FAILM(strdup); return got(strdup(s)); }
char *vw_strndup(const char *s, size_t n) { FAILM(strndup); return got(strndup(s, n)); }
int vw_vasprintf(char **p, const char *f, va_list ap)
{
	int r, e = hitm(VW_vasprintf);
	if (e) {
		errno = e;
		return -1;
	}
	r = vasprintf(p, f, ap);
	if (r >= 0)
		got(*p);
	return r;
}
int vw_asprintf(char **p, const char *f, ...)
{
	va_list ap;
	int r, e = hitm(VW_asprintf);
	if (e) {
		*p = (char *)(intptr_t)0x11;	/* undefined in case of failure */
		errno = e;
		return -1;
	}
	va_start(ap, f);
	r = vasprintf(p, f, ap);
	va_end(ap);
	if (r >= 0)
		got(*p);
	return r;
}
void vw_free(void *p) { if (p) __sync_sub_and_fetch(&vw_nalloc, 1); free(p); }

int vw_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	int e = hit(VW_getaddrinfo), res;
	if (e)
		return e;
	res = getaddrinfo(n, s, h, r);
	if (res == 0)
		naddrinfo++;
	return res;
}
void vw_freeaddrinfo(struct addrinfo *a) { naddrinfo--; freeaddrinfo(a); }

/* virtual timers */
struct vt {
	int used, kind, fd;		/* kind 0: timerfd, 1: posix */
	int armed;
	uint64_t expiry, period;
	void *sival;
	int signo;
	int pending;
};
#define MAXVT 4096
static struct vt vts[MAXVT];
static int nvt, nposix;
static void (*vt_handler)(int, siginfo_t *, void *);

int vw_ntimers(void) { return nposix; }
int vw_timer_count(void) { return nvt; }

int vw_timer_of_fd(int fd)
{
	int i;
	for (i = nvt - 1; i >= 0; i--)
		if (vts[i].used && vts[i].kind == 0 && vts[i].fd == fd)
			return i;
	return -1;
}
int vw_timer_armed(int v) { return v >= 0 && v < nvt && vts[v].used && vts[v].armed; }
int64_t vw_timer_expiry(int v) { return vw_timer_armed(v) ? (int64_t)vts[v].expiry : -1; }
int vw_timer_next(int64_t *expiry)
{
	int i, b = -1;
	for (i = 0; i < nvt; i++)
		if (vw_timer_armed(i) && (b < 0 || vts[i].expiry < vts[b].expiry))
			b = i;
	if (b >= 0 && expiry)
		*expiry = (int64_t)vts[b].expiry;
	return b;
}
int vw_timer_fire(int v)
{
	uint64_t one = 1;
	siginfo_t si;
	if (!vw_timer_armed(v))
		return 0;
	if (vts[v].expiry > vw_now)
		vw_now = vts[v].expiry;
	if (vts[v].period == 0)
		vts[v].armed = 0;
	else
		vts[v].expiry += vts[v].period;
	if (vts[v].kind == 0) {
		if (write(vts[v].fd, &one, sizeof(one)) < 0)
			abort();
	} else if (vt_handler) {
		memset(&si, 0, sizeof(si));
		si.si_signo = vts[v].signo;
		si.si_code = SI_TIMER;
		si.si_value.sival_ptr = vts[v].sival;
		(*vt_handler)(vts[v].signo, &si, NULL);
	}
	return 1;
}
static void vt_set(int v, const struct itimerspec *n)
{
	/* sub-millisecond parts are rounded up: 1 ns is an immediate timer */
	uint64_t d = (uint64_t)n->it_value.tv_sec * 1000 + (uint64_t)(n->it_value.tv_nsec + 999999) / 1000000;
	uint64_t p = (uint64_t)n->it_interval.tv_sec * 1000 + (uint64_t)(n->it_interval.tv_nsec + 999999) / 1000000;
	int on = n->it_value.tv_sec != 0 || n->it_value.tv_nsec != 0;
	uint64_t junk;
	vts[v].armed = on;
	vts[v].expiry = vw_now + d;
	vts[v].period = on ? p : 0;
	if (vts[v].kind == 0)
		if (read(vts[v].fd, &junk, sizeof(junk)) < 0) { /* nothing pending */ }
	if (vw_timer_set)
		(*vw_timer_set)(v, on ? (uint32_t)d : 0, on ? (uint32_t)p : 0);
}
static void vt_get(int v, struct itimerspec *o)
{
	uint64_t d = vts[v].armed && vts[v].expiry > vw_now ? vts[v].expiry - vw_now : vts[v].armed ? 1 : 0;
	memset(o, 0, sizeof(*o));
	o->it_value.tv_sec = (time_t)(d / 1000);
	o->it_value.tv_nsec = (long)(d % 1000) * 1000000;
	o->it_interval.tv_sec = (time_t)(vts[v].period / 1000);
	o->it_interval.tv_nsec = (long)(vts[v].period % 1000) * 1000000;
}
static int badts(const struct timespec *t)
{
	return t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000;
}
int vw_timerfd_create(int c, int f)
{
	int fd;
	FAIL(timerfd_create);
	if (!vw_vtimers)
		return timerfd_create(c, f);
	fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
	if (fd >= 0 && nvt < MAXVT) {
		memset(&vts[nvt], 0, sizeof(vts[0]));
		vts[nvt].used = 1;
		vts[nvt].fd = fd;
		nvt++;
	}
	return fd;
}
int vw_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
	int v;
	FAIL(timerfd_settime);
	if (!vw_vtimers)
		return timerfd_settime(fd, fl, n, o);
	v = vw_timer_of_fd(fd);
	if (v < 0 || badts(&n->it_value) || badts(&n->it_interval)) {
		errno = EINVAL;
		return -1;
	}
	if (o)
		vt_get(v, o);
	vt_set(v, n);
	return 0;
}
int vw_timer_create(clockid_t c, struct sigevent *se, timer_t *t)
{
	int r;
	FAIL(timer_create);
	if (!vw_vtimers) {
		r = timer_create(c, se, t);
		nposix += r == 0;
		return r;
	}
	if (nvt >= MAXVT)
		abort();
	memset(&vts[nvt], 0, sizeof(vts[0]));
	vts[nvt].used = 1;
	vts[nvt].kind = 1;
	vts[nvt].sival = se->sigev_value.sival_ptr;
	vts[nvt].signo = se->sigev_signo;
	/* like the kernel, the first timer of the process has id 0 */
	*t = (timer_t)(intptr_t)nvt;
	nvt++;
	nposix++;
	return 0;
}
int vw_timer_settime(timer_t t, int fl, const struct itimerspec *n, struct itimerspec *o)
{
	int v = (int)(intptr_t)t;
	FAIL(timer_settime);
	if (!vw_vtimers)
		return timer_settime(t, fl, n, o);
	if (v < 0 || v >= nvt || !vts[v].used || vts[v].kind != 1 ||
			badts(&n->it_value) || badts(&n->it_interval)) {
		errno = EINVAL;
		return -1;
	}
	if (o)
		vt_get(v, o);
	vt_set(v, n);
	return 0;
}
int vw_timerfd_gettime(int fd, struct itimerspec *o)
{
	int v;
	if (!vw_vtimers)
		return timerfd_gettime(fd, o);
	v = vw_timer_of_fd(fd);
	if (v < 0) {
		errno = EINVAL;
		return -1;
	}
	vt_get(v, o);
	return 0;
}
int vw_timer_gettime(timer_t t, struct itimerspec *o)
{
	int v = (int)(intptr_t)t;
	if (!vw_vtimers)
		return timer_gettime(t, o);
	if (v < 0 || v >= nvt || !vts[v].used || vts[v].kind != 1) {
		errno = EINVAL;
		return -1;
	}
	vt_get(v, o);
	return 0;
}
int vw_timer_delete(timer_t t)
{
	int v = (int)(intptr_t)t;
	if (!vw_vtimers) {
		nposix--;
		return timer_delete(t);
	}
	if (v < 0 || v >= nvt || !vts[v].used || vts[v].kind != 1) {
		errno = EINVAL;
		return -1;
	}
	vts[v].used = vts[v].armed = 0;
	nposix--;
	return 0;
}
int vw_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	FAIL(sigaction);
	if (vw_vtimers && n && (n->sa_flags & SA_SIGINFO)) {
		vt_handler = n->sa_sigaction;
		return 0;
	}
	return sigaction(s, n, o);
}

/* descriptors and i/o */
#define PRE(c, fd, lenp) do { \
		int e_ = hit(VW_##c); \
		if (!e_ && vw_pre) e_ = (*vw_pre)(VW_##c, fd, lenp); \
		if (e_ < 0) { if (vw_post) (*vw_post)(VW_##c, fd, NULL, 0); return 0; } \
		if (e_) { if (vw_post) { (*vw_post)(VW_##c, fd, NULL, -e_); } errno = e_; return -1; } \
	} while (0)
#define POST(c, fd, buf, r) do { \
		int s_ = errno; \
		if (vw_post) (*vw_post)(VW_##c, fd, buf, (r) < 0 ? -(ssize_t)s_ : (r)); \
		errno = s_; \
	} while (0)

int vw_dup(int fd) { FAIL(dup); return dup(fd); }
int vw_dup3(int a, int b, int f) { FAIL(dup3); return dup3(a, b, f); }
int vw_close(int fd)
{
	int v, r, s;
	vw_point();
	if (vw_vtimers && (v = vw_timer_of_fd(fd)) >= 0)
		vts[v].used = vts[v].armed = 0;
	r = close(fd);
	s = errno;
	if (vw_post)
		(*vw_post)(VW_close, fd, NULL, r < 0 ? -s : 0);
	errno = s;
	return r;
}
static void wait_fd(int fd, short ev);
ssize_t vw_read(int fd, void *b, size_t n)
{
	ssize_t r;
	PRE(read, fd, &n);
	wait_fd(fd, POLLIN);
	r = read(fd, b, n);
	POST(read, fd, b, r);
	return r;
}
ssize_t vw_write(int fd, const void *b, size_t n)
{
	ssize_t r;
	PRE(write, fd, &n);
	wait_fd(fd, POLLOUT);
	r = write(fd, b, n);
	POST(write, fd, b, r);
	return r;
}
static size_t iovlen(const struct iovec *v, size_t n)
{
	size_t i, t = 0;
	for (i = 0; i < n; i++)
		t += v[i].iov_len;
	return t;
}
/* shorten an io vector to n bytes */
static size_t iovcut(struct iovec *o, const struct iovec *v, size_t cnt, size_t n)
{
	size_t i, k = 0;
	for (i = 0; i < cnt && k < 16; i++) {
		o[k] = v[i];
		if (o[k].iov_len >= n) {
			o[k].iov_len = n;
			return k + 1;
		}
		n -= o[k].iov_len;
		k++;
	}
	return k;
}
ssize_t vw_readv(int fd, const struct iovec *v, int c)
{
	struct iovec o[16];
	size_t n = iovlen(v, (size_t)c), k;
	ssize_t r;
	PRE(readv, fd, &n);
	k = iovcut(o, v, (size_t)c, n);
	r = readv(fd, o, (int)k);
	POST(readv, fd, k ? o[0].iov_base : NULL, r);
	return r;
}
ssize_t vw_writev(int fd, const struct iovec *v, int c)
{
	struct iovec o[16];
	size_t n = iovlen(v, (size_t)c), k;
	ssize_t r;
	PRE(writev, fd, &n);
	k = iovcut(o, v, (size_t)c, n);
	r = writev(fd, o, (int)k);
	POST(writev, fd, k ? o[0].iov_base : NULL, r);
	return r;
}
ssize_t vw_send(int fd, const void *b, size_t n, int f)
{
	ssize_t r;
	PRE(send, fd, &n);
	r = send(fd, b, n, f);
	POST(send, fd, b, r);
	return r;
}
ssize_t vw_recv(int fd, void *b, size_t n, int f)
{
	ssize_t r;
	PRE(recv, fd, &n);
	r = recv(fd, b, n, f);
	POST(recv, fd, b, r);
	return r;
}
ssize_t vw_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
	ssize_t r;
	vw_addr = a;
	PRE(sendto, fd, &n);
	r = sendto(fd, b, n, f, a, l);
	POST(sendto, fd, b, r);
	return r;
}
ssize_t vw_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{
	ssize_t r;
	PRE(recvfrom, fd, &n);
	r = recvfrom(fd, b, n, f, a, l);
	vw_addr = a;
	POST(recvfrom, fd, b, r);
	return r;
}
ssize_t vw_sendmsg(int fd, const struct msghdr *m, int f)
{
	struct iovec o[16];
	struct msghdr h = *m;
	size_t n = iovlen(m->msg_iov, m->msg_iovlen);
	ssize_t r;
	vw_addr = m->msg_name;
	PRE(sendmsg, fd, &n);
	h.msg_iovlen = iovcut(o, m->msg_iov, m->msg_iovlen, n);
	h.msg_iov = o;
	r = sendmsg(fd, &h, f);
	POST(sendmsg, fd, h.msg_iovlen ? o[0].iov_base : NULL, r);
	return r;
}
ssize_t vw_recvmsg(int fd, struct msghdr *m, int f)
{
	struct iovec o[16], *sv = m->msg_iov;
	size_t sl = m->msg_iovlen;
	size_t n = iovlen(m->msg_iov, m->msg_iovlen);
	ssize_t r;
	PRE(recvmsg, fd, &n);
	m->msg_iovlen = iovcut(o, sv, sl, n);
	m->msg_iov = o;
	r = recvmsg(fd, m, f);
	m->msg_iov = sv;
	m->msg_iovlen = sl;
	vw_addr = m->msg_name;
	POST(recvmsg, fd, sl ? sv[0].iov_base : NULL, r);
	return r;
}
int vw_socket(int d, int t, int p) { int r; PRE(socket, -1, NULL); r = socket(d, t, p); POST(socket, r, NULL, r); return r; }
int vw_bind(int fd, const struct sockaddr *a, socklen_t l) { int r; vw_addr = a; PRE(bind, fd, NULL); r = bind(fd, a, l); POST(bind, fd, NULL, r); return r; }
int vw_listen(int fd, int n) { int r; PRE(listen, fd, NULL); r = listen(fd, n); POST(listen, fd, NULL, r); return r; }
int vw_accept(int fd, struct sockaddr *a, socklen_t *l) { int r; PRE(accept, fd, NULL); r = accept(fd, a, l); POST(accept, fd, NULL, r); return r; }
int vw_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r; PRE(accept4, fd, NULL); r = accept4(fd, a, l, f); POST(accept4, fd, NULL, r); return r; }
int vw_connect(int fd, const struct sockaddr *a, socklen_t l) { int r; vw_addr = a; PRE(connect, fd, NULL); r = connect(fd, a, l); POST(connect, fd, NULL, r); return r; }
int vw_shutdown(int fd, int h) { int r; size_t hh = (size_t)h; PRE(shutdown, fd, &hh); r = shutdown(fd, h); POST(shutdown, fd, NULL, r); return r; }
int vw_getsockname(int fd, struct sockaddr *a, socklen_t *l) { FAIL(getsockname); return getsockname(fd, a, l); }
int vw_getpeername(int fd, struct sockaddr *a, socklen_t *l) { int r; PRE(getpeername, fd, NULL); r = getpeername(fd, a, l); POST(getpeername, fd, NULL, r); return r; }
int vw_getsockopt(int fd, int a, int b, void *p, socklen_t *l) { PRE(getsockopt, fd, NULL); return getsockopt(fd, a, b, p, l); }
int vw_setsockopt(int fd, int a, int b, const void *p, socklen_t l) { FAIL(setsockopt); return setsockopt(fd, a, b, p, l); }
int vw_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	FAIL(fcntl);
	return fcntl(fd, cmd, a);
}
int vw_pipe(int p[2]) { FAIL(pipe); return pipe(p); }
int vw_pipe2(int p[2], int f) { FAIL(pipe2); return pipe2(p, f); }
int vw_eventfd(unsigned v, int f) { FAIL(eventfd); return eventfd(v, f); }
int vw_eventfd_read(int fd, eventfd_t *v) { return vw_read(fd, v, 8) == 8 ? 0 : -1; }
int vw_eventfd_write(int fd, eventfd_t v) { return vw_write(fd, &v, 8) == 8 ? 0 : -1; }
int vw_epoll_create(int n) { FAIL(epoll_create); return epoll_create(n); }
int vw_epoll_create1(int f) { FAIL(epoll_create1); return epoll_create1(f); }
int vw_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { int r; PRE(epoll_ctl, fd, NULL); r = epoll_ctl(e, op, fd, ev); POST(epoll_ctl, fd, NULL, r); return r; }
int vw_chmod(const char *p, mode_t m) { FAIL(chmod); return chmod(p, m); }
int vw_unlink(const char *p) { FAIL(unlink); return unlink(p); }

/* ---- controlled scheduler ------------------------------------------- */
int vw_sched_on, vw_deadlock;
uint64_t vw_steps;
enum { T_FREE, T_RUN, T_MUTEX, T_COND, T_FD, T_EPOLL, T_JOIN, T_DONE, T_YIELD };
struct thr {
	int st;
	sem_t sem;
	pthread_t tid;
	void *obj;		/* mutex, cond, pollfds or thread waited for */
	nfds_t nfds;
	int64_t deadline;	/* virtual ms, -1: none */
	int timedout;
	void *(*fn)(void *);
	void (*fn2)(void *);
	void *arg;
	int lib;
};
#define MAXT 64
static struct thr thrs[MAXT];
static int nthr;
static __thread int self;
static uint64_t rng;
static const char *choices;
static int choosemode;
struct obj { void *p; int owner; int kind; };
static struct obj objs[256];
static int nobj;
static int nlibthr, nsyncobj;
static int lastrun;

int vw_self(void) { return self; }
int vw_pthreads(void) { return nlibthr; }
int vw_nsync(void) { return nsyncobj; }

static uint64_t rnd(void)
{
	rng ^= rng << 13;
	rng ^= rng >> 7;
	rng ^= rng << 17;
	return rng;
}
static struct obj *objof(void *p, int kind)
{
	int i;
	for (i = 0; i < nobj; i++)
		if (objs[i].p == p)
			return &objs[i];
	if (nobj >= 256)
		abort();
	objs[nobj].p = p;
	objs[nobj].owner = -1;
	objs[nobj].kind = kind;
	return &objs[nobj++];
}
static void objdel(void *p)
{
	int i;
	for (i = 0; i < nobj; i++)
		if (objs[i].p == p) {
			objs[i] = objs[--nobj];
			return;
		}
}
static int enabled(int i)
{
	struct thr *t = &thrs[i];
	switch (t->st) {
	case T_RUN: return 1;
	case T_MUTEX: return objof(t->obj, 0)->owner < 0;
	case T_FD: return poll(t->obj, t->nfds, 0) > 0 ||
			(t->deadline >= 0 && (int64_t)vw_now >= t->deadline);
	case T_COND: return t->deadline >= 0 && (int64_t)vw_now >= t->deadline;
	case T_JOIN: return thrs[(int)(intptr_t)t->obj].st == T_DONE;
	default: return 0;
	}
}
static int pick(void)
{
	int i, n = 0, en[MAXT], k;
	int64_t best;
again:
	n = 0;
	for (i = 0; i < nthr; i++)
		if (enabled(i))
			en[n++] = i;
	if (n == 0)
		for (i = 0; i < nthr; i++)
			if (thrs[i].st == T_YIELD)
				en[n++] = i;
	if (n == 0) {
		/* let virtual time pass up to the first deadline */
		best = -1;
		for (i = 0; i < nthr; i++)
			if ((thrs[i].st == T_COND || thrs[i].st == T_FD) && thrs[i].deadline >= 0 &&
					(best < 0 || thrs[i].deadline < best))
				best = thrs[i].deadline;
		if (best < 0)
			return -1;
		vw_now = (uint64_t)best;
		goto again;
	}
	vw_steps++;
	if (choices && *choices) {
		k = (*choices++ - '0') % n;
		return en[k];
	}
	if (choosemode > 0) {
		/* stay on the same thread most of the time */
		for (i = 0; i < n; i++)
			if (en[i] == lastrun && (int)(rnd() % 16) >= choosemode)
				return lastrun;
	}
	return en[rnd() % (uint64_t)n];
}
static void switch_to(int me)
{
	int n = pick();
	if (n < 0) {
		vw_deadlock = 1;
		/* report the deadlock and stop: nobody can run */
		extern void vw_on_deadlock(void);
		vw_on_deadlock();
		_exit(97);
	}
	lastrun = n;
	if (n == me) {
		thrs[n].st = T_RUN;
		return;
	}
	sem_post(&thrs[n].sem);
	if (thrs[me].st != T_DONE)
		while (sem_wait(&thrs[me].sem) < 0)
			;
	if (thrs[me].st != T_DONE)
		thrs[me].st = T_RUN;
}
void vw_point(void)
{
	if (vw_sched_on)
		switch_to(self);
}
static void block(int st, void *obj, int64_t deadline);
void vw_yield(void)
{
	if (vw_sched_on)
		block(T_YIELD, NULL, -1);
}
/* memory accesses of the library (clang -fsanitize-coverage=trace-loads,trace-stores) */
int vw_mem_period;
static void mempoint(const void *p)
{
	char here;
	/* the stack is private */
	if (!vw_sched_on || vw_mem_period == 0 ||
			((const char *)p < &here + 65536 && (const char *)p > &here - 65536))
		return;
	if (rnd() % (uint64_t)vw_mem_period == 0)
		vw_point();
}
#define MEMP(n) \
	void __sanitizer_cov_load##n(const void *p) { mempoint(p); } \
	void __sanitizer_cov_store##n(const void *p) { mempoint(p); }
MEMP(1) MEMP(2) MEMP(4) MEMP(8) MEMP(16)
static void block(int st, void *obj, int64_t deadline)
{
	thrs[self].st = st;
	thrs[self].obj = obj;
	thrs[self].deadline = deadline;
	switch_to(self);
}
void vw_sched_start(uint64_t seed, const char *ch, int mode)
{
	memset(thrs, 0, sizeof(thrs));
	rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	choices = ch;
	choosemode = mode;
	nthr = 1;
	self = 0;
	lastrun = 0;
	thrs[0].st = T_RUN;
	sem_init(&thrs[0].sem, 0, 0);
	vw_sched_on = 1;
}
static void *trampoline(void *a)
{
	int id = (int)(intptr_t)a;
	self = id;
	while (sem_wait(&thrs[id].sem) < 0)
		;
	thrs[id].st = T_RUN;
	if (thrs[id].fn2)
		(*thrs[id].fn2)(thrs[id].arg);
	else
		(*thrs[id].fn)(thrs[id].arg);
	thrs[id].st = T_DONE;
	switch_to(id);
	return NULL;
}
static int spawn(void *(*fn)(void *), void (*fn2)(void *), void *arg, pthread_t *out)
{
	int id;
	if (nthr >= MAXT)
		abort();
	id = nthr;
	memset(&thrs[id], 0, sizeof(thrs[id]));
	sem_init(&thrs[id].sem, 0, 0);
	thrs[id].fn = fn;
	thrs[id].fn2 = fn2;
	thrs[id].arg = arg;
	thrs[id].st = T_RUN;
	nthr++;
	if (pthread_create(&thrs[id].tid, NULL, trampoline, (void *)(intptr_t)id) != 0)
		abort();
	if (out)
		*out = thrs[id].tid;
	return id;
}
int vw_spawn(void (*fn)(void *), void *arg) { return spawn(NULL, fn, arg, NULL); }
void vw_sched_join_all(void)
{
	int i;
	for (i = 1; i < nthr; i++) {
		if (thrs[i].lib)
			continue;
		block(T_JOIN, (void *)(intptr_t)i, -1);
	}
}
void vw_sched_stop(void)
{
	vw_sched_on = 0;
}
void vw_advance(uint64_t ms) { vw_now += ms; vw_point(); }

/* blocking i/o on a (blocking) descriptor under the scheduler */
static void wait_fd(int fd, short ev)
{
	struct pollfd p;
	if (!vw_sched_on)
		return;
	if (fcntl(fd, F_GETFL) & O_NONBLOCK)
		return;
	p.fd = fd;
	p.events = ev;
	if (poll(&p, 1, 0) > 0)
		return;
	thrs[self].nfds = 1;
	block(T_FD, &p, -1);
}
int vw_epoll_wait(int e, struct epoll_event *ev, int n, int to)
{
	struct pollfd p;
	int r;
	FAIL(epoll_wait);
	vw_wait_timeout = to;
	if (vw_pre) {
		int er = (*vw_pre)(VW_epoll_wait, e, NULL);
		if (er > 0) {
			errno = er;
			return -1;
		}
	}
	if (vw_sched_on && to != 0) {
		p.fd = e;
		p.events = POLLIN;
		thrs[self].nfds = 1;
		block(T_FD, &p, to < 0 ? -1 : (int64_t)vw_now + to);
		to = 0;
	}
	if (vw_noblock)
		to = 0;
	r = epoll_wait(e, ev, n, to);
	POST(epoll_wait, e, ev, r);
	return r;
}
int vw_poll(struct pollfd *p, nfds_t n, int to)
{
	int r;
	FAIL(poll);
	vw_wait_timeout = to;
	if (vw_pre) {
		int er = (*vw_pre)(VW_poll, -1, NULL);
		if (er > 0) {
			errno = er;
			return -1;
		}
	}
	if (vw_sched_on && to != 0) {
		thrs[self].nfds = n;
		block(T_FD, p, to < 0 ? -1 : (int64_t)vw_now + to);
		to = 0;
	}
	if (vw_noblock)
		to = 0;
	r = poll(p, n, to);
	POST(poll, -1, p, r);
	return r;
}
int vw_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s)
{
	return vw_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
int vw_clock_gettime(clockid_t c, struct timespec *ts)
{
	FAIL(clock_gettime);
	if (!vw_sched_on && !vw_vtimers)
		return clock_gettime(c, ts);
	ts->tv_sec = (time_t)(1000 + vw_now / 1000);
	ts->tv_nsec = (long)(vw_now % 1000) * 1000000;
	return 0;
}
#define FAILP(c) do { int e_ = hit(VW_##c); if (e_) return e_; } while (0)
int vw_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int r;
	FAILP(pthread_create);
	if (!vw_sched_on) {
		r = pthread_create(t, a, fn, arg);
		nlibthr += r == 0;
		return r;
	}
	r = spawn(fn, NULL, arg, t);
	thrs[r].lib = 1;
	nlibthr++;
	vw_point();
	return 0;
}
int vw_pthread_join(pthread_t t, void **ret)
{
	int i;
	nlibthr--;
	if (!vw_sched_on)
		return pthread_join(t, ret);
	for (i = 1; i < nthr; i++)
		if (thrs[i].tid == t && thrs[i].lib == 1) {
			if (thrs[i].st != T_DONE)
				block(T_JOIN, (void *)(intptr_t)i, -1);
			thrs[i].lib = 2;
			return pthread_join(t, ret);
		}
	return ESRCH;
}
int vw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	nsyncobj++;
	if (vw_sched_on)
		objof(m, 0)->owner = -1;
	return pthread_mutex_init(m, a);
}
int vw_pthread_mutex_destroy(pthread_mutex_t *m)
{
	nsyncobj--;
	objdel(m);
	return pthread_mutex_destroy(m);
}
/* a mutex or condition used after its destruction or before its initialisation
 * would go unnoticed here; the accounting of vw_nsync covers the pairing */
int vw_pthread_mutex_lock(pthread_mutex_t *m)
{
	struct obj *o;
	if (!vw_sched_on)
		return pthread_mutex_lock(m);
	vw_point();
	o = objof(m, 0);
	if (o->owner == self) {
		/* self deadlock on a non recursive mutex */
		block(T_COND, NULL, -1);
	}
	while (objof(m, 0)->owner >= 0)
		block(T_MUTEX, m, -1);
	objof(m, 0)->owner = self;
	return 0;
}
int vw_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!vw_sched_on)
		return pthread_mutex_trylock(m);
	vw_point();
	if (objof(m, 0)->owner >= 0)
		return EBUSY;
	objof(m, 0)->owner = self;
	return 0;
}
int vw_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!vw_sched_on)
		return pthread_mutex_unlock(m);
	objof(m, 0)->owner = -1;
	vw_point();
	return 0;
}
int vw_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	nsyncobj++;
	return pthread_cond_init(c, a);
}
int vw_pthread_cond_destroy(pthread_cond_t *c) { nsyncobj--; return pthread_cond_destroy(c); }
static int wake(pthread_cond_t *c, int all)
{
	int i;
	for (i = 0; i < nthr; i++)
		if (thrs[i].st == T_COND && thrs[i].obj == c) {
			/* one that could time out may have done so before the signal */
			if (!thrs[i].timedout && thrs[i].deadline >= 0 && (int64_t)vw_now >= thrs[i].deadline && (rnd() & 1))
				thrs[i].timedout = 1;
			if (thrs[i].timedout)
				continue;
			thrs[i].st = T_RUN;
			if (!all)
				break;
		}
	vw_point();
	return 0;
}
int vw_pthread_cond_signal(pthread_cond_t *c)
{
	return vw_sched_on ? wake(c, 0) : pthread_cond_signal(c);
}
int vw_pthread_cond_broadcast(pthread_cond_t *c)
{
	return vw_sched_on ? wake(c, 1) : pthread_cond_broadcast(c);
}
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
	int to = 0;
	objof(m, 0)->owner = -1;
	thrs[self].timedout = 0;
	thrs[self].st = T_COND;
	thrs[self].obj = c;
	thrs[self].deadline = deadline;
	/* woken by signal: st becomes T_RUN; by deadline: still T_COND when picked */
	{
		int n = pick();
		if (n < 0) {
			vw_deadlock = 1;
			extern void vw_on_deadlock(void);
			vw_on_deadlock();
			_exit(97);
		}
		lastrun = n;
		if (n != self) {
			sem_post(&thrs[n].sem);
			while (sem_wait(&thrs[self].sem) < 0)
				;
		}
		to = thrs[self].st == T_COND;
		thrs[self].st = T_RUN;
	}
	while (objof(m, 0)->owner >= 0)
		block(T_MUTEX, m, -1);
	objof(m, 0)->owner = self;
	return to ? ETIMEDOUT : 0;
}
int vw_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return vw_sched_on ? condwait(c, m, -1) : pthread_cond_wait(c, m);
}
int vw_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	if (!vw_sched_on)
		return pthread_cond_timedwait(c, m, ts);
	{
		int64_t d = ((int64_t)ts->tv_sec - 1000) * 1000 + (ts->tv_nsec + 999999) / 1000000;
		return condwait(c, m, d < 0 ? 0 : d);
	}
}
