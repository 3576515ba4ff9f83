/* Driver for what several threads do to a loop, and for the watchdog, under the
 * controlled scheduler: one thread runs at a time, the choice of the next one at
 * every system or synchronisation call, and at some memory accesses of the
 * library, is pseudo-random. Time is virtual. */
#include "tr.h"
#include "libpomp.h"
#include "pomp_priv.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define NE 4
#define NTH 6
#define NOP 64
static struct pomp_loop *L;
static struct pomp_evt *E[NE];
static char *prog[NTH][NOP];
static int nprog[NTH], nth, fdbase, instep;
static int li, ei;
static struct { char src[32]; char *cmds; int used; } act[128];
static int nact;

static void op(int th, char *line0);

static void actions(const char *src)
{
	int i;
	char *p, *q, *save;
	for (i = 0; i < nact; i++) {
		if (act[i].used || strcmp(act[i].src, src) != 0)
			continue;
		act[i].used = 1;
		save = strdup(act[i].cmds);
		for (p = save; p; p = q) {
			q = strchr(p, ';');
			if (q)
				*q++ = 0;
			op(0, p);
		}
		free(save);
		return;
	}
}
static void idle_cb(int cb, void *ud)
{
	char src[32];
	ev("cb");
	evs("k", "i");
	evi("th", vw_self());
	evi("cb", cb);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "i%d.%d", cb, (int)(intptr_t)ud);
	actions(src);
	ev("cbend");
	evend();
}
static void idle0(void *ud) { idle_cb(0, ud); }
static void idle1(void *ud) { idle_cb(1, ud); }
static pomp_idle_cb_t idles[] = { idle0, idle1 };
static void evt_cb(struct pomp_evt *e, void *ud)
{
	int i, k = -1;
	char src[32];
	for (i = 0; i < NE; i++)
		if (E[i] == e)
			k = i;
	ev("cb");
	evs("k", "e");
	evi("th", vw_self());
	evi("e", k);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "e%d", k);
	actions(src);
	ev("cbend");
	evend();
}
static void wd_cb(struct pomp_loop *l, void *ud)
{
	ev("wd");
	evi("ok", l == L);
	evi("ud", (intptr_t)ud);
	evi("now", (long long)vw_now);
	evend();
}
static void post(enum vw_call c, int fd, const void *buf, ssize_t res)
{
	if ((c == VW_epoll_wait || c == VW_poll) && vw_self() == 0 && instep == 1) {
		instep = 2;
		ev("w");
		evi("n", res);
		evi("now", (long long)vw_now);
		evend();
	}
}
static void begin(int th, const char *c) { ev("b"); evi("th", th); evs("c", c); }
static void done(int th, int r) { ev("e"); evi("th", th); evi("r", r); evend(); }

static void op(int th, char *line0)
{
	char buf[256], *tv[8];
	int n, a, b, c, r, k;
	snprintf(buf, sizeof(buf), "%s", line0);
	n = tok(buf, tv, 8);
	if (!n)
		return;
	a = n > 1 ? atoi(tv[1]) : 0;
	b = n > 2 ? atoi(tv[2]) : 0;
	c = n > 3 ? atoi(tv[3]) : 0;
#define IS(s) (!strcmp(tv[0], s))
	if (IS("iadd")) {
		begin(th, "iadd");
		evi("cb", a);
		evi("ud", b);
		evi("ck", c);
		evend();
		r = c ? pomp_loop_idle_add_with_cookie(L, idles[a], (void *)(intptr_t)b, (void *)(intptr_t)c)
			: pomp_loop_idle_add(L, idles[a], (void *)(intptr_t)b);
		done(th, r);
	} else if (IS("irem")) {
		begin(th, "irem");
		evi("cb", a);
		evi("ud", b);
		evend();
		done(th, pomp_loop_idle_remove(L, idles[a], (void *)(intptr_t)b));
	} else if (IS("iremc")) {
		begin(th, "iremc");
		evi("ck", a);
		evend();
		done(th, pomp_loop_idle_remove_by_cookie(L, (void *)(intptr_t)a));
	} else if (IS("wake")) {
		begin(th, "wake");
		evend();
		done(th, pomp_loop_wakeup(L));
	} else if (IS("esig")) {
		if (!E[a])
			return;
		begin(th, "esig");
		evi("e", a);
		evend();
		done(th, pomp_evt_signal(E[a]));
	} else if (IS("eclr")) {
		if (!E[a])
			return;
		begin(th, "eclr");
		evi("e", a);
		evend();
		done(th, pomp_evt_clear(E[a]));
	} else if (IS("pause")) {
		for (k = 0; k < a; k++)
			vw_point();
	} else if (IS("busy")) {
		/* busy ms fair: time passes; fair: the other threads had all the time they need */
		vw_now += (uint64_t)a;
		if (b)
			vw_yield();
		else
			vw_point();
		ev("busy");
		evi("fair", b);
		evi("now", (long long)vw_now);
		evend();
	} else if (IS("steps")) {
		for (k = 0; k < b && !instep; k++) {
			ev("sb");
			evi("to", a);
			evi("now", (long long)vw_now);
			evend();
			instep = 1;
			r = pomp_loop_wait_and_process(L, a);
			instep = 0;
			ev("se");
			evi("r", r);
			evend();
		}
	} else if (IS("drain")) {
		for (k = 0, r = 0; k < 200 && r != -ETIMEDOUT; k++) {
			ev("sb");
			evi("to", 0);
			evi("now", (long long)vw_now);
			evend();
			instep = 1;
			r = pomp_loop_wait_and_process(L, 0);
			instep = 0;
			ev("se");
			evi("r", r);
			evend();
		}
		ev(r == -ETIMEDOUT ? "quiet" : "restless");
		evend();
	} else if (IS("flush")) {
		if (instep == 1)
			return;
		ev("fb");
		evi("ck", a);
		evend();
		r = a ? pomp_loop_idle_flush_by_cookie(L, (void *)(intptr_t)a) : pomp_loop_idle_flush(L);
		ev("fe");
		evi("r", r);
		evend();
	} else if (IS("wden")) {
		ev("wden");
		evi("d", a);
		evi("ud", b);
		evend();
		r = pomp_loop_watchdog_enable(L, (uint32_t)a, wd_cb, (void *)(intptr_t)b);
		ev("wdr");
		evi("bad", a == 0);
		evi("r", r);
		evend();
	} else if (IS("wdis")) {
		ev("wdis");
		evend();
		r = pomp_loop_watchdog_disable(L);
		ev("wdr");
		evi("bad", 0);
		evi("r", r);
		evend();
	} else if (IS("sleep")) {
		/* the loop thread does something else */
		vw_now += (uint64_t)a;
		vw_yield();
	}
}
static void thread(void *arg)
{
	int th = (int)(intptr_t)arg, i;
	for (i = 0; i < nprog[th]; i++)
		op(th, prog[th][i]);
	ev("tdone");
	evi("th", th);
	evend();
}

void run_script(char **lines, int n)
{
	int i, k, r;
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("VW_LOG"))
		dup2(nul, 2);
	close(nul);
	fdbase = vw_nfds();
	vw_post = post;
	vw_vtimers = 1;
	for (i = 0; i < n; i++) {
		char buf[512], *sp, *tv[8];
		snprintf(buf, sizeof(buf), "%s", lines[i]);
		if (!strncmp(buf, "th ", 3) || !strncmp(buf, "m ", 2)) {
			int th = 0;
			sp = buf + 2;
			if (buf[0] == 't') {
				th = atoi(buf + 3);
				sp = strchr(buf + 3, ' ');
			}
			if (th >= nth)
				nth = th + 1;
			if (sp && nprog[th] < NOP)
				prog[th][nprog[th]++] = strdup(sp);
			continue;
		}
		if (!strncmp(buf, "on ", 3)) {
			sp = strchr(buf + 3, ' ');
			*sp = 0;
			snprintf(act[nact].src, sizeof(act[0].src), "%s", buf + 3);
			act[nact++].cmds = strdup(sp + 1);
			continue;
		}
		tok(buf, tv, 8);
		if (!strcmp(tv[0], "impl")) {
			li = atoi(tv[1]);
			ei = atoi(tv[2]);
			pomp_internal_set_loop_impl(li ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
			pomp_evt_set_ops(ei ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
			L = NULL;
		} else if (!strcmp(tv[0], "run")) {
			/* run seed mode memory-point-period */
			ev("start");
			evi("nth", nth);
			evraw(",\"evts\":[");
			for (k = 0, r = 0; k < NE; k++)
				if (E[k])
					evraw("%s%d", r++ ? "," : "", k);
			evraw("]");
			evend();
			vw_mem_period = atoi(tv[3]);
			vw_sched_start((uint64_t)atoll(tv[1]), NULL, atoi(tv[2]));
			if (!L)
				L = pomp_loop_new();
			for (k = 0; k < NE; k++)
				if (E[k])
					pomp_evt_attach_to_loop(E[k], L, evt_cb, (void *)(intptr_t)(100 + k));
			for (k = 1; k < nth; k++)
				vw_spawn(thread, (void *)(intptr_t)k);
			for (k = 0; k < nprog[0]; k++)
				op(0, prog[0][k]);
			vw_sched_join_all();
			op(0, "drain");
			for (k = 0; k < NE; k++)
				if (E[k]) {
					pomp_evt_detach_from_loop(E[k], L);
					pomp_evt_destroy(E[k]);
				}
			r = pomp_loop_destroy(L);
			vw_sched_stop();
			ev("end");
			evi("r", r);
			evi("nalloc", vw_nalloc);
			evi("n", vw_nfds() - fdbase);
			evi("nsync", vw_nsync());
			evi("nthr", vw_pthreads());
			evend();
		} else if (!strcmp(tv[0], "evt")) {
			E[atoi(tv[1])] = pomp_evt_new();
		}
	}
}
int main(int argc, char **argv) { tr_timeout = 20; tr_maxev = 4000; return tr_main(argc, argv); }
