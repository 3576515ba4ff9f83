/* Driver for loops, events, timers and idle callbacks, in one thread. One event
 * per API call; callbacks appear between the "step"/"flush" event that runs them
 * and its end, with the calls they make in between. */
#include "tr.h"
#include "libpomp.h"
#include "pomp_priv.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#undef read
#undef write
#undef close

#define NL 3
#define NF 64
#define NE 8
#define NT 8
static struct pomp_loop *L[NL];
static int Limpl[NL], Lin[NL];
static struct { int live, kind, fd, peer, nreg; } F[NF];
static struct pomp_evt *E[NE];
static int Eimpl[NE], Eatt[NE];
static struct pomp_timer *T[NT];
static int Timpl[NT];
static int loopimpl, timerimpl, evtimpl, depth, fdbase, armed;
static int eintr_n;

#define NACT 256
static struct { char src[32]; char *cmds; int used; } act[NACT];
static int nact;

static void cmd(char *line);

static void fltinfo(void)
{
	if (armed) {
		evi("flt", (int)vw_fault_done);
		vw_fault_disarm();
		armed = 0;
	}
	eintr_n = 0;
}
static void rc(int r) { evi("r", r); fltinfo(); }

static int pre(enum vw_call c, int fd, size_t *len)
{
	if (eintr_n > 0 && (c == VW_read || c == VW_write || c == VW_epoll_wait || c == VW_poll))
		if (--eintr_n == 0)
			return EINTR;
	return 0;
}

static void settimer(int impl) { pomp_internal_set_timer_impl(impl ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD); }
static void setloop(int impl) { pomp_internal_set_loop_impl(impl ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL); }
static void setevt(int impl) { pomp_evt_set_ops(impl ? &pomp_evt_posix_ops : &pomp_evt_fd_ops); }

static void actions(const char *src)
{
	int i;
	char *p, *q, *save;
	for (i = 0; i < nact; i++) {
		if (act[i].used || strcmp(act[i].src, src) != 0)
			continue;
		act[i].used = 1;
		save = strdup(act[i].cmds);
		for (p = save; p; p = q) {
			q = strchr(p, ';');
			if (q)
				*q++ = 0;
			cmd(p);
		}
		free(save);
		return;
	}
}
static void cbend(void) { ev("cbend"); evend(); }

static void fd_cb(int fd, uint32_t revents, void *ud)
{
	int i, f = -1;
	char src[32];
	for (i = 0; i < NF; i++)
		if (F[i].live && F[i].fd == fd)
			f = i;
	ev("cb");
	evs("k", "f");
	evi("f", f);
	evi("rev", revents);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "f%d", f);
	depth++;
	actions(src);
	depth--;
	cbend();
}
static void evt_cb(struct pomp_evt *e, void *ud)
{
	int i, k = -1;
	char src[32];
	for (i = 0; i < NE; i++)
		if (E[i] == e)
			k = i;
	ev("cb");
	evs("k", "e");
	evi("e", k);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "e%d", k);
	depth++;
	actions(src);
	depth--;
	cbend();
}
static void timer_cb(struct pomp_timer *t, void *ud)
{
	int i, k = -1;
	char src[32];
	for (i = 0; i < NT; i++)
		if (T[i] == t)
			k = i;
	ev("cb");
	evs("k", "t");
	evi("t", k);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "t%d", k);
	depth++;
	actions(src);
	depth--;
	cbend();
}
static void idle_cb(int cb, void *ud)
{
	char src[32];
	ev("cb");
	evs("k", "i");
	evi("cb", cb);
	evi("ud", (intptr_t)ud);
	evend();
	snprintf(src, sizeof(src), "i%d.%d", cb, (int)(intptr_t)ud);
	depth++;
	actions(src);
	depth--;
	cbend();
}
static void idle0(void *ud) { idle_cb(0, ud); }
static void idle1(void *ud) { idle_cb(1, ud); }
static void idle2(void *ud) { idle_cb(2, ud); }
static pomp_idle_cb_t idles[] = { idle0, idle1, idle2 };

static uint32_t ready(int fd)
{
	struct pollfd p = { fd, POLLIN | POLLPRI | POLLOUT, 0 };
	uint32_t r = 0;
	poll(&p, 1, 0);
	if (p.revents & POLLIN) r |= POMP_FD_EVENT_IN;
	if (p.revents & POLLPRI) r |= POMP_FD_EVENT_PRI;
	if (p.revents & POLLOUT) r |= POMP_FD_EVENT_OUT;
	if (p.revents & POLLERR) r |= POMP_FD_EVENT_ERR;
	if (p.revents & POLLHUP) r |= POMP_FD_EVENT_HUP;
	return r;
}
static void snapshot(void)
{
	int i, n = 0;
	evraw(",\"rd\":[");
	for (i = 0; i < NF; i++) {
		uint32_t r;
		if (!F[i].live || (r = ready(F[i].fd)) == 0)
			continue;
		evraw("%s[%d,%u]", n++ ? "," : "", i, r);
	}
	evraw("]");
}
/* wait for the peer of a tcp pair to see what was done */
static void settle(int fd, short e)
{
	struct pollfd p = { fd, e, 0 };
	poll(&p, 1, 200);
}
static void mkpair(int kind, int *a, int *b)
{
	int p[2] = { -1, -1 };
	char name[] = "/tmp/vploopXXXXXX";
	struct sockaddr_in sa;
	socklen_t sl = sizeof(sa);
	int ls;
	switch (kind) {
	case 0:
		socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
		break;
	case 1:
		memset(&sa, 0, sizeof(sa));
		sa.sin_family = AF_INET;
		sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		ls = socket(AF_INET, SOCK_STREAM, 0);
		bind(ls, (struct sockaddr *)&sa, sizeof(sa));
		listen(ls, 1);
		getsockname(ls, (struct sockaddr *)&sa, &sl);
		p[1] = socket(AF_INET, SOCK_STREAM, 0);
		connect(p[1], (struct sockaddr *)&sa, sizeof(sa));
		p[0] = accept(ls, NULL, NULL);
		close(ls);
		fcntl(p[0], F_SETFL, O_NONBLOCK);
		fcntl(p[1], F_SETFL, O_NONBLOCK);
		break;
	case 2:
		p[0] = mkstemp(name);
		unlink(name);
		break;
	default:
		if (pipe2(p, O_NONBLOCK) < 0)
			_exit(98);
		break;
	}
	*a = p[0];
	*b = p[1];
}
static void fclose_(int f)
{
	if (!F[f].live)
		return;
	close(F[f].fd);
	if (F[f].peer >= 0)
		close(F[f].peer);
	F[f].live = 0;
}
static char junk[4096];

static void cleanup(void)
{
	int i, k, r;
	for (i = 0; i < NT; i++)
		if (T[i]) {
			char b[32];
			snprintf(b, sizeof(b), "tdel %d", i);
			cmd(b);
		}
	for (i = 0; i < NE; i++)
		if (E[i]) {
			char b[32];
			for (k = 0; k < NL; k++)
				if (L[k] && pomp_evt_is_attached(E[i], L[k])) {
					snprintf(b, sizeof(b), "edet %d %d", i, k);
					cmd(b);
				}
			snprintf(b, sizeof(b), "edel %d", i);
			cmd(b);
		}
	for (k = 0; k < NL; k++) {
		char b[32];
		if (!L[k])
			continue;
		for (i = 0; i < NF; i++)
			if (F[i].live && pomp_loop_has_fd(L[k], F[i].fd)) {
				snprintf(b, sizeof(b), "lrem %d %d", k, i);
				cmd(b);
			}
		for (r = 0; r < 20 && L[k]; r++) {
			nact = 0;
			snprintf(b, sizeof(b), "iflush %d", k);
			cmd(b);
			snprintf(b, sizeof(b), "ldel %d", k);
			cmd(b);
		}
	}
	for (i = 0; i < NF; i++)
		fclose_(i);
}

static void cmd(char *line0)
{
	char buf[512], *line = buf, *tv[16];
	int n, a, b, c, d, r;
	snprintf(buf, sizeof(buf), "%s", line0);
	if (!strncmp(line, "on ", 3)) {
		char *sp = strchr(line + 3, ' ');
		if (sp && nact < NACT) {
			*sp = 0;
			snprintf(act[nact].src, sizeof(act[0].src), "%s", line + 3);
			act[nact].cmds = strdup(sp + 1);
			act[nact].used = 0;
			nact++;
		}
		return;
	}
	n = tok(line, tv, 16);
	if (!n)
		return;
	a = n > 1 ? atoi(tv[1]) : 0;
	b = n > 2 ? atoi(tv[2]) : 0;
	c = n > 3 ? atoi(tv[3]) : 0;
	d = n > 4 ? atoi(tv[4]) : 0;
	(void)d;
#define IS(s) (!strcmp(tv[0], s))
	if (IS("impl")) {
		loopimpl = a;
		timerimpl = b;
		evtimpl = c;
		ev("impl");
		evi("li", a);
		evi("ti", b);
		evi("ei", c);
		evend();
	} else if (IS("fault")) {
		uint64_t m = n > 4 ? strtoull(tv[4], NULL, 0) : ~0ull;
		vw_fault_arm(a, b, m, c);
		armed = 1;
	} else if (IS("eintr")) {
		eintr_n = a;
	} else if (IS("lnew")) {
		if (L[a])
			return;
		setloop(loopimpl);
		setevt(evtimpl);
		L[a] = pomp_loop_new();
		Limpl[a] = loopimpl;
		ev("lnew");
		evi("l", a);
		evi("impl", loopimpl);
		rc(L[a] ? 0 : -1);
		evend();
	} else if (IS("ldel")) {
		if (!L[a] || depth)
			return;
		setloop(Limpl[a]);
		setevt(evtimpl);
		r = pomp_loop_destroy(L[a]);
		if (r == 0)
			L[a] = NULL;
		ev("ldel");
		evi("l", a);
		rc(r);
		evend();
	} else if (IS("fnew")) {
		if (F[a].live)
			return;
		mkpair(b, &F[a].fd, &F[a].peer);
		if (c > 0 && fcntl(c, F_GETFD) < 0 && dup2(F[a].fd, c) == c) {
			/* a number of our choice: the library looks descriptors up by number */
			close(F[a].fd);
			F[a].fd = c;
		}
		F[a].live = 1;
		F[a].kind = b;
		F[a].nreg = 0;
	} else if (IS("fdel")) {
		if (F[a].live && !F[a].nreg)
			fclose_(a);
	} else if (IS("fswap")) {
		/* same number, another file */
		int x, y, old = F[a].fd;
		if (!F[a].live || F[a].nreg)
			return;
		fclose_(a);
		mkpair(b, &x, &y);
		if (y == old) {
			y = dup(y);
			close(old);
		}
		if (x != old) {
			dup2(x, old);
			close(x);
		}
		F[a].live = 1;
		F[a].kind = b;
		F[a].fd = old;
		F[a].peer = y;
	} else if (IS("fput")) {
		if (F[a].live && F[a].peer >= 0) {
			if (write(F[a].peer, junk, (size_t)b) < 0) { }
			settle(F[a].fd, POLLIN);
		}
	} else if (IS("fget")) {
		if (F[a].live && F[a].kind != 2)
			while (read(F[a].fd, junk, sizeof(junk)) > 0)
				;
	} else if (IS("fclo")) {
		if (F[a].live && F[a].peer >= 0) {
			close(F[a].peer);
			F[a].peer = -1;
			settle(F[a].fd, POLLIN);
		}
	} else if (IS("fshut")) {
		if (F[a].live && F[a].peer >= 0 && F[a].kind < 2) {
			shutdown(F[a].peer, SHUT_WR);
			settle(F[a].fd, POLLIN);
		}
	} else if (IS("ffill")) {
		if (F[a].live && F[a].kind == 0)
			while (write(F[a].fd, junk, sizeof(junk)) > 0)
				;
	} else if (IS("fdrain")) {
		if (F[a].live && F[a].kind == 0 && F[a].peer >= 0)
			while (read(F[a].peer, junk, sizeof(junk)) > 0)
				;
	} else if (IS("foob")) {
		if (F[a].live && F[a].kind == 1 && F[a].peer >= 0) {
			send(F[a].peer, "!", 1, MSG_OOB);
			settle(F[a].fd, POLLPRI);
		}
	} else if (IS("ladd")) {
		/* ladd l f ev ud */
		if (!L[a] || (b >= 0 && !F[b].live))
			return;
		setloop(Limpl[a]);
		r = pomp_loop_add(L[a], b < 0 ? -1 : F[b].fd, (uint32_t)c, d < 0 ? NULL : fd_cb, (void *)(intptr_t)d);
		if (r == 0)
			F[b].nreg++;
		ev("ladd");
		evi("l", a);
		evi("f", b);
		evi("ev", c);
		evi("ud", d);
		evi("kind", b < 0 ? -1 : F[b].kind);
		rc(r);
		evend();
	} else if (IS("lupd")) {
		if (!L[a] || (b >= 0 && !F[b].live))
			return;
		setloop(Limpl[a]);
		r = pomp_loop_update(L[a], b < 0 ? -1 : F[b].fd, (uint32_t)c);
		ev("lupd");
		evi("l", a);
		evi("f", b);
		evi("ev", c);
		rc(r);
		evend();
	} else if (IS("lup2")) {
		if (!L[a] || (b >= 0 && !F[b].live))
			return;
		setloop(Limpl[a]);
		r = pomp_loop_update2(L[a], b < 0 ? -1 : F[b].fd, (uint32_t)c, (uint32_t)d);
		ev("lup2");
		evi("l", a);
		evi("f", b);
		evi("add", c);
		evi("rem", d);
		rc(r);
		evend();
	} else if (IS("lrem")) {
		if (!L[a] || (b >= 0 && !F[b].live))
			return;
		setloop(Limpl[a]);
		r = pomp_loop_remove(L[a], b < 0 ? -1 : F[b].fd);
		if (r == 0)
			F[b].nreg--;
		ev("lrem");
		evi("l", a);
		evi("f", b);
		rc(r);
		evend();
	} else if (IS("lhas")) {
		if (!L[a] || !F[b].live)
			return;
		ev("lhas");
		evi("l", a);
		evi("f", b);
		rc(pomp_loop_has_fd(L[a], F[b].fd));
		evend();
	} else if (IS("step") || IS("lproc")) {
		int to = IS("lproc") ? 0 : b;
		if (!L[a] || Lin[a])
			return;
		setloop(Limpl[a]);
		setevt(evtimpl);
		ev("step");
		evi("l", a);
		evi("to", to);
		snapshot();
		evend();
		Lin[a]++;
		vw_wait_timeout = -77;
		if (IS("lproc"))
			r = pomp_loop_process_fd(L[a]);
		else
			r = pomp_loop_wait_and_process(L[a], to);
		Lin[a]--;
		ev("stepend");
		evi("l", a);
		evi("wt", vw_wait_timeout);
		rc(r);
		evend();
	} else if (IS("lfd")) {
		intptr_t fd;
		if (!L[a] || depth)
			return;
		setloop(Limpl[a]);
		fd = pomp_loop_get_fd(L[a]);
		ev("lfd");
		evi("l", a);
		snapshot();
		evi("neg", fd < 0);
		evi("in", fd < 0 ? -1 : (ready((int)fd) & POMP_FD_EVENT_IN) != 0);
		evend();
	} else if (IS("wake")) {
		if (!L[a])
			return;
		setloop(Limpl[a]);
		r = pomp_loop_wakeup(L[a]);
		ev("wake");
		evi("l", a);
		rc(r);
		evend();
	} else if (IS("iadd")) {
		/* iadd l cb ud ck */
		if (!L[a])
			return;
		setevt(evtimpl);
		r = d ? pomp_loop_idle_add_with_cookie(L[a], idles[b], (void *)(intptr_t)c, (void *)(intptr_t)d)
			: pomp_loop_idle_add(L[a], idles[b], (void *)(intptr_t)c);
		ev("iadd");
		evi("l", a);
		evi("cb", b);
		evi("ud", c);
		evi("ck", d);
		rc(r);
		evend();
	} else if (IS("irem")) {
		if (!L[a])
			return;
		r = pomp_loop_idle_remove(L[a], idles[b], (void *)(intptr_t)c);
		ev("irem");
		evi("l", a);
		evi("cb", b);
		evi("ud", c);
		rc(r);
		evend();
	} else if (IS("iremc")) {
		if (!L[a])
			return;
		r = pomp_loop_idle_remove_by_cookie(L[a], (void *)(intptr_t)b);
		ev("iremc");
		evi("l", a);
		evi("ck", b);
		rc(r);
		evend();
	} else if (IS("iflush") || IS("iflushc")) {
		int ck = IS("iflushc") ? b : 0;
		if (!L[a] || depth > 6)
			return;
		ev("flush");
		evi("l", a);
		evi("ck", ck);
		evend();
		Lin[a]++;
		r = ck ? pomp_loop_idle_flush_by_cookie(L[a], (void *)(intptr_t)ck)
			: pomp_loop_idle_flush(L[a]);
		Lin[a]--;
		ev("flushend");
		evi("l", a);
		rc(r);
		evend();
	} else if (IS("enew")) {
		if (E[a])
			return;
		setevt(evtimpl);
		E[a] = pomp_evt_new();
		ev("enew");
		evi("e", a);
		rc(E[a] ? 0 : -1);
		evend();
	} else if (IS("edel")) {
		if (!E[a])
			return;
		setevt(evtimpl);
		r = pomp_evt_destroy(E[a]);
		if (r == 0)
			E[a] = NULL;
		ev("edel");
		evi("e", a);
		rc(r);
		evend();
	} else if (IS("eatt")) {
		/* eatt e l ud */
		if (!E[a] || !L[b])
			return;
		setloop(Limpl[b]);
		setevt(evtimpl);
		r = pomp_evt_attach_to_loop(E[a], L[b], evt_cb, (void *)(intptr_t)c);
		ev("eatt");
		evi("e", a);
		evi("l", b);
		evi("ud", c);
		rc(r);
		evend();
	} else if (IS("edet")) {
		if (!E[a] || !L[b])
			return;
		setloop(Limpl[b]);
		setevt(evtimpl);
		r = pomp_evt_detach_from_loop(E[a], L[b]);
		ev("edet");
		evi("e", a);
		evi("l", b);
		rc(r);
		evend();
	} else if (IS("eis")) {
		if (!E[a] || (b >= 0 && !L[b]))
			return;
		ev("eis");
		evi("e", a);
		evi("l", b);
		rc(pomp_evt_is_attached(E[a], b < 0 ? NULL : L[b]));
		evend();
	} else if (IS("esig") || IS("eclr")) {
		int k = n > 2 ? b : 1;
		if (!E[a])
			return;
		setevt(evtimpl);
		r = 0;
		while (k-- > 0 && r == 0)
			r = IS("esig") ? pomp_evt_signal(E[a]) : pomp_evt_clear(E[a]);
		ev(tv[0]);
		evi("e", a);
		rc(r);
		evend();
	} else if (IS("tnew")) {
		/* tnew t l ud */
		if (T[a] || !L[b])
			return;
		setloop(Limpl[b]);
		settimer(timerimpl);
		T[a] = pomp_timer_new(L[b], timer_cb, (void *)(intptr_t)c);
		Timpl[a] = timerimpl;
		ev("tnew");
		evi("t", a);
		evi("l", b);
		evi("ud", c);
		evi("impl", timerimpl);
		rc(T[a] ? 0 : -1);
		evend();
	} else if (IS("tdel")) {
		if (!T[a])
			return;
		settimer(Timpl[a]);
		for (r = 0; r < NL; r++)
			if (L[r])
				setloop(Limpl[r]);
		r = pomp_timer_destroy(T[a]);
		T[a] = NULL;
		ev("tdel");
		evi("t", a);
		rc(r);
		evend();
	} else if (IS("tset") || IS("tper") || IS("tclr")) {
		if (!T[a])
			return;
		settimer(Timpl[a]);
		r = IS("tset") ? pomp_timer_set(T[a], (uint32_t)b)
			: IS("tper") ? pomp_timer_set_periodic(T[a], (uint32_t)b, (uint32_t)c)
			: pomp_timer_clear(T[a]);
		ev("tset");
		evi("t", a);
		evi("d", IS("tclr") ? 0 : b);
		evi("p", IS("tper") ? c : 0);
		rc(r);
		evend();
	} else if (IS("adv")) {
		int64_t x;
		int v;
		uint64_t target = vw_now + (uint64_t)a;
		while ((v = vw_timer_next(&x)) >= 0 && x <= (int64_t)target)
			vw_timer_fire(v);
		vw_now = target;
		ev("adv");
		evi("ms", a);
		evend();
	} else if (IS("end")) {
		nact = 0;
		cleanup();
		ev("end");
		evi("nalloc", vw_nalloc);
		evi("n", vw_nfds() - fdbase);
		evi("nsync", vw_nsync());
		evi("ntimers", vw_ntimers());
		evend();
	}
}

void run_script(char **lines, int n)
{
	int i;
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("VW_LOG"))
		dup2(nul, 2);
	close(nul);
	signal(SIGPIPE, SIG_IGN);
	vw_vtimers = 1;
	vw_noblock = 1;
	vw_pre = pre;
	fdbase = vw_nfds();
	for (i = 0; i < n; i++) {
		cmd(lines[i]);
		/* a failure is for the next command only, even if skipped */
		if (armed && strncmp(lines[i], "fault", 5) != 0) {
			vw_fault_disarm();
			armed = 0;
		}
	}
}
int main(int argc, char **argv) { tr_timeout = 20; tr_maxev = 4000; return tr_main(argc, argv); }
