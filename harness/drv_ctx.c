/* Driver for contexts and connections, in one thread, over real sockets.
 * System calls made by the library on its sockets are events of the trace, as
 * are API calls (between their begin event and "ret"), callbacks (between "cb"
 * and "cbend") and what the raw peers of the harness do. Each socket has a
 * serial number (sid) that is never used again. */
#include "tr.h"
#include "libpomp.h"
#include "pomp_priv.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#undef read
#undef write
#undef close

#define NC 8
#define NLP 2
#define NP 48
#define NS 4096
#define NM 8
#define NK 64
#define MAXB (1u << 20)
static struct pomp_loop *L[NLP];
static struct { struct pomp_ctx *ctx; int own, loop, raw, startc; } C[NC];
static struct { int fd, dgram, port, unix_, own, sus, open, lsn, ag; } S[NS];
static int nsid, fdsid[1024];
static int P[NP];			/* sid of raw peers, 0: none */
static int M[NM];			/* memfds */
static ino_t Mino[NM];
static struct { struct pomp_msg *m; struct pomp_buffer *b; } K[NK];
static int nkept;
static int depth, fdbase, armed, insend, startc = -1;
static struct pomp_conn *curconn;
static int cursid = -1, curpeer = -1, curc = -1;
static struct pomp_buffer *curbuf;
static const struct pomp_msg *curmsg;
static uint8_t big[MAXB];
static unsigned seqno;

#define NACT 256
static struct { char src[16]; char *cmds; int used; } act[NACT];
static int nact;
static void cmd(const char *line);

static int sidof(int fd) { return fd >= 0 && fd < 1024 ? fdsid[fd] : 0; }
static int newsid(int fd, int own)
{
	if (nsid + 1 >= NS)
		_exit(97);
	nsid++;
	S[nsid].fd = fd;
	S[nsid].own = own;
	S[nsid].open = 1;
	if (fd >= 0 && fd < 1024)
		fdsid[fd] = nsid;
	return nsid;
}
static void delsid(int sid)
{
	if (sid > 0 && S[sid].open) {
		S[sid].open = 0;
		fdsid[S[sid].fd] = 0;
	}
}

/* addresses */
static union { struct sockaddr sa; struct sockaddr_un un; struct sockaddr_in in; struct sockaddr_storage ss; } A;
static socklen_t mkaddr(int a)
{
	unsigned pid = (unsigned)getpid();
	memset(&A, 0, sizeof(A));
	if (a <= 2) {
		A.un.sun_family = AF_UNIX;
		return (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 +
			(size_t)snprintf(A.un.sun_path + 1, 60, "v%dctx%u", a, pid));
	} else if (a == 3) {
		A.un.sun_family = AF_UNIX;
		snprintf(A.un.sun_path, sizeof(A.un.sun_path), "vwctx%u.sock", pid);
		return sizeof(A.un);
	}
	A.in.sin_family = AF_INET;
	A.in.sin_addr.s_addr = htonl(0x7f000000u | (0x10000u + (pid << 1)) % 0xfffffeu);
	A.in.sin_port = htons((uint16_t)(7000 + a));
	return sizeof(A.in);
}
static int addridx(const struct sockaddr *sa)
{
	const struct sockaddr_un *u = (const struct sockaddr_un *)sa;
	if (sa == NULL)
		return -1;
	if (sa->sa_family == AF_INET)
		return ntohs(((const struct sockaddr_in *)sa)->sin_port) - 7000;
	if (sa->sa_family == AF_UNIX)
		return u->sun_path[0] ? 3 : u->sun_path[2] - '0';
	return -1;
}
/* the socket that has the local address */
static int sidaddr(const struct sockaddr *sa)
{
	int i, port;
	if (sa == NULL)
		return -1;
	if (sa->sa_family == AF_UNIX) {
		const char *p = ((const struct sockaddr_un *)sa)->sun_path;
		return p[0] == 0 && p[1] == '#' ? atoi(p + 2) : -1;
	}
	port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
	for (i = nsid; i > 0; i--)
		if (S[i].port == port && !S[i].dgram && !S[i].unix_ && !S[i].lsn)
			return i;
	return -1;
}
static void learnport(int sid)
{
	struct sockaddr_storage ss;
	socklen_t sl = sizeof(ss);
	if (getsockname(S[sid].fd, (struct sockaddr *)&ss, &sl) == 0 && ss.ss_family == AF_INET)
		S[sid].port = ntohs(((struct sockaddr_in *)&ss)->sin_port);
}
/* unix clients get a name, so that the server side of the harness knows them */
static void nameit(int sid)
{
	struct sockaddr_un u;
	memset(&u, 0, sizeof(u));
	u.sun_family = AF_UNIX;
	S[sid].unix_ = 1;
	bind(S[sid].fd, (struct sockaddr *)&u, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 +
		(size_t)snprintf(u.sun_path + 1, 60, "#%d.%u", sid, (unsigned)getpid())));
}
static int peersid(int fd)
{
	struct sockaddr_storage ss;
	socklen_t sl = sizeof(ss);
	memset(&ss, 0, sizeof(ss));
	if (getpeername(fd, (struct sockaddr *)&ss, &sl) < 0)
		return -1;
	return sidaddr((struct sockaddr *)&ss);
}

static long told;
/* an event, after those for the failures that were injected since the last one */
static void ev_(const char *op)
{
	if (armed && vw_fault_done > told) {
		ev("hit");
		evi("n", (int)(vw_fault_done - told));
		told = vw_fault_done;
		evs("k", vw_names[vw_fault_call]);
		evend();
	}
	ev(op);
}
#define ev ev_
static void evrle(const char *k, const uint8_t *p, size_t n)
{
	size_t i, j;
	evraw(",\"%s\":[", k);
	for (i = 0; i < n; i = j) {
		for (j = i + 1; j < n && p[j] == p[i]; j++)
			;
		evraw("%s[%u,%zu]", i ? "," : "", p[i], j - i);
	}
	evraw("]");
}

/* injected behaviour of the system calls on sockets */
enum { IO_R, IO_W, IO_K, IO_B, IO_A, IO_L, IO_P, NIO };
static struct { int v[64]; int n, i; } io[NIO];
static int ioclass(enum vw_call c)
{
	switch (c) {
	case VW_read: case VW_recv: case VW_recvfrom: case VW_recvmsg: case VW_readv: return IO_R;
	case VW_write: case VW_send: case VW_sendto: case VW_sendmsg: case VW_writev: return IO_W;
	case VW_connect: return IO_K;
	case VW_bind: return IO_B;
	case VW_accept: case VW_accept4: return IO_A;
	case VW_listen: return IO_L;
	case VW_getpeername: return IO_P;
	default: return -1;
	}
}
static int injected;	/* the last bind was made to fail by us */
static int pre(enum vw_call c, int fd, size_t *len)
{
	int k = ioclass(c), v, sid = sidof(fd);
	if (!sid || k < 0)
		return 0;
	injected = 0;
	if (c == VW_connect && vw_addr && vw_addr->sa_family == AF_UNIX && !S[sid].unix_)
		nameit(sid);
	if (io[k].i >= io[k].n)
		return 0;
	v = io[k].v[io[k].i++];
	injected = v < 0;
	if (v < -9000)
		return S[sid].dgram ? 0 : -1;		/* end of file */
	if (v == -EAGAIN && k == IO_R)
		S[sid].ag = 1;	/* what there is to read was hidden */
	if (v < 0)
		return -v;
	if (v > 0 && len && *len > (size_t)v && !S[sid].dgram)
		*len = (size_t)v;
	return 0;
}
static void post(enum vw_call c, int fd, const void *buf, ssize_t res)
{
	int sid, n, t;
	socklen_t sl = sizeof(t);
	(void)buf;
	if (c == VW_socket) {
		sid = res < 0 ? -1 : newsid((int)res, 0);
		if (sid > 0 && getsockopt((int)res, SOL_SOCKET, SO_TYPE, &t, &sl) == 0)
			S[sid].dgram = t == SOCK_DGRAM;
		ev("socket");
		evi("s", sid);
		evi("c", startc);
		evi("r", res < 0 ? res : 0);
		evend();
		return;
	}
	sid = sidof(fd);
	if (!sid)
		return;
	switch (ioclass(c)) {
	case IO_R:
		if (res == -EAGAIN || res == -EINTR)
			return;
		ev("rd");
		evi("s", sid);
		evi("n", res);
		if (S[sid].dgram)
			evi("p", res >= 0 ? addridx(vw_addr) : -1);
		evend();
		return;
	case IO_W:
		if (res == -EAGAIN || res == -EINTR)
			return;
		ev("wr");
		evi("s", sid);
		evi("n", res);
		if (S[sid].dgram)
			evi("d", addridx(vw_addr));
		evend();
		return;
	case IO_K:
		learnport(sid);
		ev("connect");
		evi("s", sid);
		evi("a", addridx(vw_addr));
		evi("r", res);
		evend();
		return;
	case IO_B:
		learnport(sid);
		if (res == 0 && vw_addr->sa_family == AF_UNIX)
			S[sid].unix_ = 1;
		ev("bind");
		evi("s", sid);
		evi("inj", injected);
		evi("a", addridx(vw_addr));
		evi("r", res);
		evend();
		return;
	case IO_P:
		if (res < 0) {
			ev("gpn");
			evi("s", sid);
			evi("r", res);
			evend();
		}
		return;
	case IO_L:
		S[sid].lsn = 1;
		ev("listen");
		evi("s", sid);
		evi("r", res);
		evend();
		return;
	case IO_A:
		if (res == -EAGAIN || res == -EINTR)
			return;
		n = -1;
		if (res >= 0) {
			n = newsid((int)res, 0);
			S[n].unix_ = S[sid].unix_;
			learnport(n);
			S[n].port = -1;	/* has the port of the listener */
		}
		ev("accept");
		evi("s", sid);
		evi("n", n);
		evi("p", res >= 0 ? peersid((int)res) : -1);
		evi("r", res < 0 ? res : 0);
		evend();
		return;
	default:
		break;
	}
	if (c == VW_shutdown) {
		ev("shut");
		evi("s", sid);
		evi("r", res);
		evend();
	} else if (c == VW_close) {
		delsid(sid);
		ev("close");
		evi("s", sid);
		evend();
	}
}

/* content of messages: the slots of descriptors are cleared, their files noted */
static int whichfd(int fd)
{
	struct stat st;
	int i;
	if (fd < 0 || fstat(fd, &st) < 0)
		return -1;
	for (i = 0; i < NM; i++)
		if (st.st_ino == Mino[i])
			return fd == M[i] ? -2 : i;
	return -3;
}
static size_t varint(const uint8_t *p, size_t n, size_t o, uint64_t *v)
{
	int s = 0;
	*v = 0;
	while (o < n) {
		*v |= (uint64_t)(p[o] & 0x7f) << s;
		s += 7;
		if (!(p[o++] & 0x80))
			return o;
		if (s > 63)
			break;
	}
	return (size_t)-1;
}
static int slots(const uint8_t *p, size_t n, size_t *offs, int max)
{
	size_t o = 12;
	int k = 0;
	uint64_t v;
	while (o < n) {
		switch (p[o++]) {
		case POMP_PROT_DATA_TYPE_I8: case POMP_PROT_DATA_TYPE_U8: o++; break;
		case POMP_PROT_DATA_TYPE_I16: case POMP_PROT_DATA_TYPE_U16: o += 2; break;
		case POMP_PROT_DATA_TYPE_I32: case POMP_PROT_DATA_TYPE_U32:
		case POMP_PROT_DATA_TYPE_I64: case POMP_PROT_DATA_TYPE_U64:
			o = varint(p, n, o, &v);
			break;
		case POMP_PROT_DATA_TYPE_STR: case POMP_PROT_DATA_TYPE_BUF:
			o = varint(p, n, o, &v);
			if (o == (size_t)-1 || v > n - o)
				return k;
			o += v;
			break;
		case POMP_PROT_DATA_TYPE_F32: o += 4; break;
		case POMP_PROT_DATA_TYPE_F64: o += 8; break;
		case POMP_PROT_DATA_TYPE_FD:
			if (o + 4 > n)
				return k;
			if (k < max)
				offs[k++] = o;
			o += 4;
			break;
		default:
			return k;
		}
	}
	return k;
}
static int rx;			/* the message was received: its descriptors must be new */
static void evcontent(const void *data, size_t n, int israw)
{
	size_t offs[4096];
	int k = 0, i, fd;
	if (n > MAXB)
		_exit(97);
	memcpy(big, data, n);
	if (!israw)
		k = slots(big, n, offs, 4096);
	for (i = 0; i < k; i++)
		memset(big + offs[i], 0, 4);
	evrle("x", big, n);
	evi("len", (long long)n);
	evraw(",\"fds\":[");
	for (i = 0; i < k; i++) {
		memcpy(&fd, (const uint8_t *)data + offs[i], 4);
		evraw("%s%d", i ? "," : "", whichfd((int)le32toh((uint32_t)fd)));
	}
	evraw("]");
	(void)rx;
}
static void evbuf(struct pomp_buffer *b, int israw)
{
	const void *d = NULL;
	size_t n = 0;
	if (pomp_buffer_get_cdata(b, &d, &n, NULL) < 0)
		n = 0;
	evcontent(d ? d : "", n, israw);
}

static void fltinfo(void)
{
	if (armed) {
		evi("flt", (int)vw_fault_done);
		evs("fk", vw_fault_done ? vw_names[vw_fault_call] : "");
		vw_fault_disarm();
		armed = 0;
	} else {
		evi("flt", 0);
	}
}
static void ret(int r)
{
	ev("ret");
	evi("r", r);
	fltinfo();
	evend();
}

static void actions(const char *k, int c)
{
	int i;
	char *p, *q, *save, src[16];
	if (depth > 3)
		return;
	snprintf(src, sizeof(src), "%s%d", k, c);
	for (i = 0; i < nact; i++) {
		if (act[i].used || strcmp(act[i].src, src) != 0)
			continue;
		act[i].used = 1;
		save = strdup(act[i].cmds);
		for (p = save; p; p = q) {
			q = strchr(p, ';');
			if (q)
				*q++ = 0;
			cmd(p);
		}
		free(save);
		return;
	}
}
static int ctxidx(struct pomp_ctx *ctx, void *ud)
{
	int c = (int)(intptr_t)ud;
	/* (sockets are created before the new context is known to the driver) */
	return c >= 0 && c < NC && C[c].ctx == ctx ? c : -1;
}
/* addresses and credentials of the connection are what the system says */
static int sameaddr(const struct sockaddr *a, uint32_t al, int fd, int (*get)(int, struct sockaddr *, socklen_t *))
{
	struct sockaddr_storage ss;
	socklen_t sl = sizeof(ss);
	memset(&ss, 0, sizeof(ss));
	if ((*get)(fd, (struct sockaddr *)&ss, &sl) < 0)
		return 1;
	return a != NULL && al == sl && memcmp(a, &ss, sl) == 0;
}
static int gsn(int fd, struct sockaddr *a, socklen_t *l) { return getsockname(fd, a, l); }
static int gpn(int fd, struct sockaddr *a, socklen_t *l) { return getpeername(fd, a, l); }
static int addrok(struct pomp_conn *conn)
{
	uint32_t al = 0, bl = 0;
	int fd = pomp_conn_get_fd(conn), un, ok;
	const struct sockaddr *a = pomp_conn_get_local_addr(conn, &al), *b = pomp_conn_get_peer_addr(conn, &bl);
	const struct pomp_cred *cr = pomp_conn_get_peer_cred(conn);
	struct ucred uc;
	socklen_t sl = sizeof(uc);
	un = a != NULL && a->sa_family == AF_UNIX;
	ok = sameaddr(a, al, fd, gsn) && sameaddr(b, bl, fd, gpn);
	if (un && getsockopt(fd, SOL_SOCKET, SO_PEERCRED, &uc, &sl) == 0)
		ok = ok && cr && cr->pid == (uint32_t)uc.pid && cr->uid == uc.uid && cr->gid == uc.gid;
	else
		ok = ok && cr == NULL;
	return ok;
}
struct saved { struct pomp_conn *conn; int sid, peer, c; struct pomp_buffer *buf; const struct pomp_msg *msg; int insend; };
static struct saved enter(struct pomp_conn *conn, int c)
{
	struct saved s = { curconn, cursid, curpeer, curc, curbuf, curmsg, insend };
	curconn = conn;
	cursid = conn ? sidof(pomp_conn_get_fd(conn)) : -1;
	if (conn && cursid == 0)
		cursid = -1;
	curpeer = -1;
	curbuf = NULL;
	curmsg = NULL;
	curc = c;
	depth++;
	return s;
}
static void leave(const struct saved *s, const char *k, int c)
{
	actions(k, c);
	depth--;
	curconn = s->conn;
	cursid = s->sid;
	curpeer = s->peer;
	curc = s->c;
	curbuf = s->buf;
	curmsg = s->msg;
	ev("cbend");
	evend();
}
static int sockfl(int fd);
static void evka(int fd);
static void evcb(const char *k, int c)
{
	ev("cb");
	evs("k", k);
	evi("c", c);
	evi("s", cursid);
}
static void event_cb(struct pomp_ctx *ctx, enum pomp_event e, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
{
	int c = ctxidx(ctx, ud);
	const char *k = e == POMP_EVENT_CONNECTED ? "conn" : e == POMP_EVENT_DISCONNECTED ? "disc" : "msg";
	struct saved s = enter(conn, c);
	uint32_t al = 0;
	const struct sockaddr *pa;
	if (e == POMP_EVENT_MSG && cursid > 0 && S[cursid].dgram) {
		pa = pomp_conn_get_peer_addr(conn, &al);
		curpeer = al ? addridx(pa) : -1;
	}
	evcb(k, c);
	if (e == POMP_EVENT_CONNECTED || e == POMP_EVENT_DISCONNECTED)
		evi("ok", msg == NULL && addrok(conn));
	if (e == POMP_EVENT_DISCONNECTED && cursid > 0 && S[cursid].ag)
		evi("ag", 1);
	if (e == POMP_EVENT_CONNECTED) {
		evi("fl", sockfl(pomp_conn_get_fd(conn)));
		evraw(",\"ka\":");
		evka(pomp_conn_get_fd(conn));
	}
	if (e == POMP_EVENT_MSG) {
		curmsg = msg;
		evi("p", curpeer);
		evbuf(pomp_msg_get_buffer(msg), 0);
	}
	evend();
	leave(&s, k, c);
}
static void raw_cb(struct pomp_ctx *ctx, struct pomp_conn *conn, struct pomp_buffer *buf, void *ud)
{
	int c = ctxidx(ctx, ud);
	struct saved s = enter(conn, c);
	uint32_t al = 0;
	const struct sockaddr *pa;
	if (cursid > 0 && S[cursid].dgram) {
		pa = pomp_conn_get_peer_addr(conn, &al);
		curpeer = al ? addridx(pa) : -1;
	}
	curbuf = buf;
	evcb("raw", c);
	evi("p", curpeer);
	evbuf(buf, 1);
	evend();
	leave(&s, "raw", c);
}
static void send_cb(struct pomp_ctx *ctx, struct pomp_conn *conn, struct pomp_buffer *buf, uint32_t st, void *cookie, void *ud)
{
	int c = ctxidx(ctx, ud);
	struct saved s = enter(conn, c);
	evcb("sent", c);
	evi("st", st);
	evi("ok", cookie == NULL);
	evbuf(buf, c >= 0 && C[c].raw);
	evend();
	leave(&s, "sent", c);
}
static void sock_cb(struct pomp_ctx *ctx, int fd, enum pomp_socket_kind kind, void *ud)
{
	int c = ctxidx(ctx, ud);
	struct saved s = enter(NULL, c);
	cursid = sidof(fd) ? sidof(fd) : -1;
	evcb("sock", c);
	evi("kind", kind);
	evend();
	leave(&s, "sock", c);
}

/* how a socket is configured: non blocking, close on exec; keepalive of TCP connections */
static int sockfl(int fd)
{
	return (fcntl(fd, F_GETFL) & O_NONBLOCK ? 1 : 0) + (fcntl(fd, F_GETFD) & FD_CLOEXEC ? 2 : 0);
}
static void evka(int fd)
{
	static const int o[] = { TCP_KEEPIDLE, TCP_KEEPINTVL, TCP_KEEPCNT };
	int v = 0, i, dom = 0, type = 0;
	socklen_t sl = sizeof(int);
	getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &dom, &sl);
	getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &sl);
	if (dom != AF_INET || type != SOCK_STREAM) {
		evraw("[]");
		return;
	}
	getsockopt(fd, SOL_SOCKET, SO_KEEPALIVE, &v, &sl);
	evraw("[%d", !!v);
	for (i = 0; v && i < 3; i++) {
		int x = 0;
		getsockopt(fd, IPPROTO_TCP, o[i], &x, &sl);
		evraw(",%d", x);
	}
	evraw("]");
}

static short rev(int fd)
{
	struct pollfd p = { fd, POLLIN | POLLOUT, 0 };
	poll(&p, 1, 0);
	return p.revents;
}
static struct pomp_loop *loopof(int c) { return C[c].own ? pomp_ctx_get_loop(C[c].ctx) : L[C[c].loop]; }

static int progress;	/* something was done in a step */
static int dostep(struct pomp_loop *loop, int l, int api, int quiet)
{
	size_t m = tr_mark(), n = tr_nev();
	int r, flt = armed;
	int i;
	for (i = 0; i <= nsid; i++)
		S[i].ag = 0;
	ev("step");
	evi("l", l);
	evend();
	depth++;
	r = api && l >= 10 ? pomp_ctx_process_fd(C[l - 10].ctx) : pomp_loop_wait_and_process(loop, 0);
	depth--;
	if (quiet && !flt && r == -ETIMEDOUT && tr_nev() == n + 1) {
		tr_rollback(m, n);
		return r;
	}
	progress |= tr_nev() != n + 1;
	ev("stepend");
	evi("r", r);
	fltinfo();
	evend();
	return r;
}
static int round_(int quiet)
{
	int i, busy = 0;
	for (i = 0; i < NLP; i++)
		if (L[i] && dostep(L[i], i, 0, quiet) != -ETIMEDOUT)
			busy = 1;
	for (i = 0; i < NC; i++)
		if (C[i].ctx && C[i].own && dostep(pomp_ctx_get_loop(C[i].ctx), 10 + i, i & 1, quiet) != -ETIMEDOUT)
			busy = 1;
	return busy;
}
static int unsettled(void)
{
	int i;
	for (i = 1; i <= nsid; i++)
		if (S[i].open && S[i].own == 0 && !S[i].sus && (rev(S[i].fd) & (POLLIN | POLLERR | POLLHUP)))
			return 1;
	return 0;
}
static void settle(void)
{
	int i, n = 0, vain, quiet = 0, busy = 0, tries, first = 1, mfd = 0, fd;
	for (tries = 0; tries < 8; tries++) {
		for (n = 0, quiet = 0, vain = 0; n < 250 && vain < 40 && quiet < 2; n++) {
			progress = 0;
			quiet = round_(1) ? 0 : quiet + 1;
			vain = progress ? 0 : vain + 1;
		}
		busy = quiet < 2;
		if (busy || !unsettled())
			break;
		usleep(tries < 4 ? 200 : 5000);
	}
	for (fd = 0; fd < 512; fd++)
		mfd += whichfd(fd) >= 0;
	ev("quiet");
	evi("busy", busy);
	evi("mfd", mfd);
	evraw(",\"w\":[");
	for (i = 1; i <= nsid; i++)
		if (S[i].open && S[i].own == 0) {
			short r = rev(S[i].fd);
			evraw("%s[%d,%d,%d,%d,%d,", first ? "" : ",", i, !!(r & POLLIN), !!(r & POLLOUT), r & POLLERR ? 2 : !!(r & POLLHUP), sockfl(S[i].fd));
			evka(S[i].fd);
			evraw("]");
			first = 0;
		}
	evraw("]");
	evend();
}

static int listconns(int c, struct pomp_conn **out, int max)
{
	int n = 0;
	struct pomp_conn *p = NULL;
	if (C[c].startc == 's')
		while ((p = pomp_ctx_get_next_conn(C[c].ctx, p)) != NULL && n < max)
			out[n++] = p;
	else if (C[c].startc == 'c' && (p = pomp_ctx_get_conn(C[c].ctx)) != NULL)
		out[n++] = p;
	return n;
}
static void evsids(const char *k, struct pomp_conn **cs, int n)
{
	int i;
	evraw(",\"%s\":[", k);
	for (i = 0; i < n; i++)
		evraw("%s%d", i ? "," : "", sidof(pomp_conn_get_fd(cs[i])));
	evraw("]");
}
static struct pomp_conn *pickconn(int c, const char *w)
{
	struct pomp_conn *cs[64];
	int n;
	if (w[0] == '.')
		return curc == c ? curconn : NULL;
	n = listconns(c, cs, 64);
	return n ? cs[atoi(w) % n] : NULL;
}

/* payloads: m<id>:<size>, e<id>, f<id>:<size>:<files>, r<id>:<size>, R: the buffer just received */
static struct { char k; unsigned id, seq; size_t size; int nfd, fd[8]; } pl;
static char *str(void)
{
	char *s = malloc(pl.size + 1);
	memset(s, 'a' + (int)(pl.id % 26), pl.size);
	s[pl.size] = 0;
	return s;
}
static void parsepl(const char *s)
{
	char *e;
	memset(&pl, 0, sizeof(pl));
	pl.k = *s;
	pl.id = (unsigned)strtoul(s + 1, &e, 10);
	pl.seq = ++seqno;
	if (*e == ':')
		pl.size = strtoul(e + 1, &e, 10);
	if (*e == ':')
		for (e++; *e && pl.nfd < 8; e++)
			if (*e >= '0' && *e <= '7')
				pl.fd[pl.nfd++] = *e - '0';
	if (pl.size > 60000 && pl.k != 'r')
		pl.size = 60000;
}
static int wr(struct pomp_msg *m)
{
	char *s = str();
	int r;
	switch (pl.k == 'e' ? -1 : pl.nfd) {
	case -1: r = pomp_msg_write(m, pl.id, NULL); break;
	case 0: r = pomp_msg_write(m, pl.id, "%u%s", pl.seq, s); break;
	case 1: r = pomp_msg_write(m, pl.id, "%u%x%s", pl.seq, M[pl.fd[0]], s); break;
	case 2: r = pomp_msg_write(m, pl.id, "%x%u%x%s", M[pl.fd[0]], pl.seq, M[pl.fd[1]], s); break;
	case 3: r = pomp_msg_write(m, pl.id, "%u%x%s%x%x", pl.seq, M[pl.fd[0]], s, M[pl.fd[1]], M[pl.fd[2]]); break;
	default: r = pomp_msg_write(m, pl.id, "%u%x%x%s%x%x", pl.seq, M[pl.fd[0]], M[pl.fd[1]], s, M[pl.fd[2]], M[pl.fd[3]]); break;
	}
	free(s);
	return r;
}
static int vcall(struct pomp_ctx *ctx, struct pomp_conn *conn)
{
	char *s = str();
	int r;
#define SEND(...) (conn ? pomp_conn_send(conn, __VA_ARGS__) : pomp_ctx_send(ctx, __VA_ARGS__))
	switch (pl.k == 'e' ? -1 : pl.nfd) {
	case -1: r = SEND(pl.id, NULL); break;
	case 0: r = SEND(pl.id, "%u%s", pl.seq, s); break;
	case 1: r = SEND(pl.id, "%u%x%s", pl.seq, M[pl.fd[0]], s); break;
	case 2: r = SEND(pl.id, "%x%u%x%s", M[pl.fd[0]], pl.seq, M[pl.fd[1]], s); break;
	case 3: r = SEND(pl.id, "%u%x%s%x%x", pl.seq, M[pl.fd[0]], s, M[pl.fd[1]], M[pl.fd[2]]); break;
	default: r = SEND(pl.id, "%u%x%x%s%x%x", pl.seq, M[pl.fd[0]], M[pl.fd[1]], s, M[pl.fd[2]], M[pl.fd[3]]); break;
	}
	free(s);
	return r;
}
static void sendcmd(int c, const char *w, int how, const char *spec, int d)
{
	struct pomp_ctx *ctx = C[c].ctx;
	struct pomp_conn *conn = NULL, *cs[64];
	struct pomp_msg *m = NULL;
	struct pomp_buffer *b = NULL;
	int r, n, i, on = armed;
	long fn = 0;
	(void)fn;
	if (!ctx || insend)
		return;
	if (w[0] != '*' && w[0] != '>') {
		conn = pickconn(c, w);
		if (!conn)
			return;
	}
	/* the message is made before: failures are for the send */
	if (on)
		vw_point();
	parsepl(spec);
	if (pl.k == 'r' || pl.k == 'R') {
		if (pl.k == 'R' && curbuf) {
			b = curbuf;
			pomp_buffer_ref(b);
		} else {
			size_t cap = 0;
			void *data = NULL;
			b = pomp_buffer_new(pl.size + 2);
			if (!b || pomp_buffer_get_data(b, &data, NULL, &cap) < 0)
				return;
			memset(data, 'A' + (int)(pl.id % 26), pl.size + 2);
			((uint8_t *)data)[0] = (uint8_t)pl.seq;
			((uint8_t *)data)[1] = (uint8_t)(pl.seq >> 8);
			pomp_buffer_set_len(b, pl.size + 2);
		}
		how = 1;
	} else {
		m = pomp_msg_new();
		if (!m || wr(m) < 0) {
			if (m)
				pomp_msg_destroy(m);
			return;
		}
		if (pl.k == 'M' && curmsg) {
			pomp_msg_destroy(m);
			m = pomp_msg_new_copy(curmsg);
			how = 1;
		}
	}
	n = conn ? 1 : listconns(c, cs, 64);
	if (conn)
		cs[0] = conn;
	ev("send");
	evi("c", c);
	evi("b", conn == NULL);
	if (w[0] == '>')
		evraw(",\"t\":[]");
	else
		evsids("t", cs, n);
	evi("raw", b != NULL);
	evi("to", w[0] == '>');
	if (w[0] == '>') {
		evi("d", d);
	} else {
		evi("d", conn == curconn ? curpeer : -1);
	}
	evi("reply", conn != NULL && conn == curconn && cursid > 0 && S[cursid].dgram);
	evbuf(b ? b : pomp_msg_get_buffer(m), b != NULL);
	evend();
	if (armed) {
		/* count from here */
		extern void rearm(void);
		rearm();
	}
	insend = 1;
	if (w[0] == '>') {
		socklen_t al = mkaddr(d);
		r = b ? pomp_ctx_send_raw_buf_to(ctx, b, &A.sa, al) : pomp_ctx_send_msg_to(ctx, m, &A.sa, al);
	} else if (b) {
		r = conn ? pomp_conn_send_raw_buf(conn, b) : pomp_ctx_send_raw_buf(ctx, b);
	} else if (how) {
		r = conn ? pomp_conn_send_msg(conn, m) : pomp_ctx_send_msg(ctx, m);
	} else {
		r = vcall(ctx, conn);
	}
	insend = 0;
	ret(r);
	if (b)
		pomp_buffer_unref(b);
	if (m)
		pomp_msg_destroy(m);
	for (i = 0; i < n; i++)
		cs[i] = NULL;
}
static struct { long n; int err, more; uint64_t m; } fl;
void rearm(void) { told = 0; vw_fault_arm(fl.n, fl.err, fl.m, fl.more); }

static int peerfd(int p) { return p >= 0 && p < NP && P[p] && S[P[p]].open ? S[P[p]].fd : -1; }
static void hclose(int p, int rst)
{
	struct linger lg = { 1, 0 };
	int fd = peerfd(p), sid = P[p];
	if (fd < 0)
		return;
	if (rst)
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
	delsid(sid);
	close(fd);
	P[p] = 0;
	ev("hclose");
	evi("s", sid);
	evi("rst", rst);
	evend();
}

static void cmd(const char *line0)
{
	char buf[16384], *line = buf, *tv[16];
	int n, a, b, c, d, r, i;
	struct pomp_conn *conn, *cs[64];
	socklen_t al;
	snprintf(buf, sizeof(buf), "%s", line0);
	if (!strncmp(line, "on ", 3)) {
		char *sp = strchr(line + 3, ' ');
		if (sp && nact < NACT) {
			*sp = 0;
			snprintf(act[nact].src, sizeof(act[0].src), "%s", line + 3);
			act[nact].cmds = strdup(sp + 1);
			act[nact].used = 0;
			nact++;
		}
		return;
	}
	n = tok(line, tv, 16);
	if (!n)
		return;
	a = n > 1 ? atoi(tv[1]) : 0;
	b = n > 2 ? atoi(tv[2]) : 0;
	c = n > 3 ? atoi(tv[3]) : 0;
	d = n > 4 ? atoi(tv[4]) : 0;
#define IS(s) (!strcmp(tv[0], s))
	if (IS("impl")) {
		pomp_internal_set_loop_impl(a ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
		pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
		pomp_evt_set_ops(b ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
	} else if (IS("fault")) {
		fl.n = a;
		fl.err = b;
		fl.more = c;
		fl.m = n > 4 ? strtoull(tv[4], NULL, 0) : ~0ull;
		rearm();
		armed = 1;
		told = 0;
	} else if (IS("io")) {
		/* io class v,v,v */
		const char *cl = "rwkbalp", *q;
		char *e;
		q = strchr(cl, tv[1][0]);
		if (!q || n < 3)
			return;
		i = (int)(q - cl);
		io[i].n = io[i].i = 0;
		for (e = tv[2]; *e && io[i].n < 64;) {
			io[i].v[io[i].n++] = *e == 'E' ? -9999 : (int)strtol(e, NULL, 10);
			while (*e && *e != ',')
				e++;
			e += *e == ',';
		}
	} else if (IS("loop")) {
		if (!L[a])
			L[a] = pomp_loop_new();
	} else if (IS("new")) {
		/* new c loop(-1: own) raw sockcb sendcb */
		int raw = c, scb = n > 5 ? atoi(tv[5]) : 0;
		if (C[a].ctx || (b >= 0 && !L[b]))
			return;
		C[a].ctx = b >= 0 ? pomp_ctx_new_with_loop(event_cb, (void *)(intptr_t)a, L[b])
			: pomp_ctx_new(event_cb, (void *)(intptr_t)a);
		C[a].own = b < 0;
		C[a].loop = b;
		C[a].raw = raw;
		C[a].startc = 0;
		r = C[a].ctx ? 0 : -1;
		if (C[a].ctx && raw)
			r |= pomp_ctx_set_raw(C[a].ctx, raw_cb);
		if (C[a].ctx && d)
			r |= pomp_ctx_set_socket_cb(C[a].ctx, sock_cb);
		if (C[a].ctx && scb)
			r |= pomp_ctx_set_send_cb(C[a].ctx, send_cb);
		ev("new");
		evi("c", a);
		evi("l", b < 0 ? 10 + a : b);
		evi("raw", raw);
		evi("kcb", d);
		evi("scb", scb);
		evi("r", r);
		fltinfo();
		evend();
	} else if (a >= 0 && a < NC && (IS("start") || IS("stop") || IS("destroy") || IS("send") || IS("disc") || IS("sus") ||
			IS("res") || IS("rbl") || IS("crbl") || IS("ka") || IS("laddr") || IS("list") || IS("set") || IS("step"))) {
		struct pomp_ctx *ctx = C[a].ctx;
		if (IS("step")) {
			/* step l */
			if (depth)
				return;
			if (a < NLP && L[a])
				dostep(L[a], a, 0, 0);
			return;
		}
		if (!ctx)
			return;
		if (IS("start")) {
			/* start c type addr [mode] */
			char t = tv[2][0];
			int old = startc, oldt = C[a].startc;
			if (insend)
				return;
			al = mkaddr(c);
			ev("start");
			evi("c", a);
			evs("t", t == 's' ? "s" : t == 'c' ? "c" : "d");
			evi("a", c);
			evi("mode", d);
			evend();
			startc = a;
			C[a].startc = t;
			r = t == 's' ? (d ? pomp_ctx_listen_with_access_mode(ctx, &A.sa, al, (uint32_t)d) : pomp_ctx_listen(ctx, &A.sa, al))
				: t == 'c' ? pomp_ctx_connect(ctx, &A.sa, al) : pomp_ctx_bind(ctx, &A.sa, al);
			startc = old;
			if (r == -EBUSY)
				C[a].startc = oldt;
			ret(r);
		} else if (IS("stop")) {
			ev("stop");
			evi("c", a);
			evend();
			r = pomp_ctx_stop(ctx);
			ret(r);
		} else if (IS("destroy")) {
			if (depth)
				return;
			r = pomp_ctx_destroy(ctx);
			if (r == 0) {
				C[a].ctx = NULL;
			}
			ev("destroy");
			evi("c", a);
			evi("r", r);
			fltinfo();
			evend();
		} else if (IS("send")) {
			/* send c who how payload [addr] */
			if (n > 4)
				sendcmd(a, tv[2], c, tv[4], n > 5 ? atoi(tv[5]) : 0);
		} else if (IS("disc")) {
			conn = pickconn(a, tv[2]);
			if (!conn)
				return;
			ev("disc");
			evi("c", a);
			evi("s", sidof(pomp_conn_get_fd(conn)));
			evend();
			r = pomp_conn_disconnect(conn);
			ret(r);
		} else if (IS("sus") || IS("res") || IS("rbl")) {
			conn = pickconn(a, tv[2]);
			if (!conn)
				return;
			i = sidof(pomp_conn_get_fd(conn));
			r = IS("sus") ? pomp_conn_suspend_read(conn) : IS("res") ? pomp_conn_resume_read(conn)
				: pomp_conn_set_read_buffer_len(conn, (size_t)c);
			if (r == 0 && !IS("rbl"))
				S[i].sus = IS("sus");
			ev(tv[0]);
			evi("c", a);
			evi("s", i);
			if (IS("rbl"))
				evi("n", c);
			evi("r", r);
			fltinfo();
			evend();
		} else if (IS("crbl")) {
			r = pomp_ctx_set_read_buffer_len(ctx, (size_t)b);
			ev("crbl");
			evi("c", a);
			evi("n", b);
			evi("r", r);
			evend();
		} else if (IS("ka")) {
			/* ka c enable idle interval count */
			i = n > 5 ? atoi(tv[5]) : 0;
			r = pomp_ctx_setup_keepalive(ctx, b, c, d, i);
			ev("ka");
			evi("c", a);
			evraw(",\"v\":[%d,%d,%d,%d]", b, c, d, i);
			evi("r", r);
			evend();
		} else if (IS("laddr")) {
			/* the sockets of the library that have the address the context says it has */
			uint32_t len = 77;
			const struct sockaddr *sa = pomp_ctx_get_local_addr(ctx, &len);
			struct sockaddr_storage ss;
			int first = 1;
			ev("laddr");
			evi("c", a);
			evi("n", sa == NULL ? -1 : (int)len);
			evraw(",\"t\":[");
			for (i = 1; sa && len && i <= nsid; i++) {
				al = sizeof(ss);
				if (S[i].open && !S[i].own && (S[i].lsn || S[i].dgram) && getsockname(S[i].fd, (struct sockaddr *)&ss, &al) == 0 &&
						al == len && !memcmp(&ss, sa, al)) {
					evraw("%s%d", first ? "" : ",", i);
					first = 0;
				}
			}
			evraw("]");
			evend();
		} else if (IS("set")) {
			r = tv[2][0] == 'r' ? pomp_ctx_set_raw(ctx, raw_cb)
				: tv[2][0] == 'k' ? pomp_ctx_set_socket_cb(ctx, sock_cb) : pomp_ctx_set_send_cb(ctx, send_cb);
			if (r == 0 && tv[2][0] == 'r')
				C[a].raw = 1;
			ev("set");
			evi("c", a);
			evs("k", tv[2]);
			evi("r", r);
			evend();
		} else {
			i = listconns(a, cs, 64);
			ev("list");
			evi("c", a);
			evsids("t", cs, i);
			evend();
		}
	} else if (IS("cstep")) {
		if (!depth && C[a].ctx)
			dostep(loopof(a), C[a].own ? 10 + a : C[a].loop, b, 0);
	} else if (IS("settle")) {
		if (!depth)
			settle();
	} else if (IS("round")) {
		for (i = 0; !depth && i < (a ? a : 1); i++)
			round_(1);
	} else if (IS("adv")) {
		int64_t x;
		int v;
		uint64_t target = vw_now + (uint64_t)a;
		if (depth)
			return;
		while ((v = vw_timer_next(&x)) >= 0 && x <= (int64_t)target)
			vw_timer_fire(v);
		vw_now = target;
		ev("adv");
		evi("ms", a);
		evend();
	} else if (IS("keep")) {
		/* keep what is being delivered */
		if (nkept >= NK || (!curmsg && !curbuf))
			return;
		K[nkept].m = NULL;
		K[nkept].b = NULL;
		if (curmsg)
			K[nkept].m = pomp_msg_new_copy(curmsg);
		else {
			K[nkept].b = curbuf;
			pomp_buffer_ref(curbuf);
		}
		ev("keep");
		evi("i", nkept);
		evbuf(K[nkept].m ? pomp_msg_get_buffer(K[nkept].m) : K[nkept].b, K[nkept].b != NULL);
		evend();
		nkept++;
	} else if (IS("chk")) {
		for (i = 0; i < nkept; i++) {
			ev("chk");
			evi("i", i);
			evbuf(K[i].m ? pomp_msg_get_buffer(K[i].m) : K[i].b, K[i].b != NULL);
			evend();
		}
	} else if (IS("path")) {
		struct stat st;
		mkaddr(3);
		r = stat(A.un.sun_path, &st);
		ev("path");
		evi("ex", r == 0);
		evi("mode", r == 0 ? (int)(st.st_mode & 0777) : 0);
		evend();
	} else if (IS("rl") || IS("rc") || IS("ru")) {
		/* listener, client or datagram socket of the harness */
		int fd, one = 1;
		if (P[a])
			return;
		al = mkaddr(b);
		fd = socket(A.sa.sa_family, (IS("ru") ? SOCK_DGRAM : SOCK_STREAM) | SOCK_NONBLOCK, 0);
		if (fd < 0)
			return;
		i = newsid(fd, 1);
		S[i].dgram = IS("ru");
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		if (IS("rc")) {
			if (A.sa.sa_family == AF_UNIX) {
				nameit(i);
				mkaddr(b);
			}
			r = connect(fd, &A.sa, al) < 0 ? -errno : 0;
			if (r == -EINPROGRESS)
				r = 0;
		} else {
			if (A.sa.sa_family == AF_UNIX && b == 3)
				unlink(A.un.sun_path);
			S[i].unix_ = A.sa.sa_family == AF_UNIX;
			r = bind(fd, &A.sa, al) < 0 ? -errno : 0;
			if (r == 0 && IS("rl")) {
				r = listen(fd, n > 3 ? c : 16) < 0 ? -errno : 0;
				S[i].lsn = 1;
			}
		}
		if (r < 0) {
			delsid(i);
			close(fd);
			return;
		}
		learnport(i);
		P[a] = i;
		ev(IS("rl") ? "hlisten" : IS("rc") ? "hconnect" : "hbind");
		evi("s", i);
		evi("a", b);
		evend();
	} else if (IS("ra")) {
		/* ra listener peer */
		int fd = peerfd(a), nfd;
		if (fd < 0 || P[b])
			return;
		nfd = accept4(fd, NULL, NULL, SOCK_NONBLOCK);
		if (nfd < 0)
			return;
		i = newsid(nfd, 1);
		S[i].unix_ = S[P[a]].unix_;
		S[i].port = -1;
		P[b] = i;
		ev("haccept");
		evi("n", i);
		evi("p", peersid(nfd));
		evend();
	} else if (IS("rw") || IS("rt")) {
		/* rw p hex [files] ; rt p addr hex */
		size_t len, k;
		ssize_t w;
		int fd = peerfd(a), nf = 0, fds[16];
		const char *f = IS("rw") && n > 3 ? tv[3] : "";
		struct msghdr mh;
		struct iovec iov;
		union { struct cmsghdr h; char b[CMSG_SPACE(16 * sizeof(int))]; } cb;
		if (fd < 0)
			return;
		len = unhex(tv[IS("rw") ? 2 : 3], big, MAXB);
		memset(&mh, 0, sizeof(mh));
		memset(&cb, 0, sizeof(cb));
		iov.iov_base = big;
		iov.iov_len = len;
		mh.msg_iov = &iov;
		mh.msg_iovlen = 1;
		if (IS("rt")) {
			mh.msg_namelen = mkaddr(b);
			mh.msg_name = &A;
		}
		for (; *f && nf < 16; f++)
			if (*f >= '0' && *f <= '7')
				fds[nf++] = M[*f - '0'];
		if (nf) {
			mh.msg_control = &cb;
			mh.msg_controllen = CMSG_SPACE((size_t)nf * sizeof(int));
			cb.h.cmsg_level = SOL_SOCKET;
			cb.h.cmsg_type = SCM_RIGHTS;
			cb.h.cmsg_len = CMSG_LEN((size_t)nf * sizeof(int));
			memcpy(CMSG_DATA(&cb.h), fds, (size_t)nf * sizeof(int));
		}
		w = sendmsg(fd, &mh, MSG_NOSIGNAL);
		if (w <= 0 && !(w == 0 && IS("rt")))
			return;
		ev(IS("rw") ? "hw" : "ht");
		evi("s", P[a]);
		if (IS("rt"))
			evi("d", b);
		evb("x", big, (size_t)w);
		evrle("rx", big, (size_t)w);
		evraw(",\"fds\":[");
		for (k = 0, f = n > 3 && IS("rw") ? tv[3] : ""; *f; f++)
			if (*f >= '0' && *f <= '7')
				evraw("%s%c", k++ ? "," : "", *f);
		evraw("]");
		evend();
	} else if (IS("rr")) {
		/* rr p [max [count]] */
		int fd = peerfd(a), cnt = n > 3 ? c : 1000;
		ssize_t w;
		struct sockaddr_storage ss;
		socklen_t sl;
		while (fd >= 0 && cnt-- > 0) {
			sl = sizeof(ss);
			memset(&ss, 0, sizeof(ss));
			w = recvfrom(fd, big, n > 2 && b > 0 && !S[P[a]].dgram ? (size_t)b : MAXB, 0, (struct sockaddr *)&ss, &sl);
			if (w < 0 && (errno == EAGAIN || errno == EINTR))
				break;
			ev("hr");
			evi("s", P[a]);
			evi("n", w < 0 ? -errno : w);
			if (S[P[a]].dgram)
				evi("p", addridx((struct sockaddr *)&ss));
			evrle("x", big, w > 0 ? (size_t)w : 0);
			evend();
			if (w <= 0 && !S[P[a]].dgram)
				break;
		}
	} else if (IS("rs")) {
		int fd = peerfd(a);
		if (fd >= 0 && shutdown(fd, SHUT_WR) == 0) {
			ev("hshut");
			evi("s", P[a]);
			evend();
		}
	} else if (IS("rx")) {
		if (a >= 0 && a < NP)
			hclose(a, n > 2 ? b : 0);
	} else if (IS("end")) {
		nact = 0;
		memset(io, 0, sizeof(io));
		for (i = 0; i < NC; i++)
			if (C[i].ctx) {
				char x[32];
				snprintf(x, sizeof(x), "stop %d", i);
				cmd(x);
			}
		settle();
		for (i = 0; i < NC; i++)
			if (C[i].ctx) {
				char x[32];
				snprintf(x, sizeof(x), "destroy %d", i);
				cmd(x);
			}
		cmd("chk");
		for (i = 0; i < nkept; i++) {
			if (K[i].m)
				pomp_msg_destroy(K[i].m);
			if (K[i].b)
				pomp_buffer_unref(K[i].b);
		}
		for (i = 0, r = 0; i < NLP; i++)
			if (L[i])
				r |= pomp_loop_destroy(L[i]);
		for (i = 0; i < NP; i++)
			if (P[i]) {
				if (S[P[i]].lsn && S[P[i]].unix_) {
					mkaddr(3);
					unlink(A.un.sun_path);
				}
				close(S[P[i]].fd);
			}
		ev("end");
		evi("r", r);
		evi("nalloc", vw_nalloc);
		evi("n", vw_nfds() - fdbase);
		evi("nsync", vw_nsync());
		evend();
	}
}

void run_script(char **lines, int n)
{
	int i;
	struct stat st;
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("VW_LOG"))
		dup2(nul, 2);
	close(nul);
	signal(SIGPIPE, SIG_IGN);
	vw_vtimers = 1;
	vw_noblock = 1;
	vw_pre = pre;
	vw_post = post;
	for (i = 0; i < NM; i++) {
		M[i] = memfd_create("vw", MFD_CLOEXEC);
		fstat(M[i], &st);
		Mino[i] = st.st_ino;
	}
	fdbase = vw_nfds();
	for (i = 0; i < n; i++) {
		cmd(lines[i]);
		if (armed && strncmp(lines[i], "fault", 5) != 0) {
			vw_fault_disarm();
			armed = 0;
		}
	}
}
int main(int argc, char **argv) { tr_timeout = 20; tr_maxev = 6000; return tr_main(argc, argv); }
