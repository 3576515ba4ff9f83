/* Driver of the C++ binding: scripts in, traces out (see spec/CppTrace.tla).
 *
 *   w HOW ID T:HEX..         write a message: t typed format, e Encoder, p printf
 *   r HOW HEX|- T..          read one: t typed format, d Decoder
 *   fd N                     a message with a descriptor
 *   flt N                    the Nth allocation of the library from now fails
 *   cnew C own raw / cdel C / cstart C s|c|b A / cstop C
 *   csend C HOW ID HEX / ksend K HOW ID HEX / kdisc K (K: number of a connection, . the current one)
 *   csendto C HOW ID HEX A / wake C / um MODE (a local server)
 *   on KINDC cmd;cmd..       done in the next callback of that kind
 *   ev OP E / tm OP T [delay period] / fdl OP F
 *   step / settle / adv MS
 */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include <functional>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
extern "C" {
#include "tr.h"
}
#include "libpomp.h"
/* the message of the next Message (or NULL), and the message of the last one */
static struct pomp_msg *preset, *lastnew;
static struct pomp_msg *drv_msg_new(void);
#define pomp_msg_new drv_msg_new
#define free vw_free		/* (the strings it gets are the library's) */
#include "libpomp.hpp"
#undef free
#undef pomp_msg_new
static struct pomp_msg *drv_msg_new(void)
{
	lastnew = preset ? preset : pomp_msg_new();
	preset = NULL;
	return lastnew;
}
using namespace pomp;

/* objects allocated with new */
static long nnew;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); nnew++; return p; }
void operator delete(void *p) noexcept { if (p) nnew--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) nnew--; free(p); }

static void cmd(const char *line);
static int depth;
static int armed;
static void evlist(const char *k, const int *v, int n)
{
	evraw(",\"%s\":[", k);
	for (int i = 0; i < n; i++)
		evraw("%s%d", i ? "," : "", v[i]);
	evraw("]");
}
static void evid(uint32_t id) { evb("id", &id, 4); }	/* (little endian) */
static void ret(int r)
{
	ev("ret");
	evi("r", r);
	evend();
}

/* ---- actions in callbacks -------------------------------------------------- */
static struct { char src[16], cmds[400]; int used; } act[64];
static int nact;
static void actions(const char *k, int c)
{
	char src[16], buf[400], *p, *q;
	if (depth > 3)
		return;
	snprintf(src, sizeof(src), "%s%d", k, c);
	for (int i = 0; i < nact; i++) {
		if (act[i].used || strcmp(act[i].src, src) != 0)
			continue;
		act[i].used = 1;
		strcpy(buf, act[i].cmds);
		for (p = buf; p; p = q) {
			q = strchr(p, ';');
			if (q)
				*q++ = 0;
			cmd(p);
		}
		return;
	}
}
static void cbend(const char *k, int c)
{
	depth++;
	actions(k, c);
	depth--;
	ev("cbend");
	evend();
}

/* ---- messages -------------------------------------------------------------- */
struct Val {
	uint8_t b[8];
	std::string s;
	std::vector<uint8_t> v;
};
template<ArgType T> struct Get {};
/* (what is read replaces what was there) */
#define NUM(T, t) template<> struct Get<T> { typedef t type; static type old() { return (type)77; } \
	static type in(const Val &x) { type r; memcpy(&r, x.b, sizeof(r)); return r; } \
	static void out(Val &x, const type &r) { memcpy(x.b, &r, sizeof(r)); } }
NUM(ArgI8, int8_t); NUM(ArgU8, uint8_t); NUM(ArgI16, int16_t); NUM(ArgU16, uint16_t); NUM(ArgI32, int32_t); NUM(ArgU32, uint32_t);
NUM(ArgI64, int64_t); NUM(ArgU64, uint64_t); NUM(ArgF32, float); NUM(ArgF64, double);
template<> struct Get<ArgStr> { typedef std::string type; static type old() { return "old"; } static const type &in(const Val &x) { return x.s; } static void out(Val &x, const type &r) { x.s = r; } };
template<> struct Get<ArgBuf> { typedef std::vector<uint8_t> type; static type old() { return type(3, 7); } static const type &in(const Val &x) { return x.v; } static void out(Val &x, const type &r) { x.v = r; } };

#define MAXA 12
static int T[MAXA];	/* types of the wire, from 1 */
static int NT;
static size_t width(int t) { static const size_t w[] = { 0, 1, 1, 2, 2, 4, 4, 8, 8, 0, 0, 4, 8 }; return w[t]; }
static void parse(Val &x, int t, const char *h)
{
	static uint8_t tmp[70000];
	size_t n = unhex(h, tmp, sizeof(tmp));
	memset(x.b, 0, 8);
	if (t == 9)
		x.s.assign((const char *)tmp, n);
	else if (t == 10)
		x.v = std::vector<uint8_t>(tmp, tmp + n);
	else
		memcpy(x.b, tmp, width(t));
}
/* values are the fields v1, v2.. */
static void evvals(const Val *v, int n)
{
	char k[8];
	evi("n", n);
	for (int i = 0; i < n; i++) {
		snprintf(k, sizeof(k), "v%d", i + 1);
		if (T[i] == 9)
			evb(k, v[i].s.data(), v[i].s.size());
		else if (T[i] == 10)
			evb(k, v[i].v.data(), v[i].v.size());
		else
			evb(k, v[i].b, width(T[i]));
	}
}
/* typed formats: any of up to two arguments, and some long ones */
struct Fmt {
	int n, t[MAXA];
	uint32_t id;
	int (*w)(Message &, const Val *);
	int (*r)(const Message &, Val *);
};
static std::vector<Fmt> *fmts;
template<uint32_t Id> struct F0 {
	static int w(Message &m, const Val *) { return m.write<MessageFormat<Id>>(); }
	static int r(const Message &m, Val *) { return m.read<MessageFormat<Id>>(); }
};
template<uint32_t Id, ArgType A> struct F1 {
	typedef MessageFormat<Id, A> M;
	static int w(Message &m, const Val *v) { return m.write<M>(Get<A>::in(v[0])); }
	static int r(const Message &m, Val *v) { typename Get<A>::type a = Get<A>::old(); int x = m.read<M>(a); Get<A>::out(v[0], a); return x; }
};
template<uint32_t Id, ArgType A, ArgType B> struct F2 {
	typedef MessageFormat<Id, A, B> M;
	static int w(Message &m, const Val *v) { return m.write<M>(Get<A>::in(v[0]), Get<B>::in(v[1])); }
	static int r(const Message &m, Val *v) {
		typename Get<A>::type a = Get<A>::old(); typename Get<B>::type b = Get<B>::old();
		int x = m.read<M>(a, b); Get<A>::out(v[0], a); Get<B>::out(v[1], b); return x; }
};
template<uint32_t Id, ArgType A, ArgType B, ArgType C, ArgType D, ArgType E> struct F5 {
	typedef MessageFormat<Id, A, B, C, D, E> M;
	static int w(Message &m, const Val *v) { return m.write<M>(Get<A>::in(v[0]), Get<B>::in(v[1]), Get<C>::in(v[2]), Get<D>::in(v[3]), Get<E>::in(v[4])); }
	static int r(const Message &m, Val *v) {
		typename Get<A>::type a = Get<A>::old(); typename Get<B>::type b = Get<B>::old(); typename Get<C>::type c = Get<C>::old();
		typename Get<D>::type d = Get<D>::old(); typename Get<E>::type e = Get<E>::old();
		int x = m.read<M>(a, b, c, d, e);
		Get<A>::out(v[0], a); Get<B>::out(v[1], b); Get<C>::out(v[2], c); Get<D>::out(v[3], d); Get<E>::out(v[4], e); return x; }
};
static void reg(int (*w)(Message &, const Val *), int (*r)(const Message &, Val *), uint32_t id, int n, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0)
{
	Fmt f = { n, { a, b, c, d, e }, id, w, r };
	fmts->push_back(f);
}
#define ALL(X) X(ArgI8) X(ArgU8) X(ArgI16) X(ArgU16) X(ArgI32) X(ArgU32) X(ArgI64) X(ArgU64) X(ArgStr) X(ArgBuf) X(ArgF32) X(ArgF64)
#define ID1(A) (A == ArgI8 ? 0 : A == ArgStr ? 0xffffffffu : A == ArgU64 ? 0x80000000u : 100 + A)
template<ArgType A> static void reg2()
{
#define R2(B) reg(&F2<1000 + A * 13 + B, A, B>::w, &F2<1000 + A * 13 + B, A, B>::r, 1000 + A * 13 + B, 2, A + 1, B + 1);
	ALL(R2)
}
static void regall()
{
	fmts = new std::vector<Fmt>();
	reg(&F0<7>::w, &F0<7>::r, 7, 0);
	reg(&F0<0xfffffffeu>::w, &F0<0xfffffffeu>::r, 0xfffffffeu, 0);
#define R1(A) reg(&F1<ID1(A), A>::w, &F1<ID1(A), A>::r, ID1(A), 1, A + 1);
	ALL(R1)
#define R2A(A) reg2<A>();
	ALL(R2A)
#define R5(i, A, B, C, D, E) reg(&F5<i, A, B, C, D, E>::w, &F5<i, A, B, C, D, E>::r, i, 5, A + 1, B + 1, C + 1, D + 1, E + 1);
	R5(256, ArgI8, ArgU16, ArgI32, ArgU64, ArgStr)
	R5(65536, ArgStr, ArgBuf, ArgStr, ArgBuf, ArgStr)
	R5(16777216, ArgF64, ArgF32, ArgI64, ArgU32, ArgBuf)
	R5(5000, ArgU8, ArgU8, ArgU8, ArgI16, ArgI16)
	R5(5001, ArgBuf, ArgI64, ArgStr, ArgI8, ArgF32)
}
static const Fmt *format(int n, const int *t, int skip)
{
	for (size_t i = 0; i < fmts->size(); i++)
		if ((*fmts)[i].n == n && memcmp((*fmts)[i].t, t, (size_t)n * sizeof(int)) == 0 && (n > 0 || skip-- <= 0))
			return &(*fmts)[i];
	return NULL;
}
static int encw(Encoder &e, int t, const Val &x)
{
	switch (t) {
	case 1: return e.write(Get<ArgI8>::in(x));
	case 2: return e.writeU8(Get<ArgU8>::in(x));
	case 3: return e.writeI16(Get<ArgI16>::in(x));
	case 4: return e.write(Get<ArgU16>::in(x));
	case 5: return e.write(Get<ArgI32>::in(x));
	case 6: return e.writeU32(Get<ArgU32>::in(x));
	case 7: return e.writeI64(Get<ArgI64>::in(x));
	case 8: return e.write(Get<ArgU64>::in(x));
	case 9: return x.s.size() & 1 ? e.write(x.s) : e.write(x.s.c_str());
	case 10: return e.write(x.v);
	case 11: return e.writeF32(Get<ArgF32>::in(x));
	default: return e.write(Get<ArgF64>::in(x));
	}
}
template<ArgType A> static int decr_(Decoder &d, Val &x)
{
	typename Get<A>::type a = Get<A>::old();
	int r = d.read(a);
	Get<A>::out(x, a);
	return r;
}
static int decr(Decoder &d, int t, Val &x)
{
#define DR(A) case A + 1: return decr_<A>(d, x);
	switch (t) { ALL(DR) }
	return -1;
}
static void evmsg(const struct pomp_msg *m)
{
	struct pomp_buffer *b = m ? pomp_msg_get_buffer(m) : NULL;
	const void *d = NULL;
	size_t l = 0, c = 0;
	if (b && pomp_buffer_get_cdata(b, &d, &l, &c) == 0)
		evb("x", d, l);
	else
		evb("x", NULL, 0);
}
static uint8_t *lastmsg;
static size_t lastlen;
static void keepmsg(const struct pomp_msg *m)
{
	struct pomp_buffer *b = m ? pomp_msg_get_buffer(m) : NULL;
	const void *d = NULL;
	size_t l = 0, c = 0;
	if (b && pomp_buffer_get_cdata(b, &d, &l, &c) == 0 && l >= 12) {
		free(lastmsg);
		lastmsg = (uint8_t *)malloc(l);
		memcpy(lastmsg, d, l);
		lastlen = l;
	}
}
static void wres(char how, uint32_t id, const Val *v, int r, const Message &m, struct pomp_msg *pm)
{
	int flt = (int)vw_fault_done;
	vw_fault_disarm();
	ev("cw");
	evid(id);
	evlist("t", T, NT);
	evvals(v, NT);
	evi("r", r);
	evi("flt", flt);
	uint32_t mid = m.getId();
	evb("mid", &mid, 4);
	evmsg(pm);
	evend();
	if (r == 0)
		keepmsg(pm);
	(void)how;
}
static const char EMPTY[] = "";
static int vwrite(Message &m, uint32_t id, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int r = m.writev(id, f, a);
	va_end(a);
	return r;
}
static int vread(const Message &m, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int r = m.readv(f, a);
	va_end(a);
	return r;
}
/* formatted read of the types T */
static int fread_(const Message &m, Val *v, bool viav)
{
	static const char *const F[] = { "", "%hhd", "%hhu", "%hd", "%hu", "%d", "%u", "%lld", "%llu", "%ms", "%p%u", "%f", "%lf" };
	std::string f;
	void *p[2 * MAXA] = {};
	char *str[MAXA] = {};
	const void *ptr[MAXA] = {};
	uint32_t len[MAXA] = {};
	int n = 0, r;
	for (int i = 0; i < NT; i++) {
		f += F[T[i]];
		if (T[i] == 9)
			p[n++] = &str[i];
		else if (T[i] == 10) {
			p[n++] = &ptr[i];
			p[n++] = &len[i];
		} else
			p[n++] = v[i].b;
	}
#define PS p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19]
	r = viav ? vread(m, f.c_str(), PS) : m.read(f.c_str(), PS);
	for (int i = 0; i < NT && r == 0; i++) {
		if (T[i] == 9) {
			v[i].s = str[i];
			vw_free(str[i]);
		} else if (T[i] == 10)
			v[i].v.assign((const uint8_t *)ptr[i], (const uint8_t *)ptr[i] + len[i]);
	}
	return r;
}
static void cmdw(char **tv, int n)
{
	uint32_t id = (uint32_t)strtoul(tv[2], NULL, 10);
	NT = n - 3;
	Val v[MAXA];
	for (int i = 0; i < NT; i++) {
		T[i] = atoi(tv[3 + i]);
		parse(v[i], T[i], strchr(tv[3 + i], ':') + 1);
	}
	const Fmt *f = tv[1][0] == 't' ? format(NT, T, id & 1) : NULL;
	int r = 0;
	if (f) {
		Message m;
		struct pomp_msg *pm = lastnew;
		/* (what is there before is replaced) */
		if (id & 1)
			(void)m.write(3, "%u", 77u);
		if (armed)
			vw_fault_arm(armed, 0, ~0ull, 0);
		r = f->w(m, v);
		wres('t', f->id, v, r, m, pm);
	} else if ((tv[1][0] == 'p' || tv[1][0] == 'v') && NT <= 1) {
		Message m;
		struct pomp_msg *pm = lastnew;
		bool vv = tv[1][0] == 'v';
		if (vv)
			(void)m.write(3, "%u", 77u);
		if (armed)
			vw_fault_arm(armed, 0, ~0ull, 0);
		if (NT == 0)
#define WR(...) (vv ? vwrite(m, id, __VA_ARGS__) : m.write(id, __VA_ARGS__))
			r = WR(EMPTY);
		else switch (T[0]) {
		case 9: r = WR("%s", v[0].s.c_str()); break;
		case 10: { static uint8_t z; r = WR("%p%u", v[0].v.empty() ? &z : v[0].v.data(), (uint32_t)v[0].v.size()); break; }
		case 8: r = WR("%llu", (unsigned long long)Get<ArgU64>::in(v[0])); break;
		case 5: r = WR("%d", Get<ArgI32>::in(v[0])); break;
		case 12: r = WR("%lf", Get<ArgF64>::in(v[0])); break;
		default: vw_fault_disarm(); armed = 0; return;
		}
		wres('p', id, v, r, m, pm);
	} else {
		Encoder e(id);
		struct pomp_msg *pm = lastnew;
		if (armed && NT > 0)	/* (getMessage cannot report a failure) */
			vw_fault_arm(armed, 0, ~0ull, 0);
		for (int i = 0; i < NT && r == 0; i++)
			r = encw(e, T[i], v[i]);
		const Message &m = e.getMessage();
		wres('e', id, v, r, m, pm);
		if (&e.getMessage() != &m || e.writeU8(1) >= 0)
			abort();
	}
	armed = 0;
}
static void cmdr(char **tv, int n)
{
	static uint8_t b[70000];
	uint8_t *x = lastmsg;
	size_t l = lastlen;
	if (tv[2][0] != '-') {
		l = unhex(tv[2], b, sizeof(b));
		x = b;
	}
	if (!x || l < 12)
		return;
	NT = n - 3;
	for (int i = 0; i < NT; i++)
		T[i] = atoi(tv[3 + i]);
	const Fmt *f = tv[1][0] == 't' ? format(NT, T, tv[2][0] == '-' ? lastmsg[5] != 0 : l & 1) : NULL;
	uint32_t id;
	memcpy(&id, x + 4, 4);
	if (f && tv[2][0] != '-') {
		/* (formats have their message) */
		id = f->id ^ (x[4] == 0xee);
		memcpy(x + 4, &id, 4);
	}
	struct pomp_buffer *buf = pomp_buffer_new_with_data(x, l);
	struct pomp_msg *pm = pomp_msg_new_with_buffer(buf);
	if (pm) {
		preset = pm;
		Message m;
		Val v[MAXA];
		int r = 0, k = 0, fm = 0;
		for (int i = 0; i < NT; i++)
			memset(v[i].b, 0, 8);
		if (f) {
			r = f->r(m, v);
			k = r == 0 ? NT : 0;
		} else if ((tv[1][0] == 'f' || tv[1][0] == 'v') && NT <= 10) {
			r = fread_(m, v, tv[1][0] == 'v');
			k = r == 0 ? NT : 0;
			fm = 1;
		} else {
			Decoder d(m);
			while (k < NT && (r = decr(d, T[k], v[k])) == 0)
				k++;
		}
		ev("cr");
		evi("k", f || fm ? 1 : 0);
		evi("same", f ? f->id == id : 1);
		uint32_t mid = m.getId();
		evb("mid", &mid, 4);
		evlist("t", T, NT);
		evb("x", x, l);
		evi("r", r);
		evvals(v, k);
		evend();
	}
	pomp_buffer_unref(buf);
}
static int sameino(int a, int b)
{
	struct stat s, t;
	return a >= 0 && b >= 0 && fstat(a, &s) == 0 && fstat(b, &t) == 0 && s.st_ino == t.st_ino && s.st_dev == t.st_dev;
}
static void cmdfd(int how)
{
	int p[2], o = -1, q = -1, r, r2, closed;
	uint32_t a = 0;
	std::string s;
	if (pipe(p) < 0)
		return;
	{
		Message m;
		Encoder e(9);
		if (how & 1) {
			r = m.write<MessageFormat<9, ArgU32, ArgFd, ArgStr>>(5u, p[0], std::string("ab"));
		} else {
			r = e.writeU32(5) | e.writeFd(p[0]) | e.write("ab");
		}
		const Message &x = how & 1 ? m : e.getMessage();
		if (how & 2) {
			r2 = x.read<MessageFormat<9, ArgU32, ArgFd, ArgStr>>(a, o, s);
		} else {
			Decoder d(x);
			r2 = d.read(a);
			r2 |= d.readFd(o);
			r2 |= d.read(s);
		}
		q = o >= 0 ? dup(o) : -1;
		ev("cfd");
		evi("r", r);
		evi("rr", r2);
		evi("a", (int)a);
		evi("own", o != p[0]);
		evi("same", sameino(o, p[0]));
		evb("s", s.data(), s.size());
		(void)q;
	}
	closed = o >= 0 && fcntl(o, F_GETFD) < 0;
	evi("closed", closed);
	evend();
	if (q >= 0)
		close(q);
	close(p[0]);
	close(p[1]);
}

/* ---- contexts -------------------------------------------------------------- */
#define NC 4
#define NK 200
static Loop *loop;
struct H;
static struct { Context *x; H *h; int own, dying; } C[NC];
static Connection *K[NK];
static int Kc[NK], nk, cur = -1;
static int kidx(Connection *k)
{
	for (int i = nk - 1; i >= 0; i--)
		if (K[i] == k && k)
			return i;
	return -1;
}
static int port(const struct sockaddr *a, uint32_t l)
{
	return a && l >= sizeof(struct sockaddr_in) && a->sa_family == AF_INET ? ntohs(((const struct sockaddr_in *)a)->sin_port) : -1;
}
static void evconns(Context *x)
{
	const ConnectionArray &a = x->getConnections();
	int v[NK];
	size_t i;
	for (i = 0; i < a.size() && i < NK; i++)
		v[i] = kidx(a[i]);
	evlist("arr", v, (int)i);
	evi("first", kidx(x->getConnection()));
}
struct H : public EventHandler {
	int c;
	virtual void onConnected(Context *x, Connection *k)
	{
		uint32_t a = 0, b = 0;
		int fresh = kidx(k) < 0, s = cur;
		if (nk == NK)
			_exit(99);
		K[nk] = k;
		Kc[nk] = c;
		cur = nk++;
		int one = 1;
		(void)setsockopt(k->getFd(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
		ev("cb");
		evs("k", "conn");
		evi("c", c);
		evi("ok", x == C[c].x && fresh && k->getPeerCred() == NULL && k->getFd() >= 0);
		evi("s", cur);
		const struct sockaddr *la = k->getLocalAddr(&a), *pa = k->getPeerAddr(&b);
		evi("lp", port(la, a));
		evi("pp", port(pa, b));
		evconns(x);
		evend();
		cbend("conn", c);
		cur = s;
	}
	virtual void onDisconnected(Context *x, Connection *k)
	{
		int s = cur;
		cur = kidx(k);
		ev("cb");
		evs("k", "disc");
		evi("c", c);
		evi("ok", x == C[c].x);
		evi("s", cur);
		evconns(x);
		evend();
		cbend("disc", c);
		if (cur >= 0)
			K[cur] = NULL;
		cur = s;
	}
	virtual void recvMessage(Context *x, Connection *k, const Message &m)
	{
		int s = cur, r;
		std::vector<uint8_t> v;
		cur = kidx(k);
		if (m.getId() == 5) {
			r = m.read<MessageFormat<5, ArgBuf>>(v);
		} else {
			Decoder d(m);
			r = d.read(v);
		}
		uint32_t id = m.getId();
		ev("cb");
		evs("k", "msg");
		evi("c", c);
		evi("ok", x == C[c].x && r == 0);
		evi("s", cur);
		evid(id);
		evb("v", v.data(), v.size());
		evconns(x);
		evend();
		cbend("msg", c);
		cur = s;
	}
	virtual void recvRawBuffer(Context *x, Connection *k, const std::vector<uint8_t> &v)
	{
		int s = cur;
		cur = kidx(k);
		ev("cb");
		evs("k", "raw");
		evi("c", c);
		evi("ok", x == C[c].x);
		evi("s", cur);
		evb("x", v.data(), v.size());
		evconns(x);
		evend();
		cbend("raw", c);
		cur = s;
	}
};
static const char *address(int i)
{
	static char b[64];
	unsigned p = (unsigned)getpid();
	snprintf(b, sizeof(b), "inet:127.%u.%u.%u:%d", 64 + (p >> 16) % 64, p >> 8 & 255, p & 255, 5000 + i);
	return b;
}
template<typename O> static int vsend(O *o, uint32_t id, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int r = o->sendv(id, f, a);
	va_end(a);
	return r;
}
/* send through o, a Context or a Connection */
template<typename O> static int send(O *o, char how, uint32_t id, const std::vector<uint8_t> &v)
{
	static uint8_t z;
	const uint8_t *d = v.empty() ? &z : v.data();
	if (how == 'r')
		return o->send(v);
	if (how == 't')
		return o->template send<MessageFormat<5, ArgBuf>>(v);
	if (how == 'p')
		return o->send(id, "%p%u", d, (uint32_t)v.size());
	if (how == 'v')
		return vsend(o, id, "%p%u", d, (uint32_t)v.size());
	Message m;
	if (m.write(id, "%p%u", d, (uint32_t)v.size()) < 0)
		abort();
	return o->sendMsg(m);
}
static void evsend(const char *op, int a, char how, uint32_t id, const std::vector<uint8_t> &v)
{
	if (how == 't')
		id = 5;
	ev(op);
	evi("c", a);
	evi("raw", how == 'r');
	evid(id);
	evb("a", v.data(), v.size());
	evend();
}

/* a local server with an access mode, and what its clients see */
struct UH : public EventHandler {
	int con, dis, cred;
	UH() : con(0), dis(0), cred(0) {}
	virtual void onConnected(Context *x, Connection *k)
	{
		const struct pomp_cred *c = k->getPeerCred();
		(void)x;
		con++;
		cred += c && c->pid == (uint32_t)getpid() && c->uid == getuid() && c->gid == getgid();
	}
	virtual void onDisconnected(Context *x, Connection *k) { (void)x; (void)k; dis++; }
};
static void umode(int mode)
{
	static int n;
	char p[80], u[100];
	struct stat st;
	std::string real;
	char *creal = NULL;
	snprintf(p, sizeof(p), "/tmp/vw-cpp-%d-%d.sock", (int)getpid(), n++);
	snprintf(u, sizeof(u), "unix:%s", p);
	unlink(p);
	{
		UH h, g;
		Loop ul;
		Context x(&h, &ul), y(&g, &ul);
		Address ad(u), no, bad("inet:1.2.3.4");
		int r = mode ? x.listen(ad, (uint32_t)mode) : x.listen(ad);
		int m = stat(p, &st) == 0 ? (int)(st.st_mode & 0777) : -1;
		int r2 = y.connect(ad);
		for (int i = 0; i < 6; i++)
			(void)ul.waitAndProcess(0);
		ev("um");
		evi("r", r);
		evi("rc", r2);
		evi("mode", mode);
		evi("m", m);
		evi("bad", no.isValid() || bad.isValid() || (bool)no);
		evi("con", h.con * 10 + g.con);
		evi("cred", h.cred * 10 + g.cred);
		evi("conns", (int)(x.getConnections().size() * 10 + y.getConnections().size()));
		evi("ry", y.stop());
		evi("rx", x.stop());
		evi("dis", h.dis * 10 + g.dis);
		evi("gone", access(p, F_OK) < 0);
		int e = pomp_addr_get_real_addr(u, &creal);
		evi("real", Address::getRealAddr(u, real) == e && (e != 0 || real == creal));
		vw_free(creal);
		evend();
	}
	unlink(p);
}

/* ---- events, timers, descriptors ------------------------------------------- */
#define NE 3
struct EH : public Event::Handler { int i; virtual void processEvent() { ev("cb"); evs("k", "ev"); evi("c", -1); evi("i", i); evend(); cbend("ev", i); } };
struct TH : public Timer::Handler { int i; virtual void processTimer() { ev("cb"); evs("k", "tm"); evi("c", -1); evi("i", i); evend(); cbend("tm", i); } };
static void fdcb(int i, int fd, uint32_t re);
struct FH : public Loop::Handler { int i; virtual void processFd(int fd, uint32_t re) { fdcb(i, fd, re); } };
static Event *E[NE];
static Timer *TM[NE];
static EH eh[NE];
static TH th[NE];
static FH fh[NE];
static Event::HandlerFunc *ehf[NE];
static Timer::HandlerFunc *thf[NE];
static Loop::HandlerFunc *fhf[NE];
static int P[NE][2];
static void fdcb(int i, int fd, uint32_t re)
{
	char b[64];
	ssize_t n = read(fd, b, sizeof(b));
	ev("cb");
	evs("k", "fd");
	evi("c", -1);
	evi("i", i);
	evi("ok", fd == P[i][0] && (re & Loop::EVENT_IN));
	evi("n", n);
	evend();
	cbend("fd", i);
}

static int dostep1(int (*f)(void *), void *a, int l, int quiet)
{
	size_t m = tr_mark(), n = tr_nev();
	int r;
	ev("step");
	evi("l", l);
	evend();
	depth++;
	r = f(a);
	depth--;
	if (quiet && r == -ETIMEDOUT && tr_nev() == n + 1) {
		tr_rollback(m, n);
		return 0;
	}
	ev("stepend");
	evi("r", r);
	evend();
	return 1;
}
static int sloop(void *a) { return ((Loop *)a)->waitAndProcess(0); }
static int sctx(void *a) { return ((Context *)a)->waitAndProcess(0); }
static int sctx2(void *a)
{
	struct pollfd p = { (int)((Context *)a)->getFd(), POLLIN, 0 };
	return poll(&p, 1, 0) == 1 ? ((Context *)a)->processFd() : -ETIMEDOUT;
}
static int round1(int quiet)
{
	int i, b = dostep1(&sloop, loop, 0, quiet);
	for (i = 0; i < NC; i++)
		if (C[i].x && C[i].own)
			b |= dostep1(i & 1 ? &sctx2 : &sctx, C[i].x, 1 + i, quiet);
	return b;
}
static void settle()
{
	int n, quiet = 0, i;
	for (i = 0; i < 3; i++) {
		for (n = 0, quiet = 0; n < 300 && quiet < 2; n++)
			quiet = round1(1) ? 0 : quiet + 1;
		if (quiet < 2)
			break;
		usleep(100);
	}
	ev("quiet");
	evi("busy", quiet < 2);
	evend();
}

static void cmd(const char *line0)
{
	char line[140000], *tv[64];
	size_t ll = strlen(line0);
	if (ll >= sizeof(line))
		_exit(99);
	memcpy(line, line0, ll + 1);
	if (!strncmp(line, "on ", 3)) {
		char *s = line + 3, *q = strchr(s, ' ');
		if (q && nact < 64 && q - s < 15 && strlen(q + 1) < 400) {
			*q = 0;
			strcpy(act[nact].src, s);
			strcpy(act[nact].cmds, q + 1);
			act[nact++].used = 0;
		}
		return;
	}
	int n = tok(line, tv, 64);
	if (n < 1)
		return;
#define IS(s) (!strcmp(tv[0], s))
	int a = n > 1 ? (tv[1][0] == '.' ? cur : atoi(tv[1])) : 0;
	if (IS("w")) { cmdw(tv, n); return; }
	if (IS("r")) { cmdr(tv, n); return; }
	if (IS("fd")) { cmdfd(a); return; }
	if (IS("flt")) { armed = a; return; }
	if (IS("settle")) { if (!depth) settle(); return; }
	if (IS("step")) { if (!depth) round1(0); return; }
	if (IS("adv")) {
		int64_t x;
		int v;
		uint64_t target = vw_now + (uint64_t)a;
		while ((v = vw_timer_next(&x)) >= 0 && x <= (int64_t)target)
			vw_timer_fire(v);
		vw_now = target;
		ev("adv");
		evi("ms", a);
		evend();
		return;
	}
	if (IS("cnew") && a >= 0 && a < NC && !C[a].x) {
		C[a].own = atoi(tv[2]);
		C[a].h = new H();
		C[a].h->c = a;
		C[a].x = new Context(C[a].h, C[a].own ? NULL : loop);
		C[a].dying = 0;
		int raw = atoi(tv[3]), r = raw ? C[a].x->setRaw() : 0;
		if (C[a].own & 2) {
			Loop *q = C[a].x->getLoop();
			r |= q->get() == NULL || q != C[a].x->getLoop();
		}
		if (!C[a].own)
			r |= C[a].x->getLoop() != loop;
		ev("cnew");
		evi("c", a);
		evi("raw", raw);
		evi("r", r);
		evend();
		return;
	}
	if (IS("cdel") && a >= 0 && a < NC && C[a].x && !depth) {
		/* (must be stopped before) */
		C[a].dying = 1;
		cmd((std::string("cstop ") + tv[1]).c_str());
		settle();
		delete C[a].x;
		delete C[a].h;
		C[a].x = NULL;
		ev("cdel");
		evi("c", a);
		evend();
		return;
	}
	if ((IS("cstart") || IS("cstop") || IS("csend")) && a >= 0 && a < NC && C[a].x) {
		Context *x = C[a].x;
		if (IS("cstart")) {
			if (C[a].dying)
				return;
			Address ad(address(atoi(tv[3])));
			ev("cstart");
			evi("c", a);
			evs("t", tv[2]);
			evi("a", 5000 + atoi(tv[3]));
			evi("ok", ad.isValid() && (bool)ad);
			evend();
			int r;
			switch (tv[2][0]) {
			case 's': r = atoi(tv[3]) & 1 ? x->listen(ad, 0640) : x->listen(ad); break;
			case 'b': r = x->bind(ad); break;
			default: r = x->connect(ad); break;
			}
			ret(r);
			uint32_t al = 0;
			const struct sockaddr *la = x->getLocalAddr(&al);
			ev("cla");
			evi("c", a);
			evi("p", port(la, al));
			evend();
		} else if (IS("cstop")) {
			ev("cstop");
			evi("c", a);
			evend();
			ret(x->stop());
		} else {
			static uint8_t b[4096];
			size_t l = unhex(tv[4], b, sizeof(b));
			uint32_t id = (uint32_t)strtoul(tv[3], NULL, 10);
			std::vector<uint8_t> v(b, b + l);
			evsend("csend", a, tv[2][0], id, v);
			ret(send(x, tv[2][0], id, v));
		}
		return;
	}
	if (IS("csendto") && a >= 0 && a < NC && C[a].x) {
		static uint8_t b[4096];
		size_t l = unhex(tv[4], b, sizeof(b));
		uint32_t id = (uint32_t)strtoul(tv[3], NULL, 10);
		std::vector<uint8_t> v(b, b + l);
		static uint8_t z;
		Address ad(address(atoi(tv[5])));
		Message m;
		if (m.write(id, "%p%u", v.empty() ? &z : v.data(), (uint32_t)v.size()) < 0)
			abort();
		ev("csendto");
		evi("c", a);
		evi("raw", 0);
		evid(id);
		evb("a", v.data(), v.size());
		evi("to", 5000 + atoi(tv[5]));
		evend();
		ret(C[a].x->sendMsgTo(m, ad));
		return;
	}
	if (IS("wake") && !depth) {
		int c = a >= 0 && a < NC && C[a].x ? a : -1;
		ev("wake");
		evi("l", c >= 0 && C[c].own ? 1 + c : 0);
		evi("r", c >= 0 ? C[c].x->wakeup() : loop->wakeup());
		evend();
		return;
	}
	if (IS("um")) {
		umode(a);
		return;
	}
	if ((IS("ksend") || IS("kdisc")) && a >= 0 && a < nk && K[a]) {
		if (IS("kdisc")) {
			ev("kdisc");
			evi("c", a);
			evend();
			ret(K[a]->disconnect());
		} else {
			static uint8_t b[4096];
			size_t l = unhex(tv[4], b, sizeof(b));
			uint32_t id = (uint32_t)strtoul(tv[3], NULL, 10);
			std::vector<uint8_t> v(b, b + l);
			evsend("ksend", a, tv[2][0], id, v);
			ret(send(K[a], tv[2][0], id, v));
		}
		return;
	}
	a = n > 2 ? atoi(tv[2]) : -1;
	if (a < 0 || a >= NE)
		return;
	if (IS("ev")) {
		char o = tv[1][0];
		int r = 0, att = E[a] ? E[a]->isAttached(loop) : 0;
		if (!E[a] && o != 'n')
			return;
		if (o == 'n' && E[a])
			return;
		switch (o) {
		case 'n': E[a] = new Event(); break;
		case 'd':
			if (att || depth)
				return;
			delete E[a]; E[a] = NULL;
			break;
		case 's': r = E[a]->signal(); break;
		case 'c': r = E[a]->clear(); break;
		case 'a': r = E[a]->attachToLoop(loop, a == 1 ? (Event::Handler *)ehf[a] : &eh[a]); break;
		case 'r': r = E[a]->detachFromLoop(loop); break;
		}
		ev("ev");
		evs("o", tv[1]);
		evi("i", a);
		evi("att", att);
		evi("any", E[a] && E[a]->isAttached(NULL));
		evi("r", r);
		evend();
	} else if (IS("tm")) {
		char o = tv[1][0];
		int r = 0, d = n > 3 ? atoi(tv[3]) : 0, p = n > 4 ? atoi(tv[4]) : 0;
		if ((!TM[a]) != (o == 'n') || (o == 'd' && depth))
			return;
		switch (o) {
		case 'n': TM[a] = new Timer(loop, a == 1 ? (Timer::Handler *)thf[a] : &th[a]); break;
		case 'd': delete TM[a]; TM[a] = NULL; break;
		case 's': r = p ? TM[a]->set((uint32_t)d, (uint32_t)p) : TM[a]->set((uint32_t)d); break;
		case 'p': r = TM[a]->setPeriodic((uint32_t)d, (uint32_t)p); break;
		case 'c': r = TM[a]->clear(); break;
		}
		ev("tm");
		evs("o", tv[1]);
		evi("i", a);
		evi("d", d);
		evi("p", p);
		evi("r", r);
		evend();
	} else if (IS("fdl")) {
		char o = tv[1][0];
		int r = 0, has;
		if (o == 'a' && !P[a][0] && pipe2(P[a], O_NONBLOCK | O_CLOEXEC) < 0)
			_exit(99);
		if (!P[a][0])
			return;
		switch (o) {
		case 'a': r = loop->add(P[a][0], Loop::EVENT_IN, a == 1 ? (Loop::Handler *)fhf[a] : &fh[a]); break;
		case 'u': r = loop->update(P[a][0], 0); break;
		case 'U': r = loop->update(P[a][0], Loop::EVENT_IN); break;
		case 'r': r = loop->remove(P[a][0]); break;
		case 'w': r = write(P[a][1], "x", 1) == 1 ? 0 : -1; break;
		}
		has = loop->hasFd(P[a][0]);
		ev("fdl");
		evs("o", tv[1]);
		evi("i", a);
		evi("has", has);
		evi("r", r);
		evend();
	}
}

extern "C" void run_script(char **lines, int n)
{
	int i, fdbase;
	long base;
	signal(SIGPIPE, SIG_IGN);
	vw_vtimers = 1;
	vw_noblock = 1;
	fdbase = vw_nfds();
	regall();
	for (i = 0; i < NE; i++) {
		eh[i].i = th[i].i = fh[i].i = i;
		ehf[i] = new Event::HandlerFunc([i]() { eh[i].processEvent(); });
		thf[i] = new Timer::HandlerFunc();
		thf[i]->set([i]() { th[i].processTimer(); });
		fhf[i] = new Loop::HandlerFunc([i](int fd, uint32_t re) { fdcb(i, fd, re); });
	}
	base = nnew;
	loop = new Loop();
	for (i = 0; i < n; i++)
		cmd(lines[i]);
	nact = 0;
	for (i = 0; i < NC; i++) {
		char b[16];
		snprintf(b, sizeof(b), "cdel %d", i);
		cmd(b);
	}
	for (i = 0; i < NE; i++) {
		char b[16];
		if (E[i] && E[i]->isAttached(loop)) {
			snprintf(b, sizeof(b), "ev r %d", i);
			cmd(b);
		}
		snprintf(b, sizeof(b), "ev d %d", i);
		cmd(b);
		snprintf(b, sizeof(b), "tm d %d", i);
		cmd(b);
		if (P[i][0] && loop->hasFd(P[i][0])) {
			snprintf(b, sizeof(b), "fdl r %d", i);
			cmd(b);
		}
		if (P[i][0]) {
			close(P[i][0]);
			close(P[i][1]);
		}
	}
	delete loop;
	ev("end");
	evi("nalloc", vw_nalloc);
	evi("n", vw_nfds() - fdbase);
	evi("nsync", vw_nsync());
	evi("nnew", nnew - base);
	evend();
}
int main(int argc, char **argv) { tr_timeout = 20; tr_maxev = 4000; return tr_main(argc, argv); }
