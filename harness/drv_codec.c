/* Driver for the sequential objects: buffers, messages, encoders, decoders,
 * stream protocol decoder, addresses. One event per API call. */
#include "tr.h"
#include "libpomp.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#include <pthread.h>
#define N 64
static int racen;
static void *racer(void *b)
{
	int i;
	for (i = 0; i < racen; i++)
		pomp_buffer_ref(b);
	for (i = 0; i < racen; i++)
		pomp_buffer_unref(b);
	return NULL;
}
static struct pomp_buffer *B[N];
static struct pomp_msg *M[N];
static struct pomp_encoder *E[N];
static struct pomp_decoder *D[N];
static struct pomp_prot *P[N];
static int F[N];
static uint64_t Fino[N];
static int fdbase;
static uint8_t tmp[1 << 20], tmp2[1 << 20];

static int armed, faultmore;
static void pre(void) { }
/* fault information of the call just made */
static void fltinfo(void)
{
	if (armed) {
		evi("flt", (int)vw_fault_done);
		evi("fmore", faultmore);
		vw_fault_disarm();
		armed = 0;
	}
}

static void obsbuf(const char *pfx, struct pomp_buffer *b)
{
	const void *c = NULL;
	size_t len = 0, cap = 0, off;
	char k[32];
	if (b == NULL || pomp_buffer_get_cdata(b, &c, &len, &cap) < 0) {
		snprintf(k, sizeof(k), "%snull", pfx);
		evi(k, 1);
		return;
	}
	snprintf(k, sizeof(k), "%slen", pfx);
	evi(k, (long long)len);
	snprintf(k, sizeof(k), "%scap", pfx);
	evi(k, (long long)cap);
	off = len <= 600 ? 0 : len - 64;
	snprintf(k, sizeof(k), "%soff", pfx);
	evi(k, (long long)off);
	snprintf(k, sizeof(k), "%sdata", pfx);
	evb(k, (const uint8_t *)c + off, len - off);
}
static void obsmsg(struct pomp_msg *m)
{
	uint32_t id = pomp_msg_get_id(m);
	evb("mid", &id, 4);
	obsbuf("o", pomp_msg_get_buffer(m));
}
static int lastr;
static void rc(int r) { lastr = r; evi("r", r); fltinfo(); }

/* identity of an open file */
static int fdtag(int fd)
{
	struct stat st;
	int i;
	if (fd < 0 || fstat(fd, &st) < 0)
		return -1;
	for (i = 0; i < N; i++)
		if (Fino[i] && Fino[i] == st.st_ino)
			return i;
	return -2;
}

struct arg { uint64_t i; double d; int isd; void *mem; size_t n; };
static int nargs;
static struct arg A[40];

/* arguments of a formatted write: i:<8 bytes> d:<8 bytes> s:<hex> p:<hex> f:<F> n */
static void parse_args(char **tv, int n)
{
	int i;
	nargs = n;
	memset(A, 0, sizeof(A));
	evraw(",\"args\":[");
	for (i = 0; i < n; i++) {
		char *s = tv[i];
		size_t l;
		if (i)
			evraw(",");
		switch (s[0]) {
		case 'i':
			unhex(s + 2, (uint8_t *)&A[i].i, 8);
			evraw("{\"k\":\"i\"");
			evb("v", &A[i].i, 8);
			evraw("}");
			break;
		case 'd': {
			float f;
			unhex(s + 2, (uint8_t *)&A[i].d, 8);
			A[i].isd = 1;
			f = (float)A[i].d;
			evraw("{\"k\":\"d\"");
			evb("v", &A[i].d, 8);
			evb("w", &f, 4);
			evraw("}");
			break;
		}
		case 's': case 'p':
			l = unhex(s + 2, tmp, sizeof(tmp));
			A[i].mem = malloc(l + (s[0] == 's'));
			memcpy(A[i].mem, tmp, l);
			if (s[0] == 's')
				((char *)A[i].mem)[l] = 0;
			A[i].i = (uint64_t)(uintptr_t)A[i].mem;
			evraw("{\"k\":\"%c\"", s[0]);
			evb("v", tmp, l);
			evraw("}");
			break;
		case 'f': {
			int h = atoi(s + 2);
			A[i].i = (uint64_t)(int64_t)(h < 0 ? h : F[h]);
			evraw("{\"k\":\"f\",\"v\":%d}", h);
			break;
		}
		default:
			evraw("{\"k\":\"n\"}");
			break;
		}
	}
	evraw("]");
}
static void free_args(void)
{
	int i;
	for (i = 0; i < nargs; i++)
		free(A[i].mem);
}
/* On this ABI integer class and floating point variadic arguments are taken
 * from independent sequences as long as there are at most 8 of the latter */
static uint64_t G[32];
static double X[8];
static void split_args(void)
{
	int i, g = 0, d = 0;
	memset(G, 0, sizeof(G));
	memset(X, 0, sizeof(X));
	for (i = 0; i < nargs; i++) {
		if (A[i].isd) {
			if (d < 8)
				X[d++] = A[i].d;
		} else if (g < 32) {
			G[g++] = A[i].i;
		}
	}
}
#define GX G[0], G[1], G[2], G[3], G[4], G[5], G[6], G[7], G[8], G[9], \
	G[10], G[11], G[12], G[13], G[14], G[15], G[16], G[17], G[18], G[19], \
	G[20], G[21], G[22], G[23], G[24], G[25], G[26], G[27], G[28], G[29], \
	G[30], G[31], X[0], X[1], X[2], X[3], X[4], X[5], X[6], X[7]

static char fmtbuf[4096];
static const char *getfmt(const char *s)
{
	size_t n;
	char *f;
	if (!strcmp(s, "null")) {
		evi("nofmt", 1);
		return NULL;
	}
	n = unhex(s, (uint8_t *)fmtbuf, sizeof(fmtbuf) - 1);
	fmtbuf[n] = 0;
	evb("fmt", fmtbuf, n);
	/* exact allocation so that reading past the end is seen */
	f = malloc(n + 1);
	memcpy(f, fmtbuf, n + 1);
	return f;
}

/* textual arguments: t:<hex of text>:<kind>:<value hex> or n */
static char *V[64];
static int parse_argv(char **tv, int n)
{
	int i;
	evraw(",\"args\":[");
	for (i = 0; i < n; i++) {
		char *s = tv[i], *k, *v;
		size_t l;
		if (i)
			evraw(",");
		if (s[0] == 'n') {
			V[i] = NULL;
			evraw("{\"k\":\"n\"}");
			continue;
		}
		k = strchr(s + 2, ':');
		*k++ = 0;
		v = strchr(k, ':');
		*v++ = 0;
		l = unhex(s + 2, tmp, sizeof(tmp));
		V[i] = malloc(l + 1);
		memcpy(V[i], tmp, l);
		V[i][l] = 0;
		if (k[0] == 'd') {
			double d = 0;
			float f;
			unhex(v, (uint8_t *)&d, 8);
			f = (float)d;
			evraw("{\"k\":\"d\"");
			evb("v", &d, 8);
			evb("w", &f, 4);
			evb("t", tmp, l);
			evraw("}");
		} else if (k[0] == 'f') {
			int h = atoi(v);
			char num[16];
			free(V[i]);
			snprintf(num, sizeof(num), "%d", h < 0 ? h : F[h]);
			V[i] = strdup(num);
			evraw("{\"k\":\"f\",\"v\":%d}", h);
		} else {
			size_t l2 = unhex(v, tmp2, sizeof(tmp2));
			evraw("{\"k\":\"%c\"", k[0]);
			evb("v", tmp2, l2);
			evb("t", tmp, l);
			evraw("}");
		}
	}
	evraw("]");
	return n;
}

/* formatted reads: one letter per output slot */
union slot { uint8_t raw[16]; char *s; void *p; uint32_t u; };
static union slot O[40];
#define OX &O[0], &O[1], &O[2], &O[3], &O[4], &O[5], &O[6], &O[7], &O[8], &O[9], \
	&O[10], &O[11], &O[12], &O[13], &O[14], &O[15], &O[16], &O[17], &O[18], &O[19], \
	&O[20], &O[21], &O[22], &O[23], &O[24], &O[25], &O[26], &O[27], &O[28], &O[29], \
	&O[30], &O[31], &O[32], &O[33], &O[34], &O[35]
#define SENT ((void *)(uintptr_t)0xEEEEEEEEEEEEEEEEull)

static void out_slots(const char *kinds, int r)
{
	int i;
	evraw(",\"out\":[");
	for (i = 0; kinds[i] && kinds[i] != '-'; i++) {
		if (i)
			evraw(",");
		switch (kinds[i]) {
		case 's':
			if (O[i].s == SENT)
				evraw("{\"k\":\"s\",\"st\":\"unset\"}");
			else if (O[i].s == NULL)
				evraw("{\"k\":\"s\",\"st\":\"null\"}");
			else if (r < 0)
				evraw("{\"k\":\"s\",\"st\":\"dangling\"}");
			else {
				evraw("{\"k\":\"s\",\"st\":\"set\"");
				evb("v", O[i].s, strlen(O[i].s));
				evraw("}");
				vw_free(O[i].s);
			}
			break;
		case 'p':
			if (O[i].p == SENT)
				evraw("{\"k\":\"p\",\"st\":\"unset\"}");
			else {
				evraw("{\"k\":\"p\",\"st\":\"set\"");
				evb("v", O[i].p, O[i + 1].u);
				evraw("}");
			}
			break;
		case 'x':
			evraw("{\"k\":\"x\",\"tag\":%d}",
				O[i].u == 0xEEEEEEEEu ? -3 : fdtag((int)O[i].u));
			break;
		default:
			evraw("{\"k\":\"i\"");
			evb("v", O[i].raw, 8);
			evraw("}");
			break;
		}
	}
	evraw("]");
}

static void decread(struct pomp_decoder *d, int type)
{
	union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32;
		uint32_t u32; int64_t i64; uint64_t u64; float f32; double f64; uint8_t b[8]; } v;
	int r = 0, fd = -1;
	uint32_t n = 0;
	char *s = SENT;
	const char *cs = SENT;
	void *p = SENT;
	const void *cp = SENT;
	memset(&v, 0, sizeof(v));
	evi("t", type);
	switch (type) {
	case 1: r = pomp_decoder_read_i8(d, &v.i8); rc(r); if (r == 0) evb("v", v.b, 1); break;
	case 2: r = pomp_decoder_read_u8(d, &v.u8); rc(r); if (r == 0) evb("v", v.b, 1); break;
	case 3: r = pomp_decoder_read_i16(d, &v.i16); rc(r); if (r == 0) evb("v", v.b, 2); break;
	case 4: r = pomp_decoder_read_u16(d, &v.u16); rc(r); if (r == 0) evb("v", v.b, 2); break;
	case 5: r = pomp_decoder_read_i32(d, &v.i32); rc(r); if (r == 0) evb("v", v.b, 4); break;
	case 6: r = pomp_decoder_read_u32(d, &v.u32); rc(r); if (r == 0) evb("v", v.b, 4); break;
	case 7: r = pomp_decoder_read_i64(d, &v.i64); rc(r); if (r == 0) evb("v", v.b, 8); break;
	case 8: r = pomp_decoder_read_u64(d, &v.u64); rc(r); if (r == 0) evb("v", v.b, 8); break;
	case 9: r = pomp_decoder_read_str(d, &s); rc(r);
		if (r == 0) { evb("v", s, strlen(s)); vw_free(s); } break;
	case 10: r = pomp_decoder_read_buf(d, &p, &n); rc(r);
		if (r == 0) { evb("v", p, n); vw_free(p); } break;
	case 11: r = pomp_decoder_read_f32(d, &v.f32); rc(r); if (r == 0) evb("v", v.b, 4); break;
	case 12: r = pomp_decoder_read_f64(d, &v.f64); rc(r); if (r == 0) evb("v", v.b, 8); break;
	case 13: r = pomp_decoder_read_fd(d, &fd); rc(r);
		if (r == 0) { evi("tag", fdtag(fd)); evi("dup", fd >= 0 && fdtag(fd) >= 0 && fd != F[fdtag(fd)]); } break;
	case 19: r = pomp_decoder_read_cstr(d, &cs); rc(r); if (r == 0) evb("v", cs, strlen(cs)); break;
	case 20: r = pomp_decoder_read_cbuf(d, &cp, &n); rc(r); if (r == 0) evb("v", cp, n); break;
	}
}
static void encwrite(struct pomp_encoder *e, int type, const char *hex)
{
	union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32;
		uint32_t u32; int64_t i64; uint64_t u64; float f32; double f64; uint8_t b[8]; } v;
	size_t n;
	int r = 0;
	char *m = NULL;
	memset(&v, 0, sizeof(v));
	evi("t", type);
	if (type == 13) {
		int h = atoi(hex);
		evi("f", h);
		r = pomp_encoder_write_fd(e, h < 0 ? h : h >= N ? 400 : F[h]);
		rc(r);
		return;
	}
	if (!strcmp(hex, "null")) {
		evi("nv", 1);
		r = type == 9 ? pomp_encoder_write_str(e, NULL) : pomp_encoder_write_buf(e, NULL, 0);
		rc(r);
		return;
	}
	n = unhex(hex, tmp, sizeof(tmp));
	evb("v", tmp, n);
	if (type == 9 || type == 10) {
		m = malloc(n + 1);
		memcpy(m, tmp, n);
		m[n] = 0;
	} else {
		memcpy(v.b, tmp, n < 8 ? n : 8);
	}
	switch (type) {
	case 1: r = pomp_encoder_write_i8(e, v.i8); break;
	case 2: r = pomp_encoder_write_u8(e, v.u8); break;
	case 3: r = pomp_encoder_write_i16(e, v.i16); break;
	case 4: r = pomp_encoder_write_u16(e, v.u16); break;
	case 5: r = pomp_encoder_write_i32(e, v.i32); break;
	case 6: r = pomp_encoder_write_u32(e, v.u32); break;
	case 7: r = pomp_encoder_write_i64(e, v.i64); break;
	case 8: r = pomp_encoder_write_u64(e, v.u64); break;
	case 9: r = pomp_encoder_write_str(e, m); break;
	case 10: r = pomp_encoder_write_buf(e, m, (uint32_t)n); break;
	case 11: r = pomp_encoder_write_f32(e, v.f32); break;
	case 12: r = pomp_encoder_write_f64(e, v.f64); break;
	}
	rc(r);
	free(m);
}

static int Dm[N];		/* message of a decoder */
static int Bref[N], Em[N];	/* Em: message of an encoder */
static void emit(const char *fmt, int a, int b);

static void cmd(char *line)
{
	char *tv[64], *op;
	int wasarmed;
	int n = tok(line, tv, 64), a, b, r;
	size_t l, pos;
	void *p = NULL;
	const void *cp = NULL;
	if (n == 0)
		return;
	op = tv[0];
	a = n > 1 ? atoi(tv[1]) : 0;
	b = n > 2 ? atoi(tv[2]) : 0;
#define OP(s) if (!strcmp(op, s))
	OP("fault") {
		/* fault n errno more : arm for the next call */
		vw_fault_arm(atol(tv[1]), n > 2 ? atoi(tv[2]) : 0, ~0ull, n > 3 ? atoi(tv[3]) : 0);
		faultmore = n > 3 ? atoi(tv[3]) : 0;
		armed = 1;
		return;
	}
	OP("pfeed") {
		/* pfeed P M policy hex : feed everything, as a reader would do.
		 * policy: for each message, k(eep), d(estroy) or r(elease) */
		static uint8_t all[1 << 20];
		static char hex[2 * (1 << 18) + 256];
		const char *pol = tv[3];
		size_t off = 0, i;
		char num[64];
		l = unhex(tv[4], all, sizeof(all));
		while (off < l) {
			int k = snprintf(hex, 64, "pdec %d %02d ", a, b);
			for (i = off; i < l && i < off + (1 << 18); i++)
				k += snprintf(hex + k, 3, "%02x", all[i]);
			while (M[b] && b < N - 1)
				b++;
			if (M[b])
				emit("mdel %d", b, 0);
			k = snprintf(num, sizeof(num), "pdec %d %02d ", a, b);
			memcpy(hex, num, (size_t)k);
			cmd(hex);
			if (lastr <= 0)
				break;
			off += (size_t)lastr;
			if (M[b] != NULL) {
				if (*pol == 'd')
					emit("mdel %d", b, 0);
				else if (*pol == 'r')
					emit("prel %d %d", a, b);
				else
					b++;
				if (pol[1])
					pol++;
			}
		}
		return;
	}
	OP("cleanup") {
		int i;
		for (i = 0; i < N; i++) {
			if (E[i])
				emit("edel %d", i, 0);
			if (D[i])
				emit("ddel %d", i, 0);
			if (P[i])
				emit("pdel %d", i, 0);
		}
		for (i = 0; i < N; i++) {
			if (M[i])
				emit("mobs %d", i, 0);
			if (M[i])
				emit("mdel %d", i, 0);
		}
		for (i = 0; i < N; i++)
			while (B[i])
				emit("bunref %d", i, 0);
		return;
	}
	/* operations on objects that could not be created are skipped */
	if (op[0] == 'b' && strncmp(op, "bnew", 4) && (!B[a] || (!strcmp(op, "bappb") && !B[b]))
			&& strcmp(op, "bcopy"))
		return;
	if (!strcmp(op, "bcopy") && !B[b])
		return;
	if (op[0] == 'm' && strcmp(op, "mnew") && strcmp(op, "mcopy") && strcmp(op, "mfrom")
			&& strcmp(op, "mbuf") && !M[a])
		return;
	if ((!strcmp(op, "mcopy") || !strcmp(op, "mbuf")) && !M[b])
		return;
	if (!strcmp(op, "mfrom") && !B[b])
		return;
	if (op[0] == 'e' && strcmp(op, "enew") && strcmp(op, "end") && !E[a])
		return;
	if (op[0] == 'd' && strcmp(op, "dnew") && !D[a])
		return;
	if ((!strcmp(op, "einit") || !strcmp(op, "dinit")) && !M[b])
		return;
	if (op[0] == 'p' && strcmp(op, "pnew") && !P[a])
		return;
	if ((!strcmp(op, "dr") || !strcmp(op, "drf")) && Dm[a] == -2)
		return;
	if (!strncmp(op, "ew", 2) && Em[a] == -2)
		return;
	if (!strcmp(op, "close0")) {
		/* the next descriptor is numbered 0 (no event) */
		close(0);
		fdbase--;
		return;
	}
	ev(op);
	pre();
	/* --- files --- */
	OP("fopen") {
		struct stat st;
		char path[64];
		snprintf(path, sizeof(path), "/tmp/vpcodec.XXXXXX");
		F[a] = mkstemp(path);
		unlink(path);
		fstat(F[a], &st);
		Fino[a] = st.st_ino;
		evi("f", a);
	} else OP("fclose") {
		close(F[a]);
		F[a] = -1;
		evi("f", a);
	} else OP("fcheck") {
		evi("f", a);
		evi("tag", fdtag(F[a]));
	} else OP("nfds") {
		evi("n", vw_nfds() - fdbase);
	/* --- buffers --- */
	} else OP("bnew") {
		evi("b", a); evi("n", atoi(tv[2]));
		B[a] = pomp_buffer_new((size_t)atol(tv[2]));
		Bref[a] = B[a] != NULL;
		rc(B[a] ? 0 : -ENOMEM);
		obsbuf("o", B[a]);
	} else OP("bnewd") {
		l = unhex(tv[2], tmp, sizeof(tmp));
		evi("b", a); evb("v", tmp, l);
		B[a] = pomp_buffer_new_with_data(tmp, l);
		Bref[a] = B[a] != NULL;
		rc(B[a] ? 0 : -ENOMEM);
		obsbuf("o", B[a]);
	} else OP("bnewg") {
		evi("b", a); evi("n", atoi(tv[2]));
		B[a] = pomp_buffer_new_get_data((size_t)atol(tv[2]), &p);
		if (B[a] && p)
			memset(p, 0, (size_t)atol(tv[2]));
		Bref[a] = B[a] != NULL;
		rc(B[a] ? 0 : -ENOMEM);
		obsbuf("o", B[a]);
	} else OP("bcopy") {
		evi("b", a); evi("s", b);
		B[a] = pomp_buffer_new_copy(B[b]);
		Bref[a] = B[a] != NULL;
		rc(B[a] ? 0 : -ENOMEM);
		obsbuf("o", B[a]);
	} else OP("bref") {
		evi("b", a);
		pomp_buffer_ref(B[a]);
		Bref[a]++;
		rc(0);
	} else OP("bunref") {
		evi("b", a);
		pomp_buffer_unref(B[a]);
		if (--Bref[a] == 0)
			B[a] = NULL;
		rc(0);
	} else OP("brace") {
		/* brace B N : references taken and released by several threads
		 * at once; n more, taken before, are then released */
		pthread_t t[4];
		int i, k;
		evi("b", a); evi("n", 4 * b);
		racen = b;
		for (i = 0; i < 4 * b; i++)
			pomp_buffer_ref(B[a]);
		for (i = 0; i < 4; i++)
			if (pthread_create(&t[i], NULL, racer, B[a]) != 0)
				abort();
		for (i = 0; i < 4; i++)
			pthread_join(t[i], NULL);
		for (k = 0; k < 4 * b && pomp_buffer_is_shared(B[a]); k++)
			pomp_buffer_unref(B[a]);
		evi("k", k);
		rc(pomp_buffer_is_shared(B[a]));
	} else OP("bsh") {
		evi("b", a);
		rc(pomp_buffer_is_shared(B[a]));
	} else OP("bsetlen") {
		evi("b", a); evi("n", b);
		rc(pomp_buffer_set_len(B[a], (size_t)b));
		obsbuf("o", B[a]);
	} else OP("bsetcap") {
		evi("b", a); evi("n", b);
		rc(pomp_buffer_set_capacity(B[a], (size_t)b));
		obsbuf("o", B[a]);
	} else OP("benscap") {
		evi("b", a); evi("n", b);
		rc(pomp_buffer_ensure_capacity(B[a], (size_t)b));
		obsbuf("o", B[a]);
	} else OP("bapp") {
		l = unhex(tv[2], tmp, sizeof(tmp));
		evi("b", a); evb("v", tmp, l);
		rc(pomp_buffer_append_data(B[a], tmp, l));
		obsbuf("o", B[a]);
	} else OP("bappb") {
		evi("b", a); evi("s", b);
		rc(pomp_buffer_append_buffer(B[a], B[b]));
		obsbuf("o", B[a]);
	} else OP("bwr") {
		l = unhex(tv[3], tmp, sizeof(tmp));
		pos = (size_t)b;
		evi("b", a); evi("p", b); evb("v", tmp, l);
		rc(pomp_buffer_write(B[a], &pos, tmp, l));
		evi("np", (long long)pos);
		obsbuf("o", B[a]);
	} else OP("brd") {
		pos = (size_t)b;
		l = (size_t)atol(tv[3]);
		evi("b", a); evi("p", b); evi("n", (long long)l);
		r = pomp_buffer_read(B[a], &pos, tmp, l);
		rc(r);
		evi("np", (long long)pos);
		if (r == 0)
			evb("v", tmp, l);
	} else OP("bcrd") {
		pos = (size_t)b;
		l = (size_t)atol(tv[3]);
		evi("b", a); evi("p", b); evi("n", (long long)l);
		r = pomp_buffer_cread(B[a], &pos, &cp, l);
		rc(r);
		evi("np", (long long)pos);
		if (r == 0)
			evb("v", cp, l);
	} else OP("brdhuge") {
		/* positions and lengths near the maximum of size_t */
		pos = (size_t)0 - (size_t)b;
		l = n > 3 ? (size_t)0 - (size_t)atol(tv[3]) : 8;
		evi("b", a);
		r = pomp_buffer_cread(B[a], &pos, &cp, n > 3 ? l : (size_t)b + 1);
		rc(r);
	} else OP("bwrhuge") {
		pos = (size_t)0 - (size_t)b;
		evi("b", a);
		memset(tmp, 7, 64);
		r = pomp_buffer_write(B[a], &pos, tmp, (size_t)b + 1);
		rc(r);
		obsbuf("o", B[a]);
	} else OP("benshuge") {
		evi("b", a);
		r = pomp_buffer_ensure_capacity(B[a], (size_t)0 - (size_t)b);
		rc(r);
		obsbuf("o", B[a]);
	} else OP("bens4g") {
		evi("b", a);
		r = pomp_buffer_ensure_capacity(B[a], ((size_t)1 << 32) + (size_t)b);
		rc(r);
		obsbuf("o", B[a]);
	} else OP("bgd") {
		evi("b", a);
		r = pomp_buffer_get_data(B[a], &p, &l, &pos);
		rc(r);
		if (r == 0) {
			evi("glen", (long long)l);
			evi("gcap", (long long)pos);
		}
	} else OP("bpoke") {
		/* write through the pointer of get_data */
		l = unhex(tv[3], tmp, sizeof(tmp));
		evi("b", a); evi("p", b); evb("v", tmp, l);
		r = pomp_buffer_get_data(B[a], &p, NULL, NULL);
		if (r == 0)
			memcpy((uint8_t *)p + b, tmp, l);
		rc(r);
		obsbuf("o", B[a]);
	} else OP("bobs") {
		evi("b", a);
		obsbuf("o", B[a]);
	} else OP("bfull") {
		l = 0;
		cp = NULL;
		pomp_buffer_get_cdata(B[a], &cp, &l, &pos);
		evi("b", a); evi("olen", (long long)l); evi("ocap", (long long)pos);
		evi("ooff", 0); evb("odata", cp, l);
	/* --- messages --- */
	} else OP("mnew") {
		evi("m", a);
		M[a] = pomp_msg_new();
		rc(M[a] ? 0 : -ENOMEM);
	} else OP("mcopy") {
		evi("m", a); evi("s", b);
		M[a] = pomp_msg_new_copy(M[b]);
		rc(M[a] ? 0 : -ENOMEM);
		if (M[a])
			obsmsg(M[a]);
	} else OP("mfrom") {
		evi("m", a); evi("b", b);
		M[a] = pomp_msg_new_with_buffer(B[b]);
		evi("ok", M[a] != NULL);
		fltinfo();
		if (M[a])
			obsmsg(M[a]);
	} else OP("mdel") {
		evi("m", a);
		rc(pomp_msg_destroy(M[a]));
		for (r = 0; r < N; r++) {
			/* -2: message gone, unusable until initialised again */
			if (Dm[r] == a)
				Dm[r] = -2;
			if (Em[r] == a)
				Em[r] = -2;
		}
		M[a] = NULL;
	} else OP("minit") {
		uint32_t id = (uint32_t)strtoul(tv[2], NULL, 16);
		evi("m", a); evb("id", &id, 4);
		rc(pomp_msg_init(M[a], id));
		obsmsg(M[a]);
	} else OP("mfin") {
		evi("m", a);
		rc(pomp_msg_finish(M[a]));
		obsmsg(M[a]);
	} else OP("mclr") {
		evi("m", a);
		rc(pomp_msg_clear(M[a]));
		obsmsg(M[a]);
	} else OP("mobs") {
		evi("m", a);
		obsmsg(M[a]);
	} else OP("mbuf") {
		/* take a reference on the buffer of the message */
		evi("b", a); evi("m", b);
		B[a] = pomp_msg_get_buffer(M[b]);
		Bref[a] = B[a] != NULL;
		if (B[a])
			pomp_buffer_ref(B[a]);
		evi("ok", B[a] != NULL);
	} else OP("mwrite") {
		uint32_t id = (uint32_t)strtoul(tv[2], NULL, 16);
		const char *f;
		evi("m", a); evb("id", &id, 4);
		f = getfmt(tv[3]);
		parse_args(tv + 4, n - 4);
		split_args();
		rc(pomp_msg_write(M[a], id, f, GX));
		free_args();
		obsmsg(M[a]);
	} else OP("mwargv") {
		uint32_t id = (uint32_t)strtoul(tv[2], NULL, 16);
		const char *f, **v;
		evi("m", a); evb("id", &id, 4);
		f = getfmt(tv[3]);
		r = parse_argv(tv + 4, n - 4);
		v = malloc(sizeof(*v) * (size_t)(r ? r : 1));
		memcpy(v, V, sizeof(*v) * (size_t)r);
		rc(pomp_msg_write_argv(M[a], id, f, r, v));
		obsmsg(M[a]);
	} else OP("mread") {
		const char *f;
		evi("m", a);
		f = getfmt(tv[2]);
		memset(O, 0xEE, sizeof(O));
		r = pomp_msg_read(M[a], f, OX);
		rc(r);
		out_slots(n > 3 ? tv[3] : "", r);
	} else OP("mdump") {
		uint32_t max = (uint32_t)atol(tv[2]);
		char *d = malloc(max ? max : 1);
		memset(d, 0xEE, max);
		evi("m", a); evi("max", max);
		r = pomp_msg_dump(M[a], d, max);
		rc(r);
		evi("nul", max ? memchr(d, 0, max) != NULL : 1);
		evb("txt", d, max ? strnlen(d, max) : 0);
		free(d);
	} else OP("madump") {
		char *d = SENT;
		evi("m", a);
		r = pomp_msg_adump(M[a], &d);
		rc(r);
		if (r == 0) {
			evb("txt", d, strlen(d));
			vw_free(d);
		} else {
			evi("left", d != SENT && d != NULL);
		}
	/* --- encoders, decoders --- */
	} else OP("enew") {
		evi("e", a);
		E[a] = pomp_encoder_new();
		Em[a] = -1;
		rc(E[a] ? 0 : -ENOMEM);
	} else OP("edel") {
		evi("e", a);
		rc(pomp_encoder_destroy(E[a]));
		E[a] = NULL;
	} else OP("einit") {
		evi("e", a); evi("m", b);
		rc(pomp_encoder_init(E[a], M[b]));
		Em[a] = b;
	} else OP("eclr") {
		evi("e", a);
		rc(pomp_encoder_clear(E[a]));
		Em[a] = -1;
	} else OP("ew") {
		evi("e", a);
		wasarmed = armed;
		encwrite(E[a], b, tv[3]);
		if ((n > 4 || wasarmed || b == 13) && Em[a] >= 0 && M[Em[a]])
			obsmsg(M[Em[a]]);
	} else OP("ewf") {
		/* ewf E M fmt args */
		const char *f;
		evi("e", a);
		f = getfmt(tv[3]);
		parse_args(tv + 4, n - 4);
		split_args();
		rc(pomp_encoder_write(E[a], f, GX));
		free_args();
		if (Em[a] >= 0)
			obsmsg(M[Em[a]]);
	} else OP("ewargv") {
		const char *f, **v;
		evi("e", a);
		f = getfmt(tv[3]);
		r = parse_argv(tv + 4, n - 4);
		v = malloc(sizeof(*v) * (size_t)(r ? r : 1));
		memcpy(v, V, sizeof(*v) * (size_t)r);
		rc(pomp_encoder_write_argv(E[a], f, r, v));
		if (Em[a] >= 0)
			obsmsg(M[Em[a]]);
	} else OP("dnew") {
		evi("d", a);
		D[a] = pomp_decoder_new();
		Dm[a] = -1;
		rc(D[a] ? 0 : -ENOMEM);
	} else OP("ddel") {
		evi("d", a);
		rc(pomp_decoder_destroy(D[a]));
		D[a] = NULL;
	} else OP("dinit") {
		evi("d", a); evi("m", b);
		rc(pomp_decoder_init(D[a], M[b]));
		Dm[a] = b;
	} else OP("dclr") {
		evi("d", a);
		rc(pomp_decoder_clear(D[a]));
		Dm[a] = -1;
	} else OP("dr") {
		evi("d", a);
		decread(D[a], b);
	} else OP("drf") {
		const char *f;
		evi("d", a);
		f = getfmt(tv[2]);
		memset(O, 0xEE, sizeof(O));
		r = pomp_decoder_read(D[a], f, OX);
		rc(r);
		out_slots(n > 3 ? tv[3] : "", r);
	/* --- stream decoder --- */
	} else OP("pnew") {
		evi("p", a);
		P[a] = pomp_prot_new();
		rc(P[a] ? 0 : -ENOMEM);
	} else OP("pdel") {
		evi("p", a);
		rc(pomp_prot_destroy(P[a]));
		P[a] = NULL;
	} else OP("pdec") {
		/* pdec P M hex : one call; the message, if any, goes to M */
		struct pomp_msg *m = SENT;
		uint8_t *in;
		l = unhex(tv[3], tmp, sizeof(tmp));
		in = malloc(l ? l : 1);
		memcpy(in, tmp, l);
		evi("p", a); evi("m", b); evb("v", in, l);
		r = pomp_prot_decode_msg(P[a], in, l, &m);
		free(in);
		rc(r);
		evs("got", m == SENT ? "unset" : m == NULL ? "null" : "msg");
		if (m != SENT && m != NULL) {
			M[b] = m;
			obsmsg(m);
		}
	} else OP("prel") {
		evi("p", a); evi("m", b);
		if (!M[b]) {
			/* nothing there */
			rc(0);
		} else {
			rc(pomp_prot_release_msg(P[a], M[b]));
		}
		M[b] = NULL;
	/* --- addresses --- */
	} else OP("aparse") {
		/* aparse dstlen hex ; allocations are exact so that any access
		 * outside is seen */
		uint32_t al = (uint32_t)a;
		char *s;
		uint8_t *dst = malloc((size_t)(a ? a : 1));
		l = unhex(tv[2], tmp, sizeof(tmp));
		s = malloc(l + 1);
		memcpy(s, tmp, l);
		s[l] = 0;
		memset(dst, 0xEE, (size_t)a);
		evb("s", s, l); evi("cap", a);
		r = pomp_addr_parse(s, (struct sockaddr *)dst, &al);
		rc(r);
		evi("al", (int)al);
		evb("addr", dst, (size_t)a);
		free(dst);
		free(s);
	} else OP("afmt") {
		/* afmt dstlen addrhex */
		struct sockaddr *sa;
		char *dst = malloc((size_t)(a ? a : 1));
		l = unhex(tv[2], tmp, sizeof(tmp));
		sa = malloc(l ? l : 1);
		memcpy(sa, tmp, l);
		memset(dst, 0xEE, (size_t)a);
		evb("addr", sa, l); evi("cap", a);
		r = pomp_addr_format(dst, (uint32_t)a, sa, (uint32_t)l);
		rc(r);
		evi("nul", a ? memchr(dst, 0, (size_t)a) != NULL : 1);
		evb("txt", dst, a ? strnlen(dst, (size_t)a) : 0);
		free(dst);
		free(sa);
	} else OP("aunix") {
		struct sockaddr *sa;
		l = unhex(tv[1], tmp, sizeof(tmp));
		sa = malloc(l ? l : 1);
		memcpy(sa, tmp, l);
		evb("addr", sa, l);
		rc(pomp_addr_is_unix(sa, (uint32_t)l));
		free(sa);
	} else OP("areal") {
		/* areal root hex */
		char root[256], *s, *d = NULL;
		l = unhex(tv[2], tmp, sizeof(tmp));
		s = malloc(l + 1);
		memcpy(s, tmp, l);
		s[l] = 0;
		if (strcmp(tv[1], "null")) {
			size_t l2 = unhex(tv[1], (uint8_t *)root, sizeof(root) - 1);
			root[l2] = 0;
			evb("root", root, l2);
			setenv("PRODUCT_ROOT_CFG", root, 1);
		} else {
			unsetenv("PRODUCT_ROOT_CFG");
		}
		evb("s", s, l);
		r = pomp_addr_get_real_addr(s, &d);
		rc(r);
		if (r == 0) {
			evb("out", d, strlen(d));
			vw_free(d);
		}
		free(s);
	} else OP("ftab") {
		/* text of a floating point value, by the C library */
		float f;
		double d;
		char txt[64];
		l = unhex(tv[1], tmp, 8);
		if (l == 4) {
			memcpy(&f, tmp, 4);
			snprintf(txt, sizeof(txt), "%.7g", (double)f);
		} else {
			memcpy(&d, tmp, 8);
			snprintf(txt, sizeof(txt), "%.7g", d);
		}
		evb("v", tmp, l);
		evb("txt", txt, strlen(txt));
	} else OP("end") {
		evi("nalloc", (int)vw_nalloc);
		evi("ai", vw_naddrinfo());
		evi("n", vw_nfds() - fdbase);
	} else {
		fprintf(stdout, "bad command %s\n", op);
		_exit(98);
	}
	evend();
}

static void emit(const char *fmt, int a, int b)
{
	char line[64];
	snprintf(line, sizeof(line), fmt, a, b);
	cmd(line);
}

void run_script(char **lines, int n)
{
	int i;
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("VW_LOG"))
		dup2(nul, 2);
	close(nul);
	fdbase = vw_nfds();
	for (i = 0; i < n; i++)
		cmd(lines[i]);
}
int main(int argc, char **argv) { return tr_main(argc, argv); }
