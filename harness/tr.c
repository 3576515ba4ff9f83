#include "tr.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

#define CAP (64u << 20)
struct shm { volatile size_t committed, nev; char data[]; };
static struct shm *shm;
static size_t pos;
int tr_timeout = 60, tr_maxev = 100000;

static void put(const char *s, size_t n)
{
	if (pos + n > CAP)
		_exit(99);
	memcpy(shm->data + pos, s, n);
	pos += n;
}
void evraw(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	put(b, (size_t)n);
}
void ev(const char *op)
{
	if (shm->nev == (size_t)tr_maxev)
		_exit(98);
	pos = shm->committed;
	evraw("%s{\"op\":\"%s\"", shm->nev ? "," : "", op);
}
void evi(const char *k, long long v)
{
	if (v > 2000000000)
		v = 2000000000;
	if (v < -2000000000)
		v = -2000000000;
	evraw(",\"%s\":%lld", k, v);
}
void evs(const char *k, const char *s) { evraw(",\"%s\":\"%s\"", k, s); }
static const char *itoa8(unsigned v, char *b)
{
	char *p = b + 4;
	*p = 0;
	do { *--p = (char)('0' + v % 10); v /= 10; } while (v);
	return p;
}
void evb(const char *k, const void *p, size_t n)
{
	const uint8_t *q = p;
	char b[8];
	const char *s;
	size_t i;
	evraw(",\"%s\":[", k);
	for (i = 0; i < n; i++) {
		if (i)
			put(",", 1);
		s = itoa8(q[i], b);
		put(s, strlen(s));
	}
	put("]", 1);
}
void evend(void)
{
	put("}", 1);
	shm->nev++;
	shm->committed = pos;
}
size_t tr_mark(void) { return shm->committed; }
size_t tr_nev(void) { return shm->nev; }
void tr_rollback(size_t m, size_t nev) { shm->committed = m; shm->nev = nev; }
int tok(char *line, char **tv, int max)
{
	int n = 0;
	char *p = line;
	while (*p && n < max) {
		while (*p == ' ')
			p++;
		if (!*p)
			break;
		tv[n++] = p;
		while (*p && *p != ' ')
			p++;
		if (*p)
			*p++ = 0;
	}
	return n;
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* "-" is the empty string; NN*count repeats a byte */
size_t unhex(const char *s, uint8_t *dst, size_t max)
{
	size_t n = 0;
	if (s[0] == '-')
		return 0;
	while (s[0] && s[1] && isxdigit((unsigned char)s[0])) {
		uint8_t b = (uint8_t)(hexv(s[0]) * 16 + hexv(s[1]));
		s += 2;
		if (*s == '*') {
			char *e;
			long c = strtol(s + 1, &e, 10);
			while (c-- > 0 && n < max)
				dst[n++] = b;
			s = e;
			if (*s == '.')
				s++;
		} else if (n < max) {
			dst[n++] = b;
		}
	}
	return n;
}

void vw_on_deadlock(void)
{
	ev("deadlock");
	evend();
}

static void child(char **lines, int n)
{
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	alarm((unsigned)tr_timeout);
	signal(SIGPIPE, SIG_DFL);
	run_script(lines, n);
	ev("fin");
	evend();
	fflush(NULL);
	_exit(0);
}

int tr_main(int argc, char **argv)
{
	FILE *in, *out;
	char *text;
	long sz;
	char **lines;
	int nl = 0, i, j, hangs = 0;
	if (argc < 3)
		return 2;
	in = fopen(argv[1], "r");
	out = fopen(argv[2], "w");
	if (!in || !out)
		return 2;
	fseek(in, 0, SEEK_END);
	sz = ftell(in);
	rewind(in);
	text = malloc((size_t)sz + 1);
	if (fread(text, 1, (size_t)sz, in) != (size_t)sz)
		return 2;
	text[sz] = 0;
	fclose(in);
	lines = malloc(sizeof(char *) * ((size_t)sz + 2));
	for (char *p = text; *p;) {
		lines[nl++] = p;
		p = strchr(p, '\n');
		if (!p)
			break;
		*p++ = 0;
	}
	shm = mmap(NULL, sizeof(*shm) + CAP, PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED)
		return 2;
	for (i = 0; i < nl; i = j) {
		pid_t pid;
		int st;
		if (strncmp(lines[i], "== ", 3) != 0) {
			j = i + 1;
			continue;
		}
		for (j = i + 1; j < nl && strncmp(lines[j], "== ", 3) != 0; j++)
			;
		shm->committed = 0;
		shm->nev = 0;
		fflush(out);
		pid = fork();
		if (pid == 0) {
			fclose(out);
			child(lines + i + 1, j - i - 1);
		}
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 97))) {
			if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
				return 3;	/* trace buffer full: error of ours */
			shm->nev += shm->nev == (size_t)tr_maxev;
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
				hangs++;
				ev("hang");
			} else {
				ev(WIFEXITED(st) && WEXITSTATUS(st) == 98 ? "flood" : "crash");
			}
			evi("st", st);
			evend();
		}
		fprintf(out, "{\"id\":\"%s\",\"ev\":[", lines[i] + 3);
		fwrite(shm->data, 1, shm->committed, out);
		fprintf(out, "]}\n");
		/* no use spending more time on it */
		if (hangs >= 2)
			break;
	}
	fclose(out);
	return 0;
}
