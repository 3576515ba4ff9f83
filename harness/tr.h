/* Trace writing and script running, shared by the drivers */
#ifndef TR_H
#define TR_H
#include "vw.h"
#include <stdio.h>
#include <stdarg.h>

void ev(const char *op);			/* start an event */
void evi(const char *k, long long v);		/* integer field (clamped to 32 bits) */
void evb(const char *k, const void *p, size_t n);	/* bytes field */
void evs(const char *k, const char *s);		/* plain string field */
void evraw(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void evend(void);

/* forget the events written since then */
size_t tr_mark(void), tr_nev(void);
void tr_rollback(size_t mark, size_t nev);

/* script parsing */
int tok(char *line, char **tv, int max);
size_t unhex(const char *s, uint8_t *dst, size_t max);
int digits(const char *s);

/* to be provided by the driver: run one script (array of lines) in a child */
void run_script(char **lines, int n);
int tr_main(int argc, char **argv);
extern int tr_timeout, tr_maxev;
#endif
