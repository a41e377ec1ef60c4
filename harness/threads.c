/* Runs programs on separate states in several threads at once and compares each
 * with its result when run alone.  stdin: "<threads> <rounds> <jitter>\n" then, per
 * program, "<length>\n<bytes>\n". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <unistd.h>
#include "yasl.h"
#include "yasl_aux.h"

static int jitter;
static __thread unsigned rng;
static unsigned rnd(void) { rng = rng * 1664525u + 1013904223u; return rng >> 10; }

void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
static void pause_(void) {
	if (!jitter || !rng) return;
	unsigned r = rnd() % 4096;
	if (r < (unsigned)jitter) sched_yield();
	else if (r < (unsigned)jitter + 2) usleep(r % 50);
}
void *__wrap_malloc(size_t n) { pause_(); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { pause_(); return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { pause_(); return __real_realloc(p, n); }
void __wrap_free(void *p) { pause_(); __real_free(p); }

struct prog { char *src; size_t len; int status; char *out, *err; size_t outlen, errlen; };
static struct prog progs[512];
static int nprogs, nthreads, rounds;
static pthread_barrier_t bar;
static atomic_int order_n;
static unsigned char order[1 << 20];     /* thread that finished each run */
static atomic_int bad;
static __thread int cookie;

static int host_add(struct YASL_State *S) {   /* uses only its arguments and thread-local memory */
	long long b = YASL_popint(S), a = YASL_popint(S);
	YASL_pushint(S, a + b);
	return 1;
}
static void dropped(void *p) { (*(int *)p)--; }
static int host_ud(struct YASL_State *S) { cookie++; YASL_pushuserdata(S, &cookie, "cookie", dropped); return 1; }

static char *text(struct YASL_State *S, int err, size_t *n) {
	if (err) YASL_loadprinterr(S); else YASL_loadprintout(S);
	/* the text may hold NUL bytes: the length is asked for with the len operator */
	YASL_duptop(S);
	YASL_len(S);
	*n = (size_t)YASL_popint(S);
	return YASL_popcstr(S);
}

static int run(struct prog *p, char **out, size_t *outlen, char **err, size_t *errlen) {
	char *copy = malloc(p->len + 1);
	memcpy(copy, p->src, p->len); copy[p->len] = 0;
	struct YASL_State *S = YASL_newstate_bb(copy, p->len);
	YASL_setprintout_tostr(S);
	YASL_setprinterr_tostr(S);
	YASLX_decllibs(S);
	YASL_pushcfunction(S, host_add, 2); YASLX_initglobal(S, "host_add");
	YASL_pushcfunction(S, host_ud, 0); YASLX_initglobal(S, "host_ud");
	int st = YASL_execute(S);
	*out = text(S, 0, outlen);
	*err = text(S, 1, errlen);
	YASL_delstate(S);
	free(copy);
	return st;
}

static void *worker(void *arg) {
	int id = (int)(long)arg;
	rng = 0;
	unsigned seed = 12345u + (unsigned)id * 7919u;
	for (int r = 0; r < rounds; r++) {
		rng = 0;
		pthread_barrier_wait(&bar);
		rng = seed = seed * 1664525u + 1013904223u + (unsigned)id;
		if (!rng) rng = 1;
		int start = (int)(rnd() % (unsigned)nprogs);
		for (int k = 0; k < nprogs; k++) {
			/* half of the rounds: all threads run the same program at the same time */
			int i = r % 2 ? (start + k) % nprogs : k;
			struct prog *p = &progs[i];
			char *o, *e; size_t on, en;
			int st = run(p, &o, &on, &e, &en);
			if (st != p->status || on != p->outlen || en != p->errlen || memcmp(o, p->out, strlen(p->out)) || memcmp(e, p->err, strlen(p->err))) {
				if (!atomic_exchange(&bad, 1))
					printf("differs program %d: status %d/%d\n--- alone\n%s\n%s--- in thread\n%s\n%s\n", i, p->status, st, p->out, p->err, o, e);
			}
			if (cookie) { if (!atomic_exchange(&bad, 1)) printf("differs program %d: %d destructors missing\n", i, cookie); cookie = 0; }
			free(o); free(e);
			int n = atomic_fetch_add(&order_n, 1);
			if (n < (int)sizeof order) order[n] = (unsigned char)id;
		}
	}
	return NULL;
}

int main(void) {
	if (scanf("%d %d %d\n", &nthreads, &rounds, &jitter) != 3) return 2;
	size_t n;
	while (nprogs < 512 && scanf("%zu", &n) == 1) {
		getchar();
		char *s = malloc(n + 1);
		if (fread(s, 1, n, stdin) != n) return 2;
		s[n] = 0;
		progs[nprogs].src = s; progs[nprogs].len = n;
		nprogs++;
	}
	/* Nothing of the library runs before the threads when jitter is odd: first use is concurrent. */
	if (!(jitter & 1))
		for (int i = 0; i < nprogs; i++) progs[i].status = run(&progs[i], &progs[i].out, &progs[i].outlen, &progs[i].err, &progs[i].errlen);
	else {
		/* results alone come from child processes */
		for (int i = 0; i < nprogs; i++) {
			int fd[2];
			if (pipe(fd)) return 2;
			fflush(stdout);
			pid_t c = fork();
			if (!c) {
				char *o, *e; size_t on, en;
				int st = run(&progs[i], &o, &on, &e, &en);
				size_t lo = strlen(o), le = strlen(e);
				FILE *f = fdopen(fd[1], "w");
				fprintf(f, "%d %zu %zu %zu %zu\n", st, on, en, lo, le);
				fwrite(o, 1, lo, f); fwrite(e, 1, le, f);
				fclose(f);
				_exit(0);
			}
			close(fd[1]);
			FILE *f = fdopen(fd[0], "r");
			size_t lo, le;
			if (fscanf(f, "%d %zu %zu %zu %zu", &progs[i].status, &progs[i].outlen, &progs[i].errlen, &lo, &le) != 5) { printf("child failed %d\n", i); return 3; }
			fgetc(f);
			progs[i].out = calloc(lo + 1, 1); progs[i].err = calloc(le + 1, 1);
			if (fread(progs[i].out, 1, lo, f) != lo || fread(progs[i].err, 1, le, f) != le) return 3;
			fclose(f);
		}
	}
	pthread_barrier_init(&bar, NULL, (unsigned)nthreads);
	pthread_t t[64];
	for (int i = 0; i < nthreads; i++) pthread_create(&t[i], NULL, worker, (void *)(long)i);
	for (int i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
	int runs = atomic_load(&order_n), switches = 0;
	unsigned long long h = 1469598103934665603ull;
	for (int i = 0; i < runs && i < (int)sizeof order; i++) {
		if (i && order[i] != order[i - 1]) switches++;
		h = (h ^ order[i]) * 1099511628211ull;
	}
	printf("ran %d switches %d order %llx\n", runs, switches, h);
	return atomic_load(&bad) ? 1 : 0;
}
