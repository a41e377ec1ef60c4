/* Drives the public C interface with a script of commands read from stdin and
 * prints what it observes.  Runs under runner.c's fork server. */
#define yasl_main api_main
#include "runner.c"
#undef yasl_main
#include <stdbool.h>
#include <setjmp.h>
#include "yasl.h"
#include "yasl_aux.h"

#define NSTATE 8
#define NFN 24
#define NUD 4096
static struct YASL_State *st[NSTATE];
static char *keep[NSTATE];               /* source buffer of the state */
static unsigned char uds[NUD];           /* addresses stand for ids */
static unsigned char ptrs[NUD];
static const char *const TAGS[4] = {"tag.zero", "tag.one", "file-like", ""};
static const char *const LITS[6] = {"", "a", "literal", "with space", "tostr", "0123456789012345678901234567890123456789"};
struct fn { char *body[64]; int n, did; };
static struct fn fns[NFN];
static int level, lastcall, nextud;

static void destroy(void *p) { printf("destroy %d\n", (int)((unsigned char *)p - uds)); }

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *unhex(const char *s, size_t *n) {
	size_t k = s ? strlen(s) : 0;
	if (k && s[0] == '-') k = 0;
	char *o = __real_malloc(k / 2 + 1);
	for (size_t i = 0; i + 1 < k; i += 2) o[i / 2] = (char)(hexv(s[i]) * 16 + hexv(s[i + 1]));
	o[k / 2] = 0;
	*n = k / 2;
	return o;
}
static void puthex(const char *s, size_t n) {
	if (!n) putchar('-');
	for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]);
}
static void putid(void *p) {
	unsigned char *q = p;
	if (!p) printf("null");
	else if (q >= uds && q < uds + NUD) printf("u%d", (int)(q - uds));
	else if (q >= ptrs && q < ptrs + NUD) printf("p%d", (int)(q - ptrs));
	else printf("other");
}
static unsigned long long bits(double d) { unsigned long long u; memcpy(&u, &d, 8); return u; }

static void see(struct YASL_State *S) {
	printf("see %s ", YASL_peektypename(S));
	printf("%d%d%d%d%d%d%d%d", YASL_isundef(S), YASL_isbool(S), YASL_isint(S), YASL_isfloat(S), YASL_isstr(S), YASL_islist(S), YASL_istable(S), YASL_isuserptr(S));
	for (int i = 0; i < 4; i++) printf("%d", YASL_isuserdata(S, TAGS[i]));
	printf(" %d %lld %llx ", YASL_peekbool(S), (long long)YASL_peekint(S), bits(YASL_peekfloat(S)));
	char *s = YASL_peekcstr(S);
	if (!s) printf("null"); else puthex(s, strlen(s));
	free(s);
	putchar(' '); putid(YASL_peekuserdata(S));
	putchar(' '); putid(YASL_peekuserptr(S));
	printf(" t%d\n", YASL_peektype(S));
}
static void seen(struct YASL_State *S, unsigned n) {
	printf("seen %u %s ", n, YASL_peekntypename(S, n));
	printf("%d%d%d%d%d%d%d%d", YASL_isnundef(S, n), YASL_isnbool(S, n), YASL_isnint(S, n), YASL_isnfloat(S, n), YASL_isnstr(S, n), YASL_isnlist(S, n), YASL_isntable(S, n), YASL_isnuserptr(S, n));
	for (int i = 0; i < 4; i++) printf("%d", YASL_isnuserdata(S, TAGS[i], n));
	printf(" %d %lld %llx ", YASL_peeknbool(S, n), (long long)YASL_peeknint(S, n), bits(YASL_peeknfloat(S, n)));
	putid(YASL_peeknuserdata(S, n));
	putchar('\n');
}

static int enter(struct YASL_State *S, int i);
#define F(i) static int f##i(struct YASL_State *S) { return enter(S, i); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23)
static const YASL_cfn FN[NFN] = {f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23};

/* One command on S.  Returns >= 0 to return from a host function. */
static void toplevel(int k, char *cmd);
static int command(struct YASL_State *S, char *line) {
	if (!strncmp(line, "on ", 3)) { /* an operation on another state, from inside a host function of this one */
		int nest = level;
		toplevel(line[3] - '0', line + 5);
		level = nest;
		return -1;
	}
	char *tok[6] = {0}; int n = 0;
	char *sv = NULL;
	for (char *t = strtok_r(line, " ", &sv); t && n < 6; t = strtok_r(NULL, " ", &sv)) tok[n++] = t;
	if (!n) return -1;
	const char *c = tok[0];
	size_t len;
	char *s;
	struct YASL_State *const S0 = S;
	(void)S0;
#define IS(x) (!strcmp(c, x))
	if (IS("int")) YASL_pushint(S, (yasl_int)strtoll(tok[1], NULL, 10));
	else if (IS("float")) { unsigned long long u = strtoull(tok[1], NULL, 16); double d; memcpy(&d, &u, 8); YASL_pushfloat(S, d); }
	else if (IS("bool")) YASL_pushbool(S, tok[1][0] == '1');
	else if (IS("undef")) YASL_pushundef(S);
	else if (IS("lstr")) { s = unhex(tok[1], &len); YASL_pushlstr(S, s, len); memset(s, '!', len); __real_free(s); }
	else if (IS("zstr")) { s = unhex(tok[1], &len); YASL_pushzstr(S, s); memset(s, '!', len); __real_free(s); }
	else if (IS("lit")) YASL_pushlit(S, LITS[atoi(tok[1])]);
	else if (IS("list")) YASL_pushlist(S);
	else if (IS("table")) YASL_pushtable(S);
	else if (IS("ud")) YASL_pushuserdata(S, uds + atoi(tok[1]), TAGS[atoi(tok[2])], destroy);
	else if (IS("udnext")) YASL_pushuserdata(S, uds + (nextud++ % NUD), TAGS[atoi(tok[1])], destroy);
	else if (IS("uptr")) YASL_pushuserptr(S, ptrs + atoi(tok[1]));
	else if (IS("cfn")) YASL_pushcfunction(S, FN[atoi(tok[1])], atoi(tok[2]));
	else if (IS("pop")) YASL_pop(S);
	else if (IS("dup")) YASL_duptop(S);
	else if (IS("len")) YASL_len(S);
	else if (IS("listpush")) printf("listpush %d\n", YASL_listpush(S));
	else if (IS("listget")) printf("listget %d\n", YASL_listget(S, (yasl_int)strtoll(tok[1], NULL, 10)));
	else if (IS("tableset")) printf("tableset %d\n", YASL_tableset(S));
	else if (IS("tablenext")) printf("tablenext %d\n", YASL_tablenext(S));
	else if (IS("walk")) { /* prints every entry of the table on top */
		YASL_pushundef(S);
		int k = 0;
		while (YASL_tablenext(S)) { see(S); YASL_pop(S); see(S); if (++k > 3000) break; }
		printf("walked %d\n", k);
	}
	else if (IS("decl")) printf("decl %d\n", YASL_declglobal(S, tok[1]));
	else if (IS("setg")) { /* the name's storage goes away after the call */
		s = malloc(strlen(tok[1]) + 1); strcpy(s, tok[1]); printf("setg %d\n", YASL_setglobal(S, s)); memset(s, '!', strlen(s)); free(s);
	}
	else if (IS("loadg")) printf("loadg %d\n", YASL_loadglobal(S, tok[1]));
	else if (IS("initg")) YASLX_initglobal(S, tok[1]);
	else if (IS("regmt")) printf("regmt %d\n", YASL_registermt(S, tok[1]));
	else if (IS("loadmt")) printf("loadmt %d\n", YASL_loadmt(S, tok[1]));
	else if (IS("setmt")) printf("setmt %d\n", YASL_setmt(S));
	else if (IS("call")) { int r = YASL_functioncall(S, atoi(tok[1])); lastcall = r; printf("call %d\n", r); }
	else if (IS("see")) see(S);
	else if (IS("seen")) seen(S, (unsigned)atoi(tok[1]));
	else if (IS("bytes") || IS("popbytes")) {   /* a string of N bytes as C memory: all its bytes, and the NUL after them */
		size_t n = (size_t)atoi(tok[1]);
		s = IS("bytes") ? YASL_peekcstr(S) : YASL_popcstr(S);
		printf("%s ", tok[0]);
		if (s) puthex(s, n + 1); else printf("null");
		putchar('\n');
		free(s);
	}
	else if (IS("popint")) printf("popint %lld\n", (long long)YASL_popint(S));
	else if (IS("popbool")) printf("popbool %d\n", YASL_popbool(S));
	else if (IS("popfloat")) printf("popfloat %llx\n", bits(YASL_popfloat(S)));
	else if (IS("popcstr")) { s = YASL_popcstr(S); printf("popcstr "); if (s) puthex(s, strlen(s)); else printf("null"); putchar('\n'); free(s); }
	else if (IS("popsum")) {    /* length, CRC-32 and, when short, text of the string on top */
		s = YASL_popcstr(S);
		size_t n = s ? strlen(s) : 0;
		uint32_t c = 0xffffffffu;
		for (size_t i = 0; i < n; i++) {
			c ^= (unsigned char)s[i];
			for (int b = 0; b < 8; b++) c = c >> 1 ^ (0xedb88320u & (0u - (c & 1)));
		}
		printf("popsum %s %zu %u ", s ? "str" : "none", n, ~c);
		if (n <= 3000) puthex(s ? s : "", n); else printf("long");
		putchar('\n');
		free(s);
	}
	else if (IS("popud")) { printf("popud "); putid(YASL_popuserdata(S)); putchar('\n'); }
	else if (IS("popuptr")) { printf("popuptr "); putid(YASL_popuserptr(S)); putchar('\n'); }
	else if (IS("vargs")) printf("vargs %lld\n", (long long)YASL_peekvargscount(S));
	else if (IS("vseen")) { /* arguments of a variadic function with some fixed parameters */
		long long fix = atoi(tok[1]), k = YASL_peekvargscount(S);
		printf("vargs %lld\n", k);
		for (long long i = 0; i < fix + k + 1 && i < 1100; i++) if (i != fix) seen(S, (unsigned)i);
	}
	else if (IS("checkint")) printf("checkint %lld\n", (long long)YASLX_checknint(S, tok[1], (unsigned)atoi(tok[2])));
	else if (IS("checkfloat")) printf("checkfloat %llx\n", bits(YASLX_checknfloat(S, tok[1], (unsigned)atoi(tok[2]))));
	else if (IS("checkbool")) printf("checkbool %d\n", YASLX_checknbool(S, tok[1], (unsigned)atoi(tok[2])));
	else if (IS("checkundef")) { YASLX_checknundef(S, tok[1], (unsigned)atoi(tok[2])); printf("checkundef\n"); }
	else if (IS("checkud")) { void *p = YASLX_checknuserdata(S, TAGS[atoi(tok[1])], tok[2], (unsigned)atoi(tok[3])); printf("checkud "); putid(p); putchar('\n'); }
	else if (IS("throw")) { YASL_print_err(S, "%s", tok[2]); YASL_throw_err(S, atoi(tok[1])); }
	else if (IS("throwquiet")) YASL_throw_err(S, atoi(tok[1]));
	else if (IS("perr")) YASL_print_err(S, "%s: %d", tok[1], atoi(tok[2]));
	else if (IS("libs")) YASLX_decllibs(S);
	else if (IS("capout")) YASL_setprintout_tostr(S);
	else if (IS("caperr")) YASL_setprinterr_tostr(S);
	else if (IS("loadout")) YASL_loadprintout(S);
	else if (IS("loaderr")) YASL_loadprinterr(S);
	else if (IS("once")) { struct fn *f = &fns[atoi(tok[1])]; if (f->did) return 0; f->did = 1; }
	else if (IS("run")) enter(S, atoi(tok[1]));      /* a host function's body, outside any program */
	else if (IS("both")) { fflush(stdout); printf("@@%s\n", tok[1]); fflush(stdout); fprintf(stderr, "@@%s\n", tok[1]); }
	else if (IS("say")) printf("say %s\n", tok[1]);
	else if (IS("retcall")) return lastcall;
	else if (IS("ret")) return atoi(tok[1]);
	else { printf("unknown command %s\n", c); }
	return -1;
}

static int enter(struct YASL_State *S, int i) {
	if (level > 40) return 0;
	for (int k = 0; k < fns[i].n; k++) {
		char b[1 << 16];
		snprintf(b, sizeof b, "%s", fns[i].body[k]);
		level++;
		int r = command(S, b);
		level--;
		if (r >= 0) return r;
	}
	return 0;
}

static void source(int k, const char *hex, char **buf, size_t *len) {
	(void)k;
	*buf = unhex(hex, len);
}

static int64_t base;
static void toplevel(int k, char *cmd) {
	size_t len;
	if (!strncmp(cmd, "new ", 4)) {
		source(k, cmd + 4, &keep[k], &len);
		st[k] = YASL_newstate_bb(keep[k], len);
	} else if (!strncmp(cmd, "newf ", 5)) {
		st[k] = YASL_newstate(cmd + 5);
		printf("newf %d\n", st[k] != NULL);
	} else if (!strncmp(cmd, "reset ", 6)) {
		char *b; source(k, cmd + 6, &b, &len);
		printf("reset %d\n", YASL_resetstate_bb(st[k], b, len));
		if (keep[k]) { memset(keep[k], '!', strlen(keep[k])); __real_free(keep[k]); }
		keep[k] = b;
	} else if (!strncmp(cmd, "resetf ", 7)) {
		printf("resetf %d\n", YASL_resetstate(st[k], cmd + 7));
	} else if (!strcmp(cmd, "exec")) printf("exec %d\n", YASL_execute(st[k]));
	else if (!strcmp(cmd, "repl")) printf("repl %d\n", YASL_execute_REPL(st[k]));
	else if (!strcmp(cmd, "compile")) printf("compile %d\n", YASL_compile(st[k]));
	else if (!strcmp(cmd, "del")) {
		int r = YASL_delstate(st[k]);
		st[k] = NULL;
		if (keep[k]) __real_free(keep[k]);
		keep[k] = NULL;
		printf("del %d\n", r);
	} else if (!strcmp(cmd, "blocks")) { fflush(stdout); printf("blocks %lld\n", (long long)(sh->blocks - base)); }
	else {
		char b[1 << 16];
		snprintf(b, sizeof b, "%s", cmd);
		command(st[k], b);
	}
}

int api_main(int argc, char **argv) {
	(void)argc; (void)argv;
	char *line = NULL; size_t cap = 0; ssize_t n;
	static struct fn *def;
	size_t all = 0, have = 0;
	/* The script is read before anything else, so that io.stdin of the states is free. */
	static char *script;
	counting = 0;
	script = __real_malloc(64 << 20);
	while ((n = read(0, script + have, (64 << 20) - have - 1)) > 0) have += (size_t)n;
	script[have] = 0;
	counting = 1;
	printf("start\n"); fflush(stdout);
	base = sh->blocks;
	(void)line; (void)cap; (void)all;
	char *next = script;
	while (next && *next) {
		line = next;
		next = strchr(line, '\n');
		if (next) *next++ = 0;
		if (def) {
			if (!strcmp(line, "end")) { def = NULL; continue; }
			if (def->n < 64) def->body[def->n++] = line;
			continue;
		}
		if (!strncmp(line, "def ", 4)) { def = &fns[atoi(line + 4)]; def->n = def->did = 0; continue; }
		if (!strncmp(line, "# ", 2)) continue;
		level = 0;
		toplevel(line[0] - '0', line + 2);
	}
	fflush(stdout);
	sh->blocks -= base;
	return 0;
}
