/* Fork server: runs yasl's own main() on each request in a fresh child and
 * reports exit status, output and the allocation balance.
 *
 * request : u32 len | u32 cpu | u32 wall | u32 argc | (u32 n, bytes)*argc
 *           | (u32 n, cwd) | (u32 n, stdin)
 * response: u32 len | i32 waitstatus | u32 done | i64 live_bytes | i64 live_blocks
 *           | i64 allocs | (u32 n, stdout) | (u32 n, stderr)
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <malloc.h>
#include <grp.h>

int yasl_main(int argc, char **argv);

struct shared { int64_t bytes, blocks, allocs; uint32_t done; };
static struct shared *sh;
static int counting;
#define MEM_CAP ((int64_t)1 << 30)

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

static void oom(void) { fflush(stdout); _exit(77); }

static void add(void *p) {
	if (!counting || !p) return;
	sh->bytes += (int64_t)malloc_usable_size(p);
	sh->blocks++;
	sh->allocs++;
	if (sh->bytes > MEM_CAP) oom();
}
static void sub(void *p) {
	if (!counting || !p) return;
	sh->bytes -= (int64_t)malloc_usable_size(p);
	sh->blocks--;
}
void *__wrap_malloc(size_t n) {
	if (counting && n > (size_t)MEM_CAP) oom();
	void *p = __real_malloc(n); add(p); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (counting && a && b > (size_t)MEM_CAP / a) oom();
	void *p = __real_calloc(a, b); add(p); return p;
}
void *__wrap_realloc(void *o, size_t n) {
	if (counting && n > (size_t)MEM_CAP) oom();
	if (o) sub(o);
	void *p = __real_realloc(o, n); add(p); return p;
}
void __wrap_free(void *p) { sub(p); __real_free(p); }

static int readall(int fd, void *b, size_t n) {
	char *p = b;
	while (n) {
		ssize_t k = read(fd, p, n);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) return 0;
		p += k; n -= (size_t)k;
	}
	return 1;
}
static void writeall(int fd, const void *b, size_t n) {
	const char *p = b;
	while (n) {
		ssize_t k = write(fd, p, n);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) _exit(3);
		p += k; n -= (size_t)k;
	}
}
static char *cur;
static uint32_t u32(void) { uint32_t v; memcpy(&v, cur, 4); cur += 4; return v; }
static char *str(uint32_t *len) {
	uint32_t n = u32();
	char *s = __real_malloc(n + 1);
	memcpy(s, cur, n); s[n] = 0; cur += n;
	if (len) *len = n;
	return s;
}
static void slurp(int fd, char **out, uint32_t *n) {
	struct stat st; fstat(fd, &st);
	if (st.st_size > (64 << 20)) st.st_size = 64 << 20;
	*n = (uint32_t)st.st_size;
	*out = __real_malloc(*n + 1);
	lseek(fd, 0, SEEK_SET);
	if (!readall(fd, *out, *n)) *n = 0;
}

int main(void) {
	int in = dup(0), out = dup(1);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0); dup2(nul, 1);
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (;;) {
		uint32_t len;
		if (!readall(in, &len, 4)) return 0;
		char *buf = __real_malloc(len);
		if (!readall(in, buf, len)) return 0;
		cur = buf;
		uint32_t cpu = u32(), wall = u32(), argc = u32(), nin;
		char **argv = __real_calloc(argc + 1, sizeof(char *));
		for (uint32_t i = 0; i < argc; i++) argv[i] = str(NULL);
		char *cwd = str(NULL);
		char *sin = str(&nin);
		int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
		writeall(fi, sin, nin);
		lseek(fi, 0, SEEK_SET);
		memset(sh, 0, sizeof *sh);
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit rl = {cpu, cpu + 1};
			setrlimit(RLIMIT_CPU, &rl);
			struct rlimit fs = {64 << 20, 64 << 20};
			setrlimit(RLIMIT_FSIZE, &fs);
			struct rlimit co = {0, 0};
			setrlimit(RLIMIT_CORE, &co);
			alarm(wall);
			if (geteuid() == 0 && (setgroups(0, NULL) || setgid(65534) || setuid(65534))) _exit(98);
			if (*cwd && chdir(cwd)) _exit(97);
			dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
			close(fi); close(fo); close(fe); close(in); close(out); close(nul);
			counting = 1;
			int r = yasl_main((int)argc, argv);
			counting = 0;
			fflush(NULL);
			sh->done = 1;
			_exit(r & 0xff);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
		char *o, *e; uint32_t no, ne;
		slurp(fo, &o, &no); slurp(fe, &e, &ne);
		close(fi); close(fo); close(fe);
		uint32_t rl = 4 + 4 + 24 + 4 + no + 4 + ne;
		char *r = __real_malloc(rl + 4), *p = r;
		int32_t ws = st;
#define PUT(x, n) (memcpy(p, x, n), p += (n))
		PUT(&rl, 4); PUT(&ws, 4); PUT(&sh->done, 4);
		PUT(&sh->bytes, 8); PUT(&sh->blocks, 8); PUT(&sh->allocs, 8);
		PUT(&no, 4); PUT(o, no); PUT(&ne, 4); PUT(e, ne);
		writeall(out, r, rl + 4);
		__real_free(r); __real_free(o); __real_free(e); __real_free(cwd); __real_free(sin);
		for (uint32_t i = 0; i < argc; i++) __real_free(argv[i]);
		__real_free(argv); __real_free(buf);
	}
}
