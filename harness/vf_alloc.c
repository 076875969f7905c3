#define _GNU_SOURCE
#include "vf_alloc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <sys/random.h>
#include <pthread.h>
#include <sys/mman.h>

#define TAB (1u << 20)
#define CAN 16	/* canary after each block when no AddressSanitizer watches */
extern void __asan_init(void) __attribute__((weak));
static struct { void *p; size_t n; void *map; size_t maplen; } *tab;
int vf_guard = 0;
static long live, live_bytes, allocs, armed_at = 0, armed_count = 0, failed = 0;
static int armed = 0, armed_all = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
void (*vf_free_hook)(void *, size_t) = NULL;
void (*vf_alloc_hook)(void *, size_t) = NULL;
int vf_fill = 0xA5;
void (*vf_assert_hook)(const char *, const char *, unsigned) = NULL;

static unsigned hp(const void *p) { uint64_t x = (uint64_t)(uintptr_t)p >> 4; x *= 0x9E3779B97F4A7C15ull; return (unsigned)(x >> 40) & (TAB - 1); }
static void init(void) { if (!tab) { tab = calloc(TAB, sizeof *tab); if (!tab) { fprintf(stderr, "vf: no memory\n"); _exit(3); } } }
static void ins(void *p, size_t n, void *map, size_t maplen)
{
	unsigned h = hp(p);
	while (tab[h].p) h = (h + 1) & (TAB - 1);
	tab[h].p = p; tab[h].n = n; tab[h].map = map; tab[h].maplen = maplen; live++; live_bytes += (long)n;
	if (live > (long)(TAB / 2)) { fprintf(stderr, "vf: table full\n"); _exit(3); }
}
static long find(const void *p)
{
	unsigned h = hp(p);
	while (tab[h].p) { if (tab[h].p == p) return (long)h; h = (h + 1) & (TAB - 1); }
	return -1;
}
static void del(long h)
{
	live--; live_bytes -= (long)tab[h].n;
	unsigned i = (unsigned)h, j = i;
	for (;;) {
		tab[i].p = NULL;
		for (;;) {
			j = (j + 1) & (TAB - 1);
			if (!tab[j].p) return;
			unsigned k = hp(tab[j].p);
			if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
			break;
		}
		tab[i] = tab[j]; i = j;
	}
}
long vf_live(void) { return live; }
long vf_live_bytes(void) { return live_bytes; }
long vf_allocs(void) { return allocs; }
void vf_reset_live(void) { pthread_mutex_lock(&mx); if (tab) memset(tab, 0, TAB * sizeof *tab); live = live_bytes = 0; pthread_mutex_unlock(&mx); }
int vf_is_live(const void *p) { int r; pthread_mutex_lock(&mx); init(); r = find(p) >= 0; pthread_mutex_unlock(&mx); return r; }
size_t vf_block_size(const void *p) { size_t r = 0; pthread_mutex_lock(&mx); init(); long h = find(p); if (h >= 0) r = tab[h].n; pthread_mutex_unlock(&mx); return r; }
void vf_fail_at(long k, int all) { armed = 1; armed_at = k; armed_all = all; armed_count = 0; failed = 0; }
long vf_fail_stop(void) { armed = 0; return armed_count; }
long vf_failed(void) { return failed; }

static int should_fail(void)
{
	allocs++;
	if (!armed) return 0;
	armed_count++;
	if (armed_count == armed_at || (armed_all && armed_count > armed_at)) { failed++; return 1; }
	return 0;
}
/* a block of its own pages between two inaccessible ones, ending (or beginning) right at the border */
static void *gmap(size_t n, size_t al, void **map, size_t *maplen)
{
	size_t pg = 4096, body = (n + pg - 1) / pg * pg, gap; if (!body) body = pg;
	uint8_t *m = mmap(NULL, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + pg, body, PROT_READ | PROT_WRITE)) { fprintf(stderr, "vf: no guarded memory\n"); _exit(3); }
	*map = m; *maplen = body + 2 * pg;
	memset(m + pg, 0x5B, body);
	gap = vf_guard == 2 ? 0 : (body - n) / al * al;
	return m + pg + gap;
}
/* 0 if the filling around the block is intact */
static int gcheck(long h)
{
	uint8_t *b = (uint8_t *)tab[h].map + 4096, *e = (uint8_t *)tab[h].map + tab[h].maplen - 4096, *p = tab[h].p;
	for (; b < p; b++) if (*b != 0x5B) return 1;
	for (p += tab[h].n; p < e; p++) if (*p != 0x5B) return 1;
	return 0;
}
void *vf_gbuf(size_t n, int where)
{
	int g = vf_guard; void *m, *p; size_t l; vf_guard = where < 0 ? 1 : 2; p = gmap(n, 1, &m, &l); vf_guard = g;
	if (where > 0) { if (n + (size_t)where > l - 8192) { munmap(m, l); where = 0; vf_guard = 2; p = gmap(n, 1, &m, &l); vf_guard = g; } else p = (uint8_t *)p + where; }
	pthread_mutex_lock(&mx); init(); ins(p, n, m, l); live--; live_bytes -= (long)n; pthread_mutex_unlock(&mx);
	return p;
}
int vf_gbuf_free(void *p)
{
	pthread_mutex_lock(&mx); init(); long h = find(p); if (h < 0) { fprintf(stderr, "vf: no such buffer\n"); _exit(3); }
	void *m = tab[h].map; size_t l = tab[h].maplen; mprotect((uint8_t *)m + 4096, l - 8192, PROT_READ | PROT_WRITE); int r = gcheck(h); live_bytes += (long)tab[h].n; live++; del(h); pthread_mutex_unlock(&mx);
	munmap(m, l); return r;
}
void vf_protect(const void *p, int ro)
{
	pthread_mutex_lock(&mx); init(); long h = find(p); if (h >= 0 && tab[h].map) mprotect((uint8_t *)tab[h].map + 4096, tab[h].maplen - 8192, ro ? PROT_READ : PROT_READ | PROT_WRITE); pthread_mutex_unlock(&mx);
}
void *vf_malloc(size_t n)
{
	void *p = NULL;
	pthread_mutex_lock(&mx); init();
	if (should_fail()) { errno = ENOMEM; pthread_mutex_unlock(&mx); return NULL; }
	pthread_mutex_unlock(&mx);
	if (vf_guard && !__asan_init) { void *m; size_t l; p = gmap(n, 16, &m, &l); if (vf_fill >= 0) memset(p, vf_fill, n); pthread_mutex_lock(&mx); ins(p, n, m, l); pthread_mutex_unlock(&mx); if (vf_alloc_hook) vf_alloc_hook(p, n); return p; }
	p = malloc(n + (__asan_init ? 0 : CAN));
	if (p) {
		if (!__asan_init) memset((char *)p + n, 0x5B, CAN);
		if (vf_fill >= 0) memset(p, vf_fill, n);
		pthread_mutex_lock(&mx); ins(p, n, NULL, 0); pthread_mutex_unlock(&mx); if (vf_alloc_hook) vf_alloc_hook(p, n);
	}
	return p;
}
void *vf_calloc(size_t a, size_t b)
{
	void *p;
	pthread_mutex_lock(&mx); init();
	if (should_fail()) { errno = ENOMEM; pthread_mutex_unlock(&mx); return NULL; }
	pthread_mutex_unlock(&mx);
	if (b && a > (size_t)-1 / 2 / b) return NULL;
	p = calloc(1, a * b + (__asan_init ? 0 : CAN));
	if (p) { if (!__asan_init) memset((char *)p + a * b, 0x5B, CAN); pthread_mutex_lock(&mx); ins(p, a * b, NULL, 0); pthread_mutex_unlock(&mx); if (vf_alloc_hook) vf_alloc_hook(p, a * b); }
	return p;
}
void vf_free(void *p)
{
	if (!p) return;
	pthread_mutex_lock(&mx); init();
	long h = find(p); size_t n = 0;
	if (h >= 0) { n = tab[h].n; }
	pthread_mutex_unlock(&mx);
	if (h >= 0 && vf_free_hook) vf_free_hook(p, n);
	pthread_mutex_lock(&mx);
	h = find(p);
	void *map = NULL; size_t maplen = 0; int hurt = 0;
	if (h >= 0) { map = tab[h].map; maplen = tab[h].maplen; if (map) hurt = gcheck(h); del(h); }
	pthread_mutex_unlock(&mx);
	if (map) { if (hurt) { if (vf_assert_hook) vf_assert_hook("heap block of the library was overrun", "vf_free", 0); fprintf(stderr, "vf: heap overrun\n"); abort(); } munmap(map, maplen); return; }
	if (__asan_init) { free(p); return; }
	if (h < 0) { if (vf_assert_hook) vf_assert_hook("free of a block that is not live (double or wild free)", "vf_free", 0); fprintf(stderr, "vf: bad free\n"); abort(); }
	for (int i = 0; i < CAN; i++) if (((unsigned char *)p)[n + i] != 0x5B) { if (vf_assert_hook) vf_assert_hook("heap block of the library was overrun", "vf_free", 0); fprintf(stderr, "vf: heap overrun\n"); abort(); }
	memset(p, 0xDD, n);
	free(p);
}
void *vf_realloc(void *p, size_t n)
{
	if (!p) return vf_malloc(n);
	size_t old = vf_block_size(p);
	void *q = vf_malloc(n);
	if (!q) return NULL;
	memcpy(q, p, old < n ? old : n);
	vf_free(p);
	return q;
}
void *vf_aligned_alloc(size_t al, size_t n)
{
	void *p;
	pthread_mutex_lock(&mx); init();
	if (should_fail()) { errno = ENOMEM; pthread_mutex_unlock(&mx); return NULL; }
	pthread_mutex_unlock(&mx);
	p = aligned_alloc(al, n + (__asan_init ? 0 : (CAN + al - 1) / al * al));
	if (p) { if (!__asan_init) memset((char *)p + n, 0x5B, CAN); pthread_mutex_lock(&mx); ins(p, n, NULL, 0); pthread_mutex_unlock(&mx); if (vf_alloc_hook) vf_alloc_hook(p, n); }
	return p;
}
int vf_posix_memalign(void **out, size_t al, size_t n)
{
	void *p = vf_aligned_alloc(al, (n + al - 1) / al * al);
	if (!p) return ENOMEM;
	*out = p; return 0;
}
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vf_malloc(n); if (p) memcpy(p, s, n); return p; }

void vf_assert_fail(const char *expr, const char *file, unsigned line, const char *func)
{
	if (vf_assert_hook) vf_assert_hook(expr, file, line);
	fprintf(stderr, "ASSERTION %s:%u %s: %s\n", file, line, func, expr);
	abort();
}

/* ---- clock and entropy ---- */
int vf_clock_frozen = 0; long long vf_clock_ns = 1000000000000ll;
int vf_ent_mode = 0; uint8_t vf_ent_script[256]; int vf_ent_script_len = 0;
long vf_ent_reads, vf_ent_bytes, vf_ent_opens;
static int script_off;
static int ent_fds[64], n_ent_fds;

int vf_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!vf_clock_frozen) return clock_gettime(c, ts);
	ts->tv_sec = vf_clock_ns / 1000000000ll; ts->tv_nsec = vf_clock_ns % 1000000000ll; return 0;
}
int vf_gettimeofday(struct timeval *tv, void *tz)
{
	if (!vf_clock_frozen) return gettimeofday(tv, tz);
	tv->tv_sec = vf_clock_ns / 1000000000ll; tv->tv_usec = vf_clock_ns % 1000000000ll / 1000; return 0;
}
time_t vf_time(time_t *t) { time_t v = vf_clock_frozen ? (time_t)(vf_clock_ns / 1000000000ll) : time(NULL); if (t) *t = v; return v; }
static int is_ent(const char *path) { return strstr(path, "random") != NULL; }
int vf_open(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	if (is_ent(path)) {
		vf_ent_opens++;
		if (vf_ent_mode == 1) { errno = EMFILE; return -1; }
		int fd = open(path, flags, mode);
		pthread_mutex_lock(&mx);
		if (fd >= 0 && n_ent_fds < 64) ent_fds[n_ent_fds++] = fd;
		pthread_mutex_unlock(&mx);
		return fd;
	}
	return open(path, flags, mode);
}
int vf_open_2(const char *path, int flags) { return vf_open(path, flags); }
int vf_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return vf_open(path, flags, mode); }
int vf_open64_2(const char *path, int flags) { return vf_open(path, flags); }
static int known(int fd) { int r = 0; pthread_mutex_lock(&mx); for (int i = 0; i < n_ent_fds; i++) if (ent_fds[i] == fd) r = 1; pthread_mutex_unlock(&mx); return r; }
static ssize_t ent(void *buf, size_t n, ssize_t (*real)(int, void *, size_t), int fd)
{
	vf_ent_reads++;
	if (vf_ent_mode == 2 && n > 1) { size_t k = 1 + (size_t)vf_ent_reads * 5 % 7; n = n > k ? k : n; }
	if (vf_ent_mode == 3) { errno = EIO; return -1; }
	if (vf_ent_mode == 5 && (vf_ent_reads & 1)) { errno = EINTR; return -1; }
	if (vf_ent_mode == 6 && n > 1) { size_t k = 1 + (size_t)script_off * 3 % 7; n = n > k ? k : n; }
	if (vf_ent_mode == 4 || vf_ent_mode == 6) {
		for (size_t i = 0; i < n; i++, script_off++) ((uint8_t *)buf)[i] = (uint8_t)(vf_ent_script[script_off % vf_ent_script_len] + (unsigned)script_off / (unsigned)vf_ent_script_len * 2654435761u / 65536u);	// never the same again, and still a function of the script
		vf_ent_bytes += (long)n; return (ssize_t)n;
	}
	ssize_t r = real ? real(fd, buf, n) : getrandom(buf, n, 0);
	if (r > 0) vf_ent_bytes += r;
	return r;
}
ssize_t vf_read(int fd, void *buf, size_t n) { return known(fd) ? ent(buf, n, read, fd) : read(fd, buf, n); }
ssize_t vf_read_chk(int fd, void *buf, size_t n, size_t m) { (void)m; return vf_read(fd, buf, n); }
int vf_close(int fd)
{
	pthread_mutex_lock(&mx);
	for (int i = 0; i < n_ent_fds; i++) if (ent_fds[i] == fd) { ent_fds[i] = ent_fds[--n_ent_fds]; break; }
	pthread_mutex_unlock(&mx);
	return close(fd);
}
ssize_t vf_getrandom(void *buf, size_t n, unsigned fl) { (void)fl; vf_ent_opens++; if (vf_ent_mode == 1) { errno = ENOSYS; return -1; } return ent(buf, n, NULL, -1); }
int vf_getentropy(void *buf, size_t n) { return vf_getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
int vf_openat(int dir, const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	return is_ent(path) ? vf_open(path, flags, mode) : openat(dir, path, flags, mode);
}
int vf_openat64(int dir, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return vf_openat(dir, path, flags, mode); }
static ssize_t ck_read(void *c, char *buf, size_t n) { return vf_read((int)(intptr_t)c, buf, n); }
static int ck_close(void *c) { return vf_close((int)(intptr_t)c); }
FILE *vf_fopen(const char *path, const char *m)
{
	if (!is_ent(path)) return fopen(path, m);
	int fd = vf_open(path, O_RDONLY | O_CLOEXEC); if (fd < 0) return NULL;
	cookie_io_functions_t io = { ck_read, NULL, NULL, ck_close };
	FILE *f = fopencookie((void *)(intptr_t)fd, "r", io); if (!f) vf_close(fd);
	return f;
}
FILE *vf_fopen64(const char *path, const char *m) { return vf_fopen(path, m); }
long vf_syscall(long nr, long a, long b, long c, long d, long e, long f)
{
	if (nr == SYS_getrandom) return vf_getrandom((void *)a, (size_t)b, (unsigned)c);
	return syscall(nr, a, b, c, d, e, f);
}
clock_t vf_times(struct tms *t) { clock_t r = times(t); if (vf_clock_frozen) { r = (clock_t)(vf_clock_ns / 10000000ll); } return r; }
void vf_script_reset(void) { script_off = 0; }
int vf_script_at(int set) { int o = script_off; if (set >= 0) script_off = set; return o; }
