/* Case runner for the builds whose libc calls are left alone (MemorySanitizer, ThreadSanitizer); same interface as main.cpp. */
#define _GNU_SOURCE
#include "hist.h"
#include "threads.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>

struct Cur { char prop[16], name[64]; uint64_t idx, seed; char what[512]; uint64_t done; uint64_t data_len; uint8_t data[8192]; };
static struct Cur dummy, *cur = &dummy;
static uint64_t evals, tried; static int hang_seconds = 40, in_case;
struct Count { char name[80]; uint64_t n; }; static struct Count cov[256], mx[32]; static int ncov, nmx;
static void add(struct Count *c, int *n, const char *nm, uint64_t k, int max) { for (int i = 0; i < *n; i++) if (!strcmp(c[i].name, nm)) { if (max) { if (k > c[i].n) c[i].n = k; } else c[i].n += k; return; } snprintf(c[*n].name, 80, "%s", nm); c[(*n)++].n = k; }
static void cover(const char *nm, uint64_t k) { if (ncov < 255) add(cov, &ncov, nm, k, 0); }
static uint64_t *set; static size_t nset, cset; static void distinct(uint64_t h) { tried++; if (nset == cset) { cset = cset ? cset * 2 : 4096; set = realloc(set, cset * 8); if (!set) _exit(3); } set[nset++] = h; }
static char sample[6][200]; static int nsample; static uint64_t sctr, snext = 1;
static struct { char name[64], key[64], msg[400]; uint64_t idx, seed; } fails[16]; static int nfails;
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static uint64_t hash(const char *s) { uint64_t h = 0xcbf29ce484222325ull; while (*s) { h ^= (uint8_t)*s++; h *= 0x100000001b3ull; } return h; }
static void fail(const char *key, const char *msg)
{
	if (nfails >= 16) return;
	snprintf(fails[nfails].name, 64, "%s", cur->name); snprintf(fails[nfails].key, 64, "%s", key); snprintf(fails[nfails].msg, 400, "%s", msg); fails[nfails].idx = cur->idx; fails[nfails].seed = cur->seed; nfails++;
	fprintf(stderr, "VF-FAIL %s/%s/%s idx=%llu seed=%llu: %s\n", cur->prop, cur->name, key, (unsigned long long)cur->idx, (unsigned long long)cur->seed, msg);
}
static void hfail(struct Hist *h, const char *op, const char *what) { char b[300]; snprintf(b, sizeof b, "operation %ld, %s: %s", h->ops, op, what); fail("history", b); _exit(96); }
static void hstep(struct Hist *h, const char *op, uint64_t th) { char b[80]; snprintf(b, sizeof b, "op %s", op); cover(b, 1); evals++; }

static void c_history(uint64_t idx, uint64_t seed)
{
	struct Hist h; int slow = mix(seed + 9) % 30 == 0; hist_init(&h, seed, slow ? 0 : HIST_LIGHT); h.step = hstep; h.fail = hfail; hist_run(&h, 3 + (int)(mix(seed + 5) % 78)); distinct(h.th); add(mx, &nmx, "operations in one history", h.ops, 1);
	if (++sctr >= snext && nsample < 6) { snext = sctr * 3; snprintf(sample[nsample++], 200, "%ld operations, transcript %016llx", h.ops, (unsigned long long)h.th); }
}
static void c_kinds(uint64_t idx, uint64_t seed) { struct Hist h; hist_init(&h, seed, 0); h.step = hstep; h.fail = hfail; hist_one(&h, idx % HIST_KINDS); distinct(h.th ^ idx); }
static void c_threads(uint64_t idx, uint64_t seed)
{
	struct ThrOut o; int rc = thr_trial(seed, &o); static const char *key[] = { "", "differs", "died", "hang" }, *st[] = { "same first use", "staggered first use", "unsynchronised first use" }; char b[80]; evals++;
	if (rc) { if (o.status == THR_DIED && (o.rc & 0x7f) == 0 && o.rc >> 8 == 66) _exit(66); fail(key[o.status], o.msg); return; }
	distinct(o.order); snprintf(b, sizeof b, "%d threads", o.threads); cover(b, 1); cover(st[o.style], 1); cover("operations of threads", o.steps); cover("switches between threads", o.switches);
	if (++sctr >= snext && nsample < 6) { snext = sctr * 3; snprintf(sample[nsample++], 200, "%d threads, %u operations, %u switches", o.threads, o.steps, o.switches); }
}
static const struct { const char *prop, *name; void (*fn)(uint64_t, uint64_t); uint64_t quick, thorough; int fixed; } cases[] = {
	{ "M02", "history", c_history, 12000, 400000, 0 }, { "M02", "kinds", c_kinds, 48, 960, 1 }, { "M04", "threads", c_threads, 160, 4000, 0 } };
static void on_alarm(int s) { if (!in_case) return; strcpy(cur->what, "HANG"); static const char m[] = "VF-HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
static void one(int c, uint64_t idx, uint64_t seed)
{
	struct itimerval t; memset(&t, 0, sizeof t); strncpy(cur->prop, cases[c].prop, 15); strncpy(cur->name, cases[c].name, 63); cur->idx = idx; cur->seed = seed; cur->what[0] = 0;
	in_case = 1; t.it_value.tv_sec = hang_seconds * 3; setitimer(ITIMER_VIRTUAL, &t, NULL); cases[c].fn(idx, seed); evals++; in_case = 0; t.it_value.tv_sec = 0; setitimer(ITIMER_VIRTUAL, &t, NULL);
}
static void counts(FILE *f, struct Count *c, int n) { for (int i = 0; i < n; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", c[i].name, (unsigned long long)c[i].n); }
static void clean(char *s) { for (; *s; s++) if (*s == '"' || *s == '\\' || *s < 32) *s = ' '; }
int main(int argc, char **argv)
{
	const char *mode = argc > 1 ? argv[1] : "", *prop = "", *out = NULL, *curf = NULL, *only = NULL; uint64_t seed = 1, r_idx = 0, r_seed = 0; int tier = 0, shard = 0, nshards = 1; double scale = 1;
	for (int i = 2; i + 1 < argc; i += 2) {
		const char *a = argv[i], *v = argv[i + 1];
		if (!strcmp(a, "--prop")) prop = v; else if (!strcmp(a, "--tier")) tier = !strcmp(v, "thorough"); else if (!strcmp(a, "--seed")) seed = strtoull(v, 0, 10); else if (!strcmp(a, "--shard")) sscanf(v, "%d/%d", &shard, &nshards);
		else if (!strcmp(a, "--scale")) scale = atof(v); else if (!strcmp(a, "--out")) out = v; else if (!strcmp(a, "--cur")) curf = v; else if (!strcmp(a, "--case")) only = v;
		else if (!strcmp(a, "--idx")) r_idx = strtoull(v, 0, 10); else if (!strcmp(a, "--cseed")) r_seed = strtoull(v, 0, 10); else if (!strcmp(a, "--hang")) hang_seconds = atoi(v);
	}
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGVTALRM, &sa, NULL);
	if (curf) { int fd = open(curf, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd >= 0 && ftruncate(fd, sizeof *cur) == 0) { void *m = mmap(NULL, sizeof *cur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) cur = m; close(fd); } }
	int any = 0; const char *timing = getenv("VF_TIMING");
	for (int c = 0; c < (int)(sizeof cases / sizeof *cases); c++) {
		if (strcmp(cases[c].prop, prop) || (only && strcmp(only, cases[c].name))) continue;
		any = 1; if (!strcmp(mode, "replay")) { one(c, r_idx, r_seed); printf("%s\n", nfails ? "case FAILS" : "case passes"); return nfails ? 1 : 0; }
		uint64_t n = tier ? cases[c].thorough : cases[c].quick, cnt = 0; if (!cases[c].fixed) { n = (uint64_t)((double)n * scale); if (n < 1) n = 1; }
		struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		for (uint64_t idx = shard; idx < n && nfails < 5; idx += nshards) { cnt++; one(c, idx, mix(mix(seed) ^ hash(cases[c].name) ^ mix(idx * 2 + 1))); }
		char b[80]; snprintf(b, sizeof b, "case %s", cases[c].name); cover(b, cnt); clock_gettime(CLOCK_MONOTONIC, &t1);
		if (timing) fprintf(stderr, "VF-TIME %s/%s n=%llu %.2fs\n", prop, cases[c].name, (unsigned long long)cnt, (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9);
	}
	if (!any) { fprintf(stderr, "no case for %s\n", prop); return 3; }
	if (out) {
		FILE *f = fopen(out, "w"); if (!f) return 3; fprintf(f, "{\"evals\":%llu,\"tried\":%llu,\"cover\":{", (unsigned long long)evals, (unsigned long long)tried); counts(f, cov, ncov); fprintf(f, "},\"max\":{"); counts(f, mx, nmx); fprintf(f, "},\"samples\":[");
		for (int i = 0; i < nsample; i++) fprintf(f, "%s\"%s\"", i ? "," : "", sample[i]); fprintf(f, "],\"known\":{},\"failures\":[");
		for (int i = 0; i < nfails; i++) { clean(fails[i].msg); fprintf(f, "%s{\"case\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"idx\":%llu,\"seed\":%llu}", i ? "," : "", fails[i].name, fails[i].key, fails[i].msg, (unsigned long long)fails[i].idx, (unsigned long long)fails[i].seed); }
		fprintf(f, "]}\n"); fclose(f); char d[4096]; snprintf(d, sizeof d, "%s.set", out); f = fopen(d, "wb"); if (f) { if (nset) fwrite(set, 8, nset, f); fclose(f); }
	}
	cur->done = 1; return nfails ? 1 : 0;
}
