/* M04: threads on objects of their own, against the same work done one after the other. Plain C so that ThreadSanitizer can watch all of it. */
#define _GNU_SOURCE
#include "threads.h"
#include "hist.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#define NT 8
#define NH 3
#define ORD 65536
static struct Sh { uint32_t ticket; long ops; uint8_t order[ORD]; uint64_t th[2][NT][HIST_KINDS + NH]; } *sh;
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
struct W { uint64_t seed; int t, nt, run, style, heavy; uint64_t delay; };
static pthread_barrier_t bar;
static void meet(struct W *w) { if (w->run) pthread_barrier_wait(&bar); }
static void step(struct Hist *h, const char *op, uint64_t th)
{
	struct W *w = h->arg; if (!w->run) return;
	uint32_t k = __atomic_fetch_add(&sh->ticket, 1, __ATOMIC_RELAXED); if (k < ORD) __atomic_store_n(&sh->order[k], (uint8_t)w->t, __ATOMIC_RELAXED);
	w->delay = mix(w->delay); if (w->delay % 7 == 0) sched_yield(); else if (w->delay % 101 == 0) usleep(w->delay >> 32 & 127);
}
static void *work(void *a)
{
	struct W *w = a; struct Hist h; uint64_t *out = sh->th[w->run][w->t]; int perm[HIST_KINDS]; uint64_t r = w->seed;
	for (int i = 0; i < HIST_KINDS; i++) perm[i] = i;
	for (int i = HIST_KINDS - 1; i > 0; i--) { r = mix(r); int j = r % (i + 1), x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
	/* first use of every algorithm: by all threads at once, or each thread somewhere else in the list */
	for (int i = 0; i < HIST_KINDS; i++) {
		int k = perm[(w->style == 0 ? i : (i + w->t * 3) % HIST_KINDS)];
		hist_init(&h, mix(w->seed * 31 + w->t * 977 + k), 0); h.step = step; h.arg = w; if (w->style < 2) meet(w); hist_one(&h, k); out[k] = h.th;
	}
	for (int i = 0; i < NH; i++) {
		hist_init(&h, mix(w->seed * 57 + w->t * 1013 + i), w->heavy ? 0 : HIST_LIGHT); h.step = step; h.arg = w; meet(w); hist_run(&h, 10 + (int)(mix(w->seed + i) % 60)); out[HIST_KINDS + i] = h.th;
		if (w->run) __atomic_fetch_add(&sh->ops, h.ops, __ATOMIC_RELAXED);
	}
	return NULL;
}
static int child(int run, struct W *base)
{
	fflush(NULL); pid_t p = fork(); if (p < 0) return -1;
	if (p == 0) {
		struct rlimit rl = { 300, 300 }; setrlimit(RLIMIT_CPU, &rl); struct W w[NT]; pthread_t id[NT];
		if (run) pthread_barrier_init(&bar, NULL, base->nt);
		for (int t = 0; t < base->nt; t++) { w[t] = *base; w[t].t = t; w[t].run = run; w[t].delay = mix(base->seed ^ t * 77); if (!run) work(&w[t]); }
		if (run) { for (int t = 0; t < base->nt; t++) if (pthread_create(&id[t], NULL, work, &w[t])) { fprintf(stderr, "vf: no thread\n"); _exit(90); } for (int t = 0; t < base->nt; t++) pthread_join(id[t], NULL); }
		_exit(0);
	}
	for (int ms = 0; ms < 240000; ) { int st; pid_t q = waitpid(p, &st, WNOHANG); if (q == p) return st; if (q < 0 && errno != EINTR) return -1; usleep(ms < 50 ? 500 : 2000); ms += ms < 50 ? 1 : 2; }
	kill(p, SIGKILL); waitpid(p, NULL, 0); return -2;
}
int thr_trial(uint64_t seed, struct ThrOut *o)
{
	struct W b; memset(&b, 0, sizeof b); b.seed = mix(seed); b.nt = 2 + mix(seed + 1) % (NT - 1); if (mix(seed + 2) & 1) b.nt = NT; b.style = mix(seed + 3) % 3; b.heavy = mix(seed + 4) % 8 == 0;
	memset(o, 0, sizeof *o); o->threads = b.nt; o->style = b.style;
	if (!sh) { sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { perror("mmap"); _exit(3); } }
	for (int try = 0; try < 2; try++) {
		memset(sh, 0, sizeof *sh); 
		/* the threads go first, so that nothing has been used before */
		for (int run = 1; run >= 0; run--) {
			int st = child(run, &b);
			if (st == -1 || (WIFEXITED(st) && WEXITSTATUS(st) == 90)) { fprintf(stderr, "vf: no process or thread\n"); _exit(3); }
			if (st == -2) { o->status = THR_TIMEOUT; o->rc = run; goto again; }
			if (st != 0) { o->status = THR_DIED; o->rc = st; snprintf(o->msg, sizeof o->msg, "%s: %s %d", run ? "with threads" : "one after the other", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); return 1; }
		}
		o->status = THR_OK; break;
again:;
	}
	if (o->status) { snprintf(o->msg, sizeof o->msg, "%s do not end", o->rc ? "the threads" : "the operations"); return 1; }
	uint32_t n = sh->ticket < ORD ? sh->ticket : ORD, sw = 0; uint64_t x = 1469598103934665603ull; for (uint32_t i = 0; i < n; i++) { x = (x ^ sh->order[i]) * 1099511628211ull; if (i && sh->order[i] != sh->order[i - 1]) sw++; }
	o->order = x; o->switches = sw; o->steps = sh->ticket;
	for (int t = 0; t < b.nt; t++) for (int k = 0; k < HIST_KINDS + NH; k++) if (sh->th[0][t][k] != sh->th[1][t][k]) {
		o->status = THR_DIFFERS; if (k < HIST_KINDS) snprintf(o->msg, sizeof o->msg, "thread %d of %d obtains another result from %s than alone", t, b.nt, hist_kind[k]); else snprintf(o->msg, sizeof o->msg, "thread %d of %d obtains other results from history %d than alone", t, b.nt, k - HIST_KINDS); return 1;
	}
	return 0;
}
