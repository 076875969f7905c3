// Case runner: campaign, replay and libFuzzer entry points.
#include "common.h"
extern uint64_t d_direct;
#include <map>
#include <unordered_set>
#include <algorithm>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

static Case *cases;
void vf_register(Case *c) { c->next = cases; cases = c; }
uint64_t vf_evals;
static std::map<std::string, uint64_t> cover, cover_max;
static std::unordered_set<uint64_t> distinct;
static std::vector<std::string> samples;
static std::string cur_prop; static int tier;
static std::string cur_msg, cur_note;
const char *vf_prop(void) { return cur_prop.c_str(); }
int vf_tier(void) { return tier; }
void vf_cover(const char *n) { cover[n]++; }
void vf_cover_n(const char *n, uint64_t k) { cover[n] += k; }
void vf_cover_max(const char *n, uint64_t v) { uint64_t &m = cover_max[n]; if (v > m) m = v; }
static uint64_t tried;
void vf_trivial(void) { tried++; }
void vf_distinct(uint64_t h) { tried++; if (distinct.size() < 2000000) distinct.insert(h); }
static std::vector<std::string> traces; static uint64_t vf_cur_seed(void);
void vf_trace(const char *name, uint64_t idx, uint64_t h, const char *group) { char b[200]; snprintf(b, sizeof b, "%s%s%s %llu %llu %016llx", name, *group ? "/" : "", group, (unsigned long long)idx, (unsigned long long)vf_cur_seed(), (unsigned long long)h); traces.push_back(b); }
static uint64_t sample_ctr, sample_next = 1;
void vf_sample(const char *fmt, ...)
{
	sample_ctr++;
	if (sample_ctr < sample_next || samples.size() >= 12) return;
	sample_next = sample_ctr * 3;
	char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	samples.push_back(b);
}
std::string vf_hex(const void *p, size_t n)
{
	static const char *h = "0123456789abcdef"; std::string r; const uint8_t *b = (const uint8_t *)p;
	size_t m = n > 200 ? 200 : n;
	for (size_t i = 0; i < m; i++) { r += h[b[i] >> 4]; r += h[b[i] & 15]; }
	if (m < n) r += "..";
	return r;
}
void vf_fail_case(const char *key, const char *fmt, ...)
{
	char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	cur_msg = b;
	CaseFail f; f.key = key; throw f;
}

static std::map<std::string, std::pair<uint64_t, std::string>> known;
void vf_known(const char *id, const char *fmt, ...)
{
	char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	auto &k = known[id]; if (!k.first++) k.second = std::string(cur_note) + b;
}

// current case, shared with the driver through a mapped file so that it survives a crash
struct Cur { char prop[16], name[64]; uint64_t idx, seed; char what[512]; uint64_t done; uint64_t data_len; uint8_t data[8192]; };
static Cur dummy, *cur = &dummy;
static int hang_seconds = 40;
static volatile sig_atomic_t in_case;
static void on_alarm(int) { if (!in_case) return; strcpy(cur->what, "HANG"); static const char m[] = "VF-HANG\n"; if (write(2, m, sizeof m - 1)) {}
#ifdef VF_FUZZ
	abort();	// libFuzzer keeps the input
#else
	_exit(97);
#endif
}
static void arm(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, NULL); }
static void on_assert(const char *e, const char *f, unsigned l) { snprintf(cur->what, sizeof cur->what, "ASSERT %s:%u %s", strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l, e); }

static uint64_t vf_cur_seed(void) { return cur->seed; }
struct Failure { std::string name, key, msg; uint64_t idx, seed; };
static std::vector<Failure> failures;

static bool run_one(Case *c, Src &s, uint64_t idx, uint64_t seed)
{
	strncpy(cur->prop, c->prop, 15); strncpy(cur->name, c->name, 63); cur->idx = idx; cur->seed = seed; cur->what[0] = 0;
	vf_fail_stop(); vf_ent_mode = 0; vf_clock_frozen = 0; vf_free_hook = NULL; vf_alloc_hook = NULL; vf_fill = 0xA5; vf_guard = 0; d_direct = vf_mix(seed + idx);
	long live0 = vf_live();
	bool ok = true;
	in_case = 1; arm(strcmp(c->prop, "D03") ? hang_seconds : 8 * hang_seconds);
	try {
		c->fn(s, idx);
		vf_fail_stop(); vf_free_hook = NULL;
		vf_evals++;
		if (vf_live() != live0) vf_fail_case("leak", "%ld block(s) allocated by the library were not released", vf_live() - live0);
	} catch (CaseFail &f) {
		ok = false;
		vf_fail_stop(); vf_free_hook = NULL; vf_alloc_hook = NULL; vf_guard = 0;
		Failure x; x.name = c->name; x.key = f.key; x.msg = cur_msg; x.idx = idx; x.seed = seed; failures.push_back(x);
		fprintf(stderr, "VF-FAIL %s/%s/%s idx=%llu seed=%llu: %s\n", c->prop, c->name, f.key.c_str(), (unsigned long long)idx, (unsigned long long)seed, cur_msg.c_str());
		vf_reset_live();
	}
	in_case = 0; arm(0);
	return ok;
}

static std::string jesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void write_out(const char *path)
{
	FILE *f = fopen(path, "w"); if (!f) { perror(path); _exit(3); }
	fprintf(f, "{\"evals\":%llu,\"tried\":%llu,\"cover\":{", (unsigned long long)vf_evals, (unsigned long long)tried);
	bool first = true;
	for (auto &k : cover) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
	fprintf(f, "},\"max\":{"); first = true;
	for (auto &k : cover_max) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
	fprintf(f, "},\"samples\":["); first = true;
	for (auto &k : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
	fprintf(f, "],\"known\":{"); first = true;
	for (auto &k : known) { fprintf(f, "%s\"%s\":[%llu,\"%s\"]", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second.first, jesc(k.second.second).c_str()); first = false; }
	fprintf(f, "},\"failures\":["); first = true;
	for (auto &k : failures) { fprintf(f, "%s{\"case\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"idx\":%llu,\"seed\":%llu}", first ? "" : ",", k.name.c_str(), jesc(k.key).c_str(), jesc(k.msg).c_str(), (unsigned long long)k.idx, (unsigned long long)k.seed); first = false; }
	fprintf(f, "]}\n"); fclose(f);
	std::string d = std::string(path) + ".set"; f = fopen(d.c_str(), "wb");
	for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
	fclose(f);
	if (!traces.empty()) { d = std::string(path) + ".trace"; f = fopen(d.c_str(), "w"); for (auto &t : traces) fprintf(f, "%s\n", t.c_str()); fclose(f); }
}

static void setup(void)
{
	vf_assert_hook = on_assert;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGPROF, &sa, NULL);
}

#ifdef VF_FUZZ
static std::vector<Case *> fz;
static const char *fz_out;
static void fz_exit(void) { if (fz_out) write_out(fz_out); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	if (fz.empty()) {
		const char *p = getenv("VF_PROP"); cur_prop = p ? p : "";
		const char *t = getenv("VF_TIER"); tier = t && !strcmp(t, "thorough");
		setup();
		for (Case *c = cases; c; c = c->next) if (cur_prop == c->prop && (c->flags & F_FUZZ)) fz.push_back(c);
		std::sort(fz.begin(), fz.end(), [](Case *a, Case *b) { return strcmp(a->name, b->name) < 0; });
		if (fz.empty()) { fprintf(stderr, "no fuzz case\n"); _exit(3); }
		const char *hs = getenv("VF_HANG"); if (hs) hang_seconds = atoi(hs);
		fz_out = getenv("VF_OUT"); atexit(fz_exit);
	}
	if (size < 3) return -1;
	Case *c = fz[data[0] % fz.size()];
	uint64_t idx = data[1] | data[2] << 8;
	Src s(data + 3, size - 3);
	bool ok = run_one(c, s, idx, 0);
	if (!ok) { fz_exit(); abort(); }
	return 0;
}
#else
int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	uint64_t seed = 1; int shard = 0, nshards = 1; double scale = 1; const char *out = NULL, *curf = NULL, *only = NULL; int maxfail = 5;
	uint64_t r_idx = 0, r_seed = 0;
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string a = argv[i]; const char *v = argv[i + 1];
		if (a == "--prop") cur_prop = v; else if (a == "--tier") tier = !strcmp(v, "thorough");
		else if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--shard") sscanf(v, "%d/%d", &shard, &nshards);
		else if (a == "--scale") scale = atof(v); else if (a == "--out") out = v; else if (a == "--cur") curf = v;
		else if (a == "--case") only = v; else if (a == "--idx") r_idx = strtoull(v, 0, 10); else if (a == "--cseed") r_seed = strtoull(v, 0, 10);
		else if (a == "--hang") hang_seconds = atoi(v); else if (a == "--maxfail") maxfail = atoi(v);
	}
	setup();
	if (curf) {
		int fd = open(curf, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0) { void *m = mmap(NULL, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) cur = (Cur *)m; close(fd); }
	}
	std::vector<Case *> list;
	for (Case *c = cases; c; c = c->next) if (cur_prop == c->prop && (!only || !strcmp(only, c->name))) list.push_back(c);
	std::sort(list.begin(), list.end(), [](Case *a, Case *b) { return strcmp(a->name, b->name) < 0; });
	if (mode == "list") { for (Case *c : list) printf("%s %s %llu %llu %d\n", c->prop, c->name, (unsigned long long)c->quick, (unsigned long long)c->thorough, c->flags); return 0; }
	if (mode == "replay") {
		if (list.size() != 1) { fprintf(stderr, "no such case\n"); return 3; }
		Src s(r_seed);
		bool ok = run_one(list[0], s, r_idx, r_seed);
		for (auto &t : traces) printf("trace %s\n", t.c_str());
		printf("%s\n", ok ? "case passes" : "case FAILS");
		return ok ? 0 : 1;
	}
	if (list.empty()) { fprintf(stderr, "no case for %s\n", cur_prop.c_str()); return 3; }
	const char *timing = getenv("VF_TIMING");
	for (Case *c : list) {
		uint64_t n = tier ? c->thorough : c->quick;
		if (!(c->flags & F_ENUM)) { n = (uint64_t)((double)n * scale); if (n < 1) n = 1; }
		struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		int nf = 0; uint64_t cnt = 0;
		for (uint64_t idx = (uint64_t)shard; idx < n; idx += (uint64_t)nshards) {
			uint64_t cs = vf_mix(vf_mix(seed) ^ vf_hash(c->name, strlen(c->name)) ^ vf_mix(idx * 2 + 1));
			Src s(cs);
			cnt++;
			if (!run_one(c, s, idx, cs) && ++nf >= maxfail) break;
		}
		cover[std::string("case ") + c->name] += cnt;
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if (timing) fprintf(stderr, "VF-TIME %s/%s n=%llu %.2fs\n", c->prop, c->name, (unsigned long long)cnt, (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9);
	}
	if (out) write_out(out);
	cur->done = 1;
	return failures.empty() ? 0 : 1;
}
#endif
