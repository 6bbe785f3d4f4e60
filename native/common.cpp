#include <sys/time.h>
#include "common.hpp"
#if defined(__has_include)
#if __has_include(<sanitizer/common_interface_defs.h>)
#include <sanitizer/common_interface_defs.h>
#define HAVE_SAN 1
#endif
#endif

string g_desc, g_prop; unsigned long g_case = 0; uint64_t g_seed = 0; bool g_nontrivial = false;
Alloc A;

static void report(const char* msg) {
	printf("\nFAIL property=%s seed=%llu case=%lu\n%s\nINPUT %s\n", g_prop.c_str(), (unsigned long long) g_seed, g_case, msg, g_desc.c_str());
	fflush(stdout);
}
void vp_fail(const char* fmt, ...) {
	char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	report(b);
	_exit(3);
}
void desc(const char* fmt, ...) {
	char b[2000]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (k >= (int) sizeof b) { vector<char> v((size_t) k + 1); va_start(ap, fmt); vsnprintf(v.data(), v.size(), fmt, ap); va_end(ap); g_desc += v.data(); return; }
	g_desc += b;
}

// ---------------------------------------------------------------- allocation
static bool want_fail(size_t sz) {
	++A.count;
	if (A.fail_at && (A.count == A.fail_at || (A.fail_rest && A.count > A.fail_at))) { ++A.failed; return true; }
	if (A.fail_over && sz > A.fail_over && A.fail_over_n > 0) { --A.fail_over_n; ++A.failed; return true; }
	return false;
}
extern "C" void* vp_malloc(size_t n) {
	if (want_fail(n)) return nullptr;
	if (n > ((size_t) 1 << 34)) { ++A.failed; return nullptr; }
	void* p = malloc(n ? n : 1);
	if (!p) { ++A.failed; return nullptr; }
	memset(p, A.fill, n);
	A.live[p] = n;
	return p;
}
extern "C" void* vp_calloc(size_t a, size_t b) {
	if (want_fail(a * b)) return nullptr;
	if (b && a > ((size_t) 1 << 34) / b) { ++A.failed; return nullptr; }
	void* p = calloc(a * b ? a * b : 1, 1);
	if (!p) { ++A.failed; return nullptr; }
	A.live[p] = a * b;
	return p;
}
extern "C" void* vp_realloc(void* q, size_t n) {
	if (!q) return vp_malloc(n);
	auto it = A.live.find(q);
	if (it == A.live.end()) vp_fail("realloc of a block the library does not own (already released or supplied by the caller)");
	if (want_fail(n)) return nullptr;
	size_t old = it->second;
	void* p = malloc(n ? n : 1);
	if (!p) { ++A.failed; return nullptr; }
	memset(p, A.fill, n);
	memcpy(p, q, old < n ? old : n);
	A.live.erase(it);
	free(q);
	A.live[p] = n;
	return p;
}
extern "C" void vp_free(void* p) {
	if (!p) return;
	auto it = A.live.find(p);
	if (it == A.live.end()) vp_fail("free of a block the library does not own (double free or caller-supplied memory)");
	memset(p, 0xDD, it->second);
	A.live.erase(it);
	free(p);
}
size_t live_blocks() { return A.live.size(); }

// ---------------------------------------------------------------- generators
string vecstr(const double* p, size_t n) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < n; ++i) o << (i ? "," : "") << p[i]; o << "]"; return o.str(); }

size_t gen_n(Rng& r, long lo, long hi, double pbig, long big) {
	if (r.p(pbig)) return (size_t) r.in(hi, big);
	return (size_t) r.in(lo, hi);
}

void gen_data(Rng& r, Data& D, size_t n) {
	D.n = n;
	int ds = (int) r.in(0, 9);
	D.d = ds < 5 ? 1 : ds < 8 ? 2 : (unsigned) r.in(3, 5);
	if (r.p(0.012)) { D.d = (unsigned) (r.p(0.6) ? r.in(6, 40) : r.p(0.8) ? r.in(250, 700) : r.in(65000, 65535)); if ((double) n * n * D.d > 2e7) D.d = 7; }
	D.x = Buf<double>(n * D.d);
	int style = (int) r.in(0, 9);
	D.exact = true;
	for (size_t i = 0; i < n; ++i) for (unsigned k = 0; k < D.d; ++k) {
		double v;
		switch (style) {
			case 0: v = 7; break;                                             // identical points
			case 1: v = (double) r.in(0, 1); break;
			case 2: v = (double) r.in(0, 3); break;
			case 3: v = (double) r.in(-5, 5); break;
			case 4: v = (double) r.in(0, (long) n); break;
			case 5: v = (double) (r.in(0, 2) * 100 + r.in(0, 4)); break;      // clumps
			case 6: v = (double) (long) i * (k == 0); break;                  // line
			case 7: v = (double) ((long) i * (long) i % 37); break;
			case 8: v = (double) r.in(-1000, 1000); break;
			default: v = r.unit() * 10 - 5; D.exact = false; break;
		}
		D.x[i * D.d + k] = v;
	}
	if (r.p(0.2) && n > 1) {   // one outlier
		size_t o = (size_t) r.in(0, (long) n - 1);
		for (unsigned k = 0; k < D.d; ++k) D.x[o * D.d + k] = 4000 + (double) r.in(0, 50);
	}
	if (r.p(0.15) && n > 2) {  // exact duplicates
		for (int t = 0; t < 2; ++t) { size_t a = (size_t) r.in(0, (long) n - 1), b = (size_t) r.in(0, (long) n - 1); for (unsigned k = 0; k < D.d; ++k) D.x[a * D.d + k] = D.x[b * D.d + k]; }
	}
	scc_ErrorCode e = scc_init_data_set(n, D.d, n * D.d, D.x.p, &D.ds);
	CHECK(e == SCC_ER_OK && D.ds, "scc_init_data_set failed with %d on valid input", (int) e);
	desc("n=%zu dims=%u data=%s ", n, D.d, n * D.d <= 400 ? vecstr(D.x.p, n * D.d).c_str() : "(large)");
}

double gen_radius(Rng& r, const Data& D) {
	// Exact data: whole or half numbers, so that every comparison is exact.
	double d = 1.0;
	if (D.n > 1) { size_t i = (size_t) r.in(0, (long) D.n - 1), j = (size_t) r.in(0, (long) D.n - 1); d = D.dist(i, j); }
	if (!D.exact) { double q = d * (0.2 + r.unit() * 1.5); return q > 1e-3 ? q : 0.5; }
	double f = std::floor(d);
	long m = r.in(0, 5);
	double q = m <= 2 ? f : m == 3 ? f + 0.5 : m == 4 ? f - 0.5 : (double) r.in(1, 6);
	return q > 0 ? q : 0.5;
}

void gen_opt(Rng& r, const Data& D, Opt& O, int types, bool batches, bool ignore_only) {
	size_t n = D.n;
	O.o = scc_get_default_options();
	long m = r.in(0, 19);
	O.o.size_constraint = (uint32_t) (m < 12 ? r.in(2, 3) : m < 17 ? r.in(2, std::min<long>(6, (long) n)) : m < 19 ? r.in(2, (long) n) : (long) n);
	if (n > 250 && O.o.size_constraint > 40 && !(n < 420 && r.p(0.2))) O.o.size_constraint = 40; // the square graph of a dense one takes too long
	if (O.o.size_constraint < 2) O.o.size_constraint = 2;
	bool ty = types == T_YES || (types == T_MAYBE && r.p(0.35));
	bool bt = batches && !ty && r.p(0.2);
	if (ty) {
		uint32_t nt = (uint32_t) r.in(2, 4);
		bool many = n <= 100 && r.p(0.02);   // a few used types far apart, most types empty
		if (many) nt = (uint32_t) r.in(200, 700);
		O.o.num_types = nt;
		vector<uint32_t> tc(nt, 0); uint32_t left = O.o.size_constraint;
		int st = (int) r.in(0, 5);
		for (uint32_t t = 0; t < nt && st > 0; ++t) { uint32_t v = (uint32_t) r.in(0, (long) std::min<uint32_t>(left, st == 1 ? left : 2)); tc[t] = v; left -= v; }
		if (r.p(0.5)) std::reverse(tc.begin(), tc.end());
		O.tc = Buf<uint32_t>(tc);
		vector<scc_TypeLabel> tl(n); for (auto& t : tl) t = (scc_TypeLabel) r.in(0, nt - 1);
		if (r.p(0.3)) for (size_t i = 0; i < n; ++i) tl[i] = (scc_TypeLabel) (i % nt);
		if (many) {
			uint32_t used[3] = { (uint32_t) r.in(0, 2), (uint32_t) r.in(190, 260) % nt, nt - 1 };
			for (auto& t : tl) t = (scc_TypeLabel) used[r.in(0, 2)];
			for (uint32_t t = 0; t < nt; ++t) O.tc[t] = 0;
			uint32_t lf = O.o.size_constraint;
			for (int u = 2; u >= 0; --u) { uint32_t v = (uint32_t) r.in(0, (long) std::min<uint32_t>(lf, 2)); if (O.tc[used[u]] == 0) { O.tc[used[u]] = v; lf -= v; } }
		}
		O.tl = Buf<scc_TypeLabel>(tl);
		O.o.type_constraints = O.tc.p; O.o.len_type_labels = n; O.o.type_labels = O.tl.p;
	}
	static const scc_SeedMethod sm[5] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	O.o.seed_method = bt ? SCC_SM_BATCHES : sm[r.in(0, 4)];
	if (r.p(0.35)) {
		double q = r.unit(); vector<PI> pr;
		for (size_t i = 0; i < n; ++i) if (r.p(q)) pr.push_back((PI) i);
		if (pr.empty()) pr.push_back((PI) r.in(0, (long) n - 1));
		O.prim = Buf<PI>(pr); O.has_prim = true;
		O.o.primary_data_points = O.prim.p; O.o.len_primary_data_points = pr.size();
	}
	static const scc_UnassignedMethod um[4] = { SCC_UM_IGNORE, SCC_UM_ANY_NEIGHBOR, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	static const scc_UnassignedMethod um2[3] = { SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	static const scc_RadiusMethod rm[4] = { SCC_RM_NO_RADIUS, SCC_RM_USE_SUPPLIED, SCC_RM_USE_SEED_RADIUS, SCC_RM_USE_ESTIMATED };
	O.o.primary_unassigned_method = ignore_only ? SCC_UM_IGNORE : um[r.in(0, bt ? 1 : 3)];
	O.o.secondary_unassigned_method = (ignore_only || bt) ? SCC_UM_IGNORE : um2[r.in(0, 2)];
	if (r.p(0.5)) { O.o.seed_radius = SCC_RM_USE_SUPPLIED; O.o.seed_supplied_radius = gen_radius(r, D); }
	O.o.primary_radius = bt ? SCC_RM_USE_SEED_RADIUS : rm[r.in(0, 3)];
	if (O.o.primary_radius == SCC_RM_USE_SUPPLIED) O.o.primary_supplied_radius = gen_radius(r, D);
	O.o.secondary_radius = rm[r.in(0, 3)];
	if (O.o.secondary_radius == SCC_RM_USE_SUPPLIED) O.o.secondary_supplied_radius = gen_radius(r, D);
	if (bt) O.o.batch_size = (uint32_t) r.in(0, (long) n + 1);
	else if (r.p(0.1)) O.o.batch_size = (uint32_t) r.in(0, 5);
	desc("%s ", optstr(O).c_str());
}

string optstr(const Opt& O) {
	std::ostringstream s; s.precision(17);
	const scc_ClusterOptions& o = O.o;
	s << "options{size=" << o.size_constraint << " types=" << o.num_types;
	if (O.tc.n) s << " tc=" << ivec(O.tc.p, O.tc.n);
	if (O.tl.n) s << " tl=" << ivec(O.tl.p, O.tl.n);
	s << " seed_method=" << o.seed_method;
	if (O.has_prim) s << " primary=" << ivec(O.prim.p, O.prim.n);
	s << " pum=" << o.primary_unassigned_method << " sum=" << o.secondary_unassigned_method << " seed_radius=" << o.seed_radius << ":" << o.seed_supplied_radius
	  << " pr=" << o.primary_radius << ":" << o.primary_supplied_radius << " sr=" << o.secondary_radius << ":" << o.secondary_supplied_radius << " batch=" << o.batch_size << "}";
	return s.str();
}

// ---------------------------------------------------------------- digraphs
string dgstr(const DG& g) {
	std::ostringstream s; s << "{";
	for (size_t v = 0; v < g.n; ++v) if (!g.adj[v].empty()) s << v << "->" << ivec(g.adj[v]) << " ";
	s << "|" << g.n << "}"; return s.str();
}
void to_lib(const DG& g, iscc_Digraph& out, size_t extra) {
	out.vertices = g.n; size_t m = g.arcs() + extra; out.max_arcs = m;
	out.tail_ptr = (iscc_ArcIndex*) vp_malloc((g.n + 1) * sizeof(iscc_ArcIndex));
	out.head = m ? (PI*) vp_malloc(m * sizeof(PI)) : nullptr;
	if (!out.tail_ptr || (m && !out.head)) { fprintf(stderr, "driver alloc\n"); _exit(4); }
	size_t k = 0; out.tail_ptr[0] = 0;
	for (size_t v = 0; v < g.n; ++v) { for (PI h : g.adj[v]) out.head[k++] = h; out.tail_ptr[v + 1] = (iscc_ArcIndex) k; }
}
DG from_lib(const iscc_Digraph& g, const char* what, bool tight) {
	DG r; r.n = g.vertices;
	CHECK(g.tail_ptr, "%s: digraph without tail_ptr", what);
	auto it = A.live.find(g.tail_ptr);
	CHECK(it != A.live.end() && it->second >= (g.vertices + 1) * sizeof(iscc_ArcIndex), "%s: tail_ptr storage too small", what);
	CHECK((g.max_arcs == 0) == (g.head == nullptr), "%s: head is %s but max_arcs is %zu", what, g.head ? "set" : "null", g.max_arcs);
	if (g.head) { auto h = A.live.find(g.head); CHECK(h != A.live.end() && h->second == g.max_arcs * sizeof(PI), "%s: head storage is not max_arcs", what); }
	CHECK(g.tail_ptr[0] == 0, "%s: tail_ptr[0] is %lu", what, (unsigned long) g.tail_ptr[0]);
	for (size_t v = 0; v < g.vertices; ++v) CHECK(g.tail_ptr[v] <= g.tail_ptr[v + 1], "%s: tail_ptr decreases at %zu", what, v);
	CHECK(g.tail_ptr[g.vertices] <= g.max_arcs, "%s: more arcs than storage", what);
	if (tight) CHECK(g.tail_ptr[g.vertices] == g.max_arcs, "%s: storage %zu does not fit the %lu arcs", what, g.max_arcs, (unsigned long) g.tail_ptr[g.vertices]);
	r.adj.resize(r.n);
	for (size_t v = 0; v < r.n; ++v) for (size_t a = g.tail_ptr[v]; a < g.tail_ptr[v + 1]; ++a) { CHECK(g.head[a] < r.n, "%s: head %lu out of range", what, (unsigned long) g.head[a]); r.adj[v].push_back(g.head[a]); }
	return r;
}
DG gen_dg(Rng& r, size_t n, bool simple, bool nonempty) {
	DG g; g.n = n; g.adj.resize(n);
	int style = (int) r.in(0, 6);
	double dens = style == 0 ? 0.1 : style == 1 ? 0.3 : style == 2 ? 0.7 : 0.2;
	long k = r.in(1, std::max<long>(1, std::min<long>(4, (long) n - 1)));
	for (size_t v = 0; v < n; ++v) {
		vector<PI> row;
		if (style <= 2) { for (size_t h = 0; h < n; ++h) if (r.p(dens)) row.push_back((PI) h); for (size_t i = row.size(); i > 1; --i) std::swap(row[i - 1], row[(size_t) r.in(0, (long) i - 1)]); }
		else if (style == 3 || style == 4) { if (style == 4 && r.p(0.4)) { g.adj[v] = row; continue; } for (long t = 0; t < k; ++t) row.push_back((PI) r.in(0, (long) n - 1)); }
		else if (style == 5) { for (long t = 1; t <= k; ++t) row.push_back((PI) ((v + (size_t) t) % n)); }
		else { if (v && r.p(0.7)) row.push_back(0); if (r.p(0.3)) row.push_back((PI) r.in(0, (long) n - 1)); }
		if (simple) { vector<PI> s; set<PI> seen; for (PI h : row) if (h != v && seen.insert(h).second) s.push_back(h); row = s; }
		else if (r.p(0.05) && !row.empty()) row.push_back(row[0]);
		g.adj[v] = row;
	}
	if (nonempty && g.arcs() == 0) { size_t v = (size_t) r.in(0, (long) n - 1); g.adj[v].push_back((PI) ((v + 1) % n)); }
	return g;
}

void check_sizes(const Clu& C, size_t n, uint32_t sc, const char* who) {
	CHECK(C.c->num_data_points == n, "%s changed the number of data points", who);
	CHECK(C.c->num_clusters >= 1, "%s reports success without any cluster", who);
	CHECK(C.c->cluster_label, "%s reports success without labels", who);
	vector<size_t> cnt(C.c->num_clusters, 0);
	for (size_t i = 0; i < n; ++i) {
		CL l = C.c->cluster_label[i];
		if (l == SCC_CLABEL_NA) continue;
		CHECK((size_t) l < C.c->num_clusters, "%s: label %lu of point %zu is not below the number of clusters %zu; labels %s", who, (unsigned long) l, i, C.c->num_clusters, ivec(C.labels()).c_str());
		++cnt[l];
	}
	for (size_t c = 0; c < cnt.size(); ++c) CHECK(cnt[c] >= sc, "%s: cluster %zu has %zu points, constraint %u; labels %s", who, c, cnt[c], sc, ivec(C.labels()).c_str());
}

// ---------------------------------------------------------------- main
map<string, CaseFn>& cases() { static map<string, CaseFn> m; return m; }
Reg::Reg(const char* p, CaseFn f) { cases()[p] = f; }

static void on_alarm(int) { report("no termination within 90 s of processor time for one case"); _exit(3); }
static void on_death() { report("invalid memory access or undefined behaviour (see the sanitizer report)"); }

int main(int argc, char** argv) {
	if (argc < 6) { fprintf(stderr, "usage: driver PROP SEED FIRST STRIDE SECONDS [MAXCASES [HASHFILE]]\n"); return 4; }
	g_prop = argv[1]; g_seed = strtoull(argv[2], 0, 10);
	unsigned long first = strtoul(argv[3], 0, 10), stride = strtoul(argv[4], 0, 10); double secs = atof(argv[5]);
	unsigned long maxc = argc > 6 ? strtoul(argv[6], 0, 10) : 0; if (!maxc) maxc = (unsigned long) -1;
	auto it = cases().find(g_prop);
	if (it == cases().end()) { fprintf(stderr, "unknown property\n"); return 4; }
#ifdef HAVE_SAN
	__sanitizer_set_death_callback(on_death);
#endif
	signal(SIGPROF, on_alarm);
	std::unordered_set<uint64_t> seen;
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned long done = 0; vector<string> samples;
	for (unsigned long i = first; done < maxc; i += stride) {
		g_case = i; g_desc.clear(); g_nontrivial = true;
		uint64_t ph = 1469598103934665603ull; for (char c : g_prop) ph = (ph ^ (unsigned char) c) * 1099511628211ull;
		Rng r(g_seed * 1000003ull + i * 7919ull + ph);
		A.reset(); A.fill = (unsigned char) (r.p(0.5) ? 0xA5 : r.p(0.5) ? 0x00 : 0xFF);
		scc_reset_dist_functions();
		size_t before = live_blocks();
		struct itimerval tv = {{0, 0}, {90, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
		it->second(r, i);
		tv.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &tv, nullptr);
		A.reset();
		CHECK(live_blocks() == before, "%zu block(s) left allocated after all objects were freed", live_blocks() - before);
		++done;
		if (g_nontrivial) { if (seen.size() < 400000) seen.insert(std::hash<string>()(g_desc)); if (samples.size() < 2 && g_desc.size() < 600 && i > 3) samples.push_back(g_desc); }
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if ((double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec) > secs) break;
	}
	printf("DONE cases=%lu distinct=%zu\n", done, seen.size());
	for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
	if (argc > 7) { FILE* f = fopen(argv[7], "wb"); if (f) { for (uint64_t h : seen) fwrite(&h, 8, 1, f); fclose(f); } }
	return 0;
}
