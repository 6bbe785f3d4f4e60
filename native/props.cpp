#include "common.hpp"

// =============================================================== SPI spies
// Installed through scc_set_dist_functions: they forward to the built-in functions, count, and can be told to fail.
struct Spy {
	unsigned long calls[10] = {0}; unsigned long total = 0, fail_at = 0, search_calls = 0; bool failed = false; int failed_fn = -1;
	void* ds = nullptr; string bad;
	void reset() { *this = Spy(); }
	bool hit(int f) { ++calls[f]; ++total; if (fail_at && total == fail_at) { failed = true; failed_fn = f; return true; } return false; }
	void chk(void* d) { if (ds && d != ds && bad.empty()) bad = "data set argument changed"; }
} S;
extern "C" {
static bool sp_check(void* d) { ++S.calls[0]; S.chk(d); return iscc_imp_check_data_set(d); }
static size_t sp_num(void* d) { ++S.calls[1]; S.chk(d); return iscc_imp_num_data_points(d); }
static bool sp_matrix(void* d, size_t n, const PI* p, double* o) { S.chk(d); if (S.hit(2)) return false; return iscc_imp_get_dist_matrix(d, n, p, o); }
static bool sp_rows(void* d, size_t n, const PI* p, size_t m, const PI* q, double* o) { S.chk(d); if (S.hit(3)) return false; return iscc_imp_get_dist_rows(d, n, p, m, q, o); }
static bool sp_imax(void* d, size_t n, const PI* p, iscc_MaxDistObject** o) { S.chk(d); if (S.hit(4)) return false; return iscc_imp_init_max_dist_object(d, n, p, o); }
static bool sp_max(iscc_MaxDistObject* o, size_t n, const PI* q, PI* a, double* b) { if (S.hit(5)) return false; return iscc_imp_get_max_dist(o, n, q, a, b); }
static bool sp_cmax(iscc_MaxDistObject** o) { ++S.calls[6]; return iscc_imp_close_max_dist_object(o); }
static bool sp_inn(void* d, size_t n, const PI* p, iscc_NNSearchObject** o) { S.chk(d); if (S.hit(7)) return false; return iscc_imp_init_nn_search_object(d, n, p, o); }
static bool sp_nn(iscc_NNSearchObject* o, size_t n, const PI* q, uint32_t k, bool rs, double r, size_t* ok, PI* oq, PI* on) { if (S.hit(8)) return false; return iscc_imp_nearest_neighbor_search(o, n, q, k, rs, r, ok, oq, on); }
static bool sp_cnn(iscc_NNSearchObject** o) { ++S.calls[9]; return iscc_imp_close_nn_search_object(o); }
}
static void spy_install(void* ds) {
	S.reset(); S.ds = ds;
	CHECK(scc_set_dist_functions(sp_check, sp_num, sp_matrix, sp_rows, sp_imax, sp_max, sp_cmax, sp_inn, sp_nn, sp_cnn), "scc_set_dist_functions refused a complete set");
}

static const char* ecs(scc_ErrorCode e) { static const char* n[] = {"OK","UNKNOWN_ERROR","INVALID_INPUT","NO_MEMORY","NO_SOLUTION","TOO_LARGE_PROBLEM","DIST_SEARCH_ERROR","NOT_IMPLEMENTED"}; return (unsigned) e < 8 ? n[e] : "?"; }

// =============================================================== shared pieces
static void check_types(const Clu& C, const Opt& O, size_t n) {
	if (O.o.num_types < 2) return;
	size_t nc = C.c->num_clusters; uint32_t nt = O.o.num_types;
	vector<size_t> cnt(nc * nt, 0);
	for (size_t i = 0; i < n; ++i) { CL l = C.c->cluster_label[i]; if (l != SCC_CLABEL_NA && (size_t) l < nc) ++cnt[(size_t) l * nt + O.tl.p[i]]; }
	for (size_t c = 0; c < nc; ++c) for (uint32_t t = 0; t < nt; ++t)
		CHECK(cnt[c * nt + t] >= O.tc.p[t], "cluster %zu has %zu points of type %u, constraint %u; labels %s", c, cnt[c * nt + t], t, O.tc.p[t], ivec(C.labels()).c_str());
}

// number of (primary) points that have enough points within the radius
static bool solvable(const Data& D, const Opt& O) {
	if (O.o.size_constraint > D.n) return false;
	bool rad = O.o.seed_radius == SCC_RM_USE_SUPPLIED; double R = O.o.seed_supplied_radius;
	for (size_t i = 0; i < D.n; ++i) {
		if (!O.primary(i)) continue;
		if (O.o.num_types >= 2) {
			bool ok = true; size_t tot = 0;
			for (uint32_t t = 0; t < O.o.num_types; ++t) { size_t k = 0; for (size_t j = 0; j < D.n; ++j) if (O.tl.p[j] == t && (!rad || cmpd(D, D.dist(i, j), R) <= 0)) ++k; if (k < O.tc.p[t]) ok = false; tot += k; }
			if (ok && tot >= O.o.size_constraint) return true;
		} else {
			size_t k = 0; for (size_t j = 0; j < D.n; ++j) if (!rad || cmpd(D, D.dist(i, j), R) <= 0) ++k;
			if (k >= O.o.size_constraint) return true;
		}
	}
	return false;
}

static void sc_case(Rng& r, int types, bool batches, size_t n) {
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, types, batches);
	Clu C; C.empty(n, r.p(0.3));
	Snap sn(D, &O);
	scc_ErrorCode e = scc_sc_clustering(D.ds, &O.o, C.c);
	sn.check("scc_sc_clustering");
	if (e == SCC_ER_OK) {
		check_sizes(C, n, O.o.size_constraint, "scc_sc_clustering");
		check_types(C, O, n);
		if (C.is_ext) CHECK(C.c->cluster_label == C.ext.p && C.c->external_labels, "external label buffer not used");
	} else {
		g_nontrivial = false;
		CHECK(e == SCC_ER_NO_SOLUTION, "scc_sc_clustering failed with %s on valid input", ecs(e));
	}
}

// =============================================================== C01
static void c01(Rng& r, unsigned long) { sc_case(r, r.p(0.25) ? T_YES : T_NO, true, r.p(0.004) ? (size_t) r.in(300, 900) : gen_n(r, 2, 12)); }
static Reg r01("C01", c01);

// =============================================================== C02
static void c02_core(Rng& r) {   // leftover points ignored: every cluster is a seed, its nearest points of every constrained type, then its nearest other points
	size_t n = gen_n(r, 2, 13);
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, T_YES, false, true);
	Clu C; C.empty(n, r.p(0.2));
	scc_ErrorCode e = scc_sc_clustering(D.ds, &O.o, C.c);
	if (e != SCC_ER_OK) { g_nontrivial = false; return; }
	bool rad = O.o.seed_radius == SCC_RM_USE_SUPPLIED; double R = O.o.seed_supplied_radius; uint32_t nt = O.o.num_types;
	vector<CL> lab = C.labels();
	for (size_t c = 0; c < C.c->num_clusters; ++c) {
		vector<size_t> m; for (size_t i = 0; i < n; ++i) if (lab[i] == (CL) c) m.push_back(i);
		CHECK(m.size() >= O.o.size_constraint, "cluster %zu has %zu points, constraint %u; labels %s", c, m.size(), O.o.size_constraint, ivec(lab).c_str());
		bool found = false;
		for (size_t s : m) {
			if (!O.primary(s)) continue;
			bool ok = true; double rest = -1; vector<double> far(nt, -1);
			for (uint32_t t = 0; ok && t < nt; ++t) {   // the nearest members of the type serve its constraint, the others fill up
				vector<std::pair<double, bool>> d; for (size_t j : m) if (O.tl.p[j] == (scc_TypeLabel) t) d.push_back({ D.dist(s, j), j != s });
				std::sort(d.begin(), d.end());
				if (d.size() < O.tc.p[t]) { ok = false; break; }
				for (size_t k = 0; k < d.size(); ++k) { if (rad && cmpd(D, d[k].first, R) > 0) ok = false; (k < O.tc.p[t] ? far[t] : rest) = std::max(k < O.tc.p[t] ? far[t] : rest, d[k].first); }
			}
			for (size_t j = 0; ok && j < n; ++j) if (lab[j] != (CL) c) { double x = D.dist(s, j); if ((far[(size_t) O.tl.p[j]] >= 0 && cmpd(D, x, far[(size_t) O.tl.p[j]]) < 0) || (rest >= 0 && cmpd(D, x, rest) < 0)) ok = false; }
			if (ok) { found = true; break; }
		}
		CHECK(found, "cluster %zu is not a %spoint with its nearest points of every type and its nearest other points%s; labels %s", c, O.has_prim ? "primary " : "", rad ? " within the radius" : "", ivec(lab).c_str());
	}
}
static void c02(Rng& r, unsigned long) { if (r.p(0.4)) return c02_core(r); sc_case(r, T_YES, false, gen_n(r, 2, 13)); }
static Reg r02("C02", c02);

// =============================================================== C03
static void c03_deep(Rng& r) {   // far-apart points in descending order: every split peels off a few, the stack gets deep
	size_t n = (size_t) r.in(120, 700); uint32_t sc = (uint32_t) r.in(2, r.p(0.7) ? 2 : 4); bool batch = r.p(0.3), up = r.p(0.3);
	double f = 1.3 + r.unit() * 0.9, p = 1; Data D; D.n = n; D.d = 1; D.exact = false; D.x = Buf<double>(n);
	f = std::min(f, std::pow(1e140, 1.0 / (double) n));
	for (size_t i = 0; i < n; ++i) { D.x[up ? i : n - 1 - i] = p; p *= f; }
	CHECK(scc_init_data_set(n, 1, n, D.x.p, &D.ds) == SCC_ER_OK, "init");
	desc("deep: n=%zu, point i at %.17g^%s, size=%u batch_assign=%d", n, f, up ? "i" : "(n-1-i)", sc, batch);
	Clu C; C.empty(n, false); scc_ErrorCode e = scc_hierarchical_clustering(D.ds, sc, batch, C.c);
	CHECK(e == SCC_ER_OK, "scc_hierarchical_clustering failed with %s on valid input", ecs(e));
	check_sizes(C, n, sc, "scc_hierarchical_clustering");
	vector<size_t> k(C.c->num_clusters, 0); for (CL l : C.labels()) { CHECK(l != SCC_CLABEL_NA, "unassigned point"); ++k[l]; }
	for (size_t c : k) CHECK(c < 2 * (size_t) sc, "cluster with %zu points, not less than twice %u", c, sc);
}
static void c03(Rng& r, unsigned long) {
	if (r.p(0.004)) return c03_deep(r);
	size_t n = r.p(0.01) ? (size_t) r.in(120, 450) : gen_n(r, 2, 16, 0.06, 80);
	Data D; gen_data(r, D, n);
	uint32_t sc = (uint32_t) r.in(2, std::max<long>(2, std::min<long>((long) n, r.p(0.8) ? 4 : (long) n)));
	bool batch = r.p(0.5), existing = r.p(0.6);
	Clu C; vector<CL> in; size_t nc = 0;
	if (existing) {
		nc = (size_t) r.in(1, std::max<long>(1, std::min<long>((long) n, 5))) + (r.p(0.2) ? 2 : 0);
		in.resize(n); for (auto& l : in) l = r.p(0.15) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
		if (r.p(0.3)) for (auto& l : in) if (r.p(0.7)) l = 0;
		C.ext = Buf<CL>(in); C.is_ext = r.p(0.5);
		scc_ErrorCode e = scc_init_existing_clustering(n, nc, C.ext.p, !C.is_ext, &C.c);
		CHECK(e == SCC_ER_OK, "scc_init_existing_clustering failed: %s", ecs(e));
	} else C.empty(n, r.p(0.3));
	desc("size=%u batch_assign=%d input=%s clusters=%zu", sc, batch, existing ? ivec(in).c_str() : "empty", nc);
	Snap sn(D, nullptr);
	scc_ErrorCode e = scc_hierarchical_clustering(D.ds, sc, batch, C.c);
	sn.check("scc_hierarchical_clustering");
	CHECK(e == SCC_ER_OK, "scc_hierarchical_clustering failed with %s on valid input", ecs(e));
	vector<CL> out = C.labels(); size_t oc = C.c->num_clusters;
	CHECK(out.size() == n, "no labels");
	vector<vector<size_t>> mem(oc);
	for (size_t i = 0; i < n; ++i) {
		if (out[i] == SCC_CLABEL_NA) { CHECK(existing && in[i] == SCC_CLABEL_NA, "point %zu is unassigned; labels %s", i, ivec(out).c_str()); continue; }
		CHECK((size_t) out[i] < oc, "label %lu out of range (%zu clusters); labels %s", (unsigned long) out[i], oc, ivec(out).c_str());
		CHECK(!existing || in[i] != SCC_CLABEL_NA, "unassigned point %zu became assigned; labels %s", i, ivec(out).c_str());
		mem[out[i]].push_back(i);
	}
	vector<size_t> insz(nc, 0); for (auto l : in) if (l != SCC_CLABEL_NA) ++insz[l];
	for (size_t c = 0; c < oc; ++c) {
		size_t s = mem[c].size();
		CHECK(s > 0, "cluster %zu is empty; labels %s", c, ivec(out).c_str());
		CHECK(s < 2 * (size_t) sc, "cluster %zu has %zu points, not less than twice %u; labels %s", c, s, sc, ivec(out).c_str());
		if (!existing) CHECK(s >= sc, "cluster %zu has %zu points, constraint %u; labels %s", c, s, sc, ivec(out).c_str());
		else {
			CL o = in[mem[c][0]];
			for (size_t i : mem[c]) CHECK(in[i] == o, "cluster %zu joins points of input clusters; labels %s", c, ivec(out).c_str());
			if (insz[o] >= sc) CHECK(s >= sc, "input cluster %lu of size %zu was split into one of size %zu; labels %s", (unsigned long) o, insz[o], s, ivec(out).c_str());
			else CHECK(s == insz[o], "input cluster %lu smaller than the constraint was split; labels %s", (unsigned long) o, ivec(out).c_str());
		}
	}
}
static Reg r03("C03", c03);

// =============================================================== C04
// more clusters than 2^16: labels, counters and indices must not be narrowed anywhere
static void big_labels(Rng& r, int what) {
	size_t n = (size_t) r.in(66000, 140000), nc = n / 2; Data D; D.n = n; D.d = 1; D.x = Buf<double>(n);
	for (size_t i = 0; i < n; ++i) D.x[i] = (double) (i % 7);
	CHECK(scc_init_data_set(n, 1, n, D.x.p, &D.ds) == SCC_ER_OK, "init");
	vector<CL> lab(n); for (size_t i = 0; i < n; ++i) lab[i] = (CL) (i < 2 * nc ? i % nc : 0);
	size_t mv = (size_t) r.in(0, (long) n - 1); long mode = r.in(0, 3);
	if (mode == 1) lab[mv] = SCC_CLABEL_NA; else if (mode == 2) lab[mv] = (CL) ((lab[mv] + 1) % nc); else if (mode == 3) lab[mv] = (CL) nc;
	if (what == 14 && mode == 3) lab[mv] = 0;
	desc("n=%zu, label of point i is i mod %zu (the last one 0 if odd), except point %zu: %lu", n, nc, mv, (unsigned long) lab[mv]);
	Buf<CL> b(lab); scc_Clustering* c = nullptr; CHECK(scc_init_existing_clustering(n, nc, b.p, r.p(0.5), &c) == SCC_ER_OK, "init");
	vector<size_t> cnt(nc, 0); bool want = true; size_t assigned = 0; for (CL l : lab) { if (l == SCC_CLABEL_NA) continue; if ((size_t) l >= nc) { want = false; continue; } ++cnt[l]; ++assigned; }
	size_t pop = 0, mn = n, mx = 0; for (size_t k : cnt) { if (k) { ++pop; mn = std::min(mn, k); mx = std::max(mx, k); } if (k < 2) want = false; }
	if (what == 4) {
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; bool ok = !want;
		CHECK(scc_check_clustering(c, &o, &ok) == SCC_ER_OK && ok == want, "scc_check_clustering says %d, should be %d", ok, want);
	} else {
		scc_ClusteringStats s; CHECK(scc_get_clustering_stats(D.ds, c, &s) == SCC_ER_OK, "stats failed");
		CHECK(s.num_data_points == n && s.num_assigned == assigned && s.num_clusters == nc && s.num_populated_clusters == pop && s.min_cluster_size == mn && s.max_cluster_size == mx, "stats: %llu points, %llu assigned, %llu clusters, %llu populated, sizes %llu-%llu; should be %zu, %zu, %zu, %zu, %zu-%zu", (unsigned long long) s.num_data_points, (unsigned long long) s.num_assigned, (unsigned long long) s.num_clusters, (unsigned long long) s.num_populated_clusters, (unsigned long long) s.min_cluster_size, (unsigned long long) s.max_cluster_size, n, assigned, nc, pop, mn, mx);
	}
	scc_free_clustering(&c);
}
static void c04(Rng& r, unsigned long) {
	if (r.p(0.0006)) return big_labels(r, 4);
	size_t n = gen_n(r, 2, 12);
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, T_MAYBE, true);
	if (r.p(0.5)) { // mostly satisfiable constraints
		O.o.size_constraint = 2;
		if (O.tc.n) for (size_t t = 0; t < O.tc.n; ++t) O.tc[t] = (uint32_t) r.in(0, 1);
		desc(" size:=2 tc:=%s", ivec(O.tc.p, O.tc.n).c_str());
	}
	size_t nc = (size_t) r.in(1, std::max<long>(1, r.p(0.8) ? (long) n / (long) O.o.size_constraint : (long) n));
	vector<CL> lab(n);
	int st = (int) r.in(0, 4);
	for (size_t i = 0; i < n; ++i) lab[i] = (CL) (st < 3 ? (long) (i % nc) : r.in(0, (long) nc - 1));
	if (r.p(0.5)) for (size_t i = n; i > 1; --i) std::swap(lab[i - 1], lab[(size_t) r.in(0, (long) i - 1)]);
	if (r.p(0.4)) lab[(size_t) r.in(0, (long) n - 1)] = SCC_CLABEL_NA;
	if (r.p(0.2)) lab[(size_t) r.in(0, (long) n - 1)] = (CL) (nc + (size_t) r.in(0, 1) * 5);
	if (r.p(0.05)) lab[(size_t) r.in(0, (long) n - 1)] = (CL) (SCC_CLABEL_MAX - 1);
	Clu C; C.ext = Buf<CL>(lab); C.is_ext = true;
	scc_ErrorCode e = scc_init_existing_clustering(n, nc, C.ext.p, false, &C.c);
	CHECK(e == SCC_ER_OK, "init failed");
	desc("labels=%s clusters=%zu", ivec(lab).c_str(), nc);
	bool want = true; vector<size_t> cnt(nc, 0);
	for (auto l : lab) { if (l == SCC_CLABEL_NA) continue; if ((size_t) l >= nc) { want = false; continue; } ++cnt[l]; }
	if (O.has_prim) for (size_t k = 0; k < O.prim.n; ++k) if (lab[O.prim.p[k]] == SCC_CLABEL_NA) want = false;
	for (auto c : cnt) if (c < O.o.size_constraint) want = false;
	if (O.o.num_types >= 2) for (size_t c = 0; c < nc; ++c) for (uint32_t t = 0; t < O.o.num_types; ++t) { size_t k = 0; for (size_t i = 0; i < n; ++i) if (lab[i] == (CL) c && O.tl.p[i] == t) ++k; if (k < O.tc.p[t]) want = false; }
	Snap sn(D, &O); scc_Clustering before = *C.c;
	bool ok = !want;
	e = scc_check_clustering(C.c, &O.o, &ok);
	if (O.o.size_constraint > n) { CHECK(e == SCC_ER_NO_SOLUTION, "scc_check_clustering with fewer points than the size constraint gives %s", ecs(e)); g_nontrivial = false; return; }
	sn.check("scc_check_clustering");
	CHECK(e == SCC_ER_OK, "scc_check_clustering failed with %s", ecs(e));
	CHECK(ok == want, "scc_check_clustering says %d, should be %d", ok, want);
	CHECK(C.labels() == lab && before.num_clusters == C.c->num_clusters && before.cluster_label == C.c->cluster_label, "scc_check_clustering modified the clustering");
}
static Reg r04("C04", c04);

// =============================================================== C05
static vector<PI> subset(Rng& r, size_t n, size_t k, bool sorted) {
	vector<PI> v(n); for (size_t i = 0; i < n; ++i) v[i] = (PI) i;
	for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[(size_t) r.in(0, (long) i - 1)]);
	v.resize(k); if (sorted) std::sort(v.begin(), v.end());
	return v;
}
static void c05(Rng& r, unsigned long) {
	size_t n = gen_n(r, 1, 12);
	Data D; gen_data(r, D, n);
	bool s_null = r.p(0.4), q_null = r.p(0.3);
	size_t ns = s_null ? (r.p(0.8) ? n : (size_t) r.in(1, (long) n)) : (size_t) r.in(1, (long) n);
	vector<PI> sv = subset(r, n, ns, r.p(0.5)); if (s_null) for (size_t i = 0; i < ns; ++i) sv[i] = (PI) i;
	size_t nq = (size_t) r.in(1, (long) n);
	vector<PI> qv; if (q_null) { for (size_t i = 0; i < nq; ++i) qv.push_back((PI) i); } else { qv = subset(r, n, nq, r.p(0.6)); }
	uint32_t k = (uint32_t) r.in(1, (long) std::min<size_t>(ns, r.p(0.7) ? 4 : ns));
	bool rad = r.p(0.6); double R = rad ? gen_radius(r, D) : (r.p(0.5) ? 0.0 : -1.0);
	desc("search=%s%s query=%s%s k=%u radius=%s%g", s_null ? "NULL" : "", ivec(sv).c_str(), q_null ? "NULL" : "", ivec(qv).c_str(), k, rad ? "" : "off ", R);
	Buf<PI> sb(sv), qb(qv); bool alias = !q_null && r.p(0.3);
	Buf<PI> oq(nq), on(nq * k); for (size_t i = 0; i < nq * k; ++i) on[i] = 777777;
	bool no_oq = !rad && !alias && r.p(0.4);
	iscc_NNSearchObject* so = nullptr;
	Snap sn(D, nullptr);
	CHECK(iscc_imp_init_nn_search_object(D.ds, ns, s_null ? nullptr : sb.p, &so) && so, "init of the search object failed");
	size_t ok = 99;
	CHECK(iscc_imp_nearest_neighbor_search(so, nq, q_null ? nullptr : qb.p, k, rad, R, &ok, no_oq ? nullptr : (alias ? qb.p : oq.p), on.p), "search failed");
	CHECK(iscc_imp_close_nn_search_object(&so) && so == nullptr, "close failed");
	sn.check("nearest neighbour search");
	CHECK(sb.vec() == sv, "search indices changed");
	if (!alias) CHECK(qb.vec() == qv, "query indices changed");
	const PI* oqp = alias ? qb.p : oq.p;
	size_t w = 0;
	for (size_t q = 0; q < nq; ++q) {
		size_t inr = 0, maybe = 0; for (PI s : sv) { int c = rad ? cmpd(D, D.dist(qv[q], s), R) : -1; if (c <= 0) ++inr; if (c == 0 && !D.exact) ++maybe; }
		bool must = inr - maybe >= k, may = inr >= k;
		if (!must && may) { must = may = (!no_oq && w < ok && oqp[w] == qv[q]); }
		if (!may) continue;
		CHECK(w < ok, "query %lu has %zu points in range but only %zu queries were reported", (unsigned long) qv[q], inr, ok);
		if (!no_oq) CHECK(oqp[w] == qv[q], "reported query %zu is %lu, should be %lu", w, (unsigned long) oqp[w], (unsigned long) qv[q]);
		const PI* row = on.p + w * k; set<PI> seen;
		for (uint32_t j = 0; j < k; ++j) {
			CHECK(std::find(sv.begin(), sv.end(), row[j]) != sv.end(), "query %lu: neighbour %lu is not a search point", (unsigned long) qv[q], (unsigned long) row[j]);
			CHECK(seen.insert(row[j]).second, "query %lu: neighbour %lu appears twice", (unsigned long) qv[q], (unsigned long) row[j]);
			if (j) CHECK(cmpd(D, D.dist(qv[q], row[j - 1]), D.dist(qv[q], row[j])) <= 0, "query %lu: neighbours %s not ordered by distance", (unsigned long) qv[q], ivec(row, k).c_str());
			if (rad) CHECK(cmpd(D, D.dist(qv[q], row[j]), R) <= 0, "query %lu: neighbour %lu beyond the radius", (unsigned long) qv[q], (unsigned long) row[j]);
		}
		for (PI s : sv) if (!seen.count(s)) CHECK(cmpd(D, D.dist(qv[q], s), D.dist(qv[q], row[k - 1])) >= 0, "query %lu: point %lu left out is closer than returned %lu", (unsigned long) qv[q], (unsigned long) s, (unsigned long) row[k - 1]);
		++w;
	}
	CHECK(w == ok, "%zu queries reported, should be %zu", ok, w);
}
static Reg r05("C05", c05);

// =============================================================== C06
static void c06(Rng& r, unsigned long idx) {
	size_t n; DG g;
	if (idx % 400 == 399) { n = (size_t) r.in(1200, 2600); g.n = n; g.adj.resize(n); for (size_t v = 0; v + 1 < n; v += 2) { g.adj[v].push_back((PI) (v + 1)); if (r.p(0.3)) g.adj[v + 1].push_back((PI) v); } desc("pairs n=%zu ", n); }
	else {
		n = gen_n(r, 2, 12, 0.08, 90);
		g = gen_dg(r, n, true, true);
		desc("nng=%s ", dgstr(g).c_str());
	}
	static const scc_SeedMethod sm[5] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	for (int m = 0; m < 5; ++m) {
		iscc_Digraph d; to_lib(g, d, (size_t) r.in(0, 2));
		iscc_SeedResult sr = { (size_t) (r.p(0.5) ? 1 + n / 2 : (size_t) r.in(1, 4)), 0, nullptr };
		size_t live = live_blocks();
		scc_ErrorCode e = iscc_find_seeds(&d, sm[m], &sr);
		CHECK(e == SCC_ER_OK, "find_seeds method %d failed with %s", (int) sm[m], ecs(e));
		CHECK(from_lib(d, "nng", false) == g, "find_seeds method %d changed the graph", (int) sm[m]);
		CHECK(live_blocks() == live + 1, "find_seeds method %d: %zu extra blocks", (int) sm[m], live_blocks() - live);
		CHECK(sr.count >= 1 && sr.seeds && sr.count <= sr.capacity, "method %d: count %zu capacity %zu", (int) sm[m], sr.count, sr.capacity);
		auto it = A.live.find(sr.seeds); CHECK(it != A.live.end() && it->second >= sr.count * sizeof(PI), "method %d: seeds storage too small", (int) sm[m]);
		vector<PI> seeds(sr.seeds, sr.seeds + sr.count);
		vector<long> owner(n, -1); set<PI> ss;
		for (PI s : seeds) {
			CHECK(s < n && ss.insert(s).second, "method %d: seed %lu out of range or repeated: %s", (int) sm[m], (unsigned long) s, ivec(seeds).c_str());
			CHECK(!g.adj[s].empty(), "method %d: seed %lu has no arcs", (int) sm[m], (unsigned long) s);
			auto take = [&](PI v) { CHECK(owner[v] == -1, "method %d: vertex %lu in the neighbourhoods of seeds %ld and %lu; seeds %s", (int) sm[m], (unsigned long) v, owner[v], (unsigned long) s, ivec(seeds).c_str()); owner[v] = (long) s; };
			take(s); for (PI h : g.adj[s]) take(h);
		}
		for (size_t v = 0; v < n; ++v) if (!g.adj[v].empty() && !ss.count((PI) v)) {
			bool hit = owner[v] != -1; for (PI h : g.adj[v]) hit = hit || owner[h] != -1;
			CHECK(hit, "method %d: vertex %zu could be added as a seed; seeds %s", (int) sm[m], v, ivec(seeds).c_str());
		}
		vp_free(sr.seeds); free_dg(d);
	}
}
static Reg r06("C06", c06);

// =============================================================== C07
static void c07_core(Rng& r, bool faults) {
	size_t n = gen_n(r, 1, 9, 0.05, 40);
	int op = (int) r.in(0, 4);
	bool simple = r.p(0.4);
	auto dump = [&](const char* nm, const DG& g) { desc("%s=%s ", nm, dgstr(g).c_str()); };
	if (faults) { A.fail_at = 0; }
	if (op == 0) {
		DG g = gen_dg(r, n, simple, false); if (r.p(0.5)) for (size_t v = 0; v < n; ++v) if (r.p(0.6)) g.adj[v].insert(g.adj[v].begin() + r.in(0, (long) g.adj[v].size()), (PI) v);
		desc("delete_loops "); dump("g", g);
		iscc_Digraph d; to_lib(g, d, (size_t) r.in(0, 2)); A.reset(); if (faults) A.fail_at = 1;
		bool was_empty = g.arcs() == 0;
		scc_ErrorCode e = iscc_delete_loops(&d); size_t f = A.failed; A.reset();
		if (e == SCC_ER_OK) { for (auto& v : g.adj) { size_t me = (size_t) (&v - &g.adj[0]); v.erase(std::remove(v.begin(), v.end(), (PI) me), v.end()); } CHECK(from_lib(d, "delete_loops", !was_empty) == g, "wrong arcs after delete_loops: %s", dgstr(from_lib(d, "d", false)).c_str()); }
		else CHECK(f && e == SCC_ER_NO_MEMORY, "delete_loops returned %s", ecs(e));
		free_dg(d);
	} else if (op == 1) {
		size_t k = (size_t) r.in(1, 3); vector<DG> gs; vector<iscc_Digraph> ds(k); size_t sum = 0;
		desc("union ");
		for (size_t i = 0; i < k; ++i) { gs.push_back(gen_dg(r, n, simple, false)); dump("g", gs[i]); to_lib(gs[i], ds[i], (size_t) r.in(0, 1)); sum += gs[i].arcs(); }
		bool all = r.p(0.5), loops = r.p(0.5); vector<PI> keep = subset(r, n, (size_t) r.in(r.p(0.9) ? 1 : 0, (long) n), true);
		if (all) keep.clear();
		desc("keep=%s loops=%d", all ? "NULL" : ivec(keep).c_str(), loops);
		Buf<PI> kb(keep); Buf<iscc_Digraph> db(ds);
		iscc_Digraph out = ISCC_NULL_DIGRAPH; A.reset(); size_t live = live_blocks();
		if (faults) { if (r.p(0.5)) A.fail_at = (size_t) r.in(1, 4); else { A.fail_over = sum * sizeof(PI) ? sum * sizeof(PI) - 1 : 0; A.fail_over_n = 1; } }
		scc_ErrorCode e = iscc_digraph_union_and_delete((uint_fast16_t) k, db.p, keep.size(), all ? nullptr : kb.p, loops, &out); size_t f = A.failed; A.reset();
		for (size_t i = 0; i < k; ++i) CHECK(from_lib(ds[i], "input", false) == gs[i], "union changed input %zu", i);
		CHECK(kb.vec() == keep, "union changed tails_to_keep");
		if (e == SCC_ER_OK) {
			DG o = from_lib(out, "union", true); CHECK(o.n == n, "vertices %zu", o.n);
			for (size_t v = 0; v < n; ++v) {
				set<PI> want; if (all || std::find(keep.begin(), keep.end(), (PI) v) != keep.end()) for (auto& g : gs) for (PI h : g.adj[v]) if (loops || h != v) want.insert(h);
				set<PI> got(o.adj[v].begin(), o.adj[v].end());
				CHECK(got == want && got.size() == o.adj[v].size(), "union row %zu is %s", v, ivec(o.adj[v]).c_str());
			}
			free_dg(out);
		} else { CHECK(f && e == SCC_ER_NO_MEMORY, "union returned %s", ecs(e)); CHECK(live_blocks() == live, "union leaks on error"); }
		for (auto& d : ds) free_dg(d);
	} else if (op == 2) {
		DG a = gen_dg(r, n, simple, false), b = gen_dg(r, n, simple, false); uint32_t lim = (uint32_t) r.in(1, 4);
		desc("difference "); dump("a", a); dump("b", b); desc("max=%u", lim);
		iscc_Digraph x, y; to_lib(a, x, (size_t) r.in(0, 2)); to_lib(b, y, (size_t) r.in(0, 2)); A.reset(); if (faults) A.fail_at = (size_t) r.in(1, 2);
		bool was_empty = a.arcs() == 0; size_t live = live_blocks();
		scc_ErrorCode e = iscc_digraph_difference(&x, &y, lim); size_t f = A.failed; A.reset();
		CHECK(from_lib(y, "subtrahend", false) == b, "difference changed the subtrahend");
		if (e == SCC_ER_OK) {
			for (size_t v = 0; v < n; ++v) { vector<PI> w; for (PI h : a.adj[v]) if (w.size() < lim && std::find(b.adj[v].begin(), b.adj[v].end(), h) == b.adj[v].end()) w.push_back(h); a.adj[v] = w; }
			DG o = from_lib(x, "difference", !was_empty); CHECK(o == a, "wrong difference %s", dgstr(o).c_str());
		} else { CHECK(f && e == SCC_ER_NO_MEMORY, "difference returned %s", ecs(e)); CHECK(live_blocks() == live, "difference leaks on error"); }
		free_dg(x); free_dg(y);
	} else if (op == 3) {
		DG a = gen_dg(r, n, simple, false); desc("transpose "); dump("a", a);
		iscc_Digraph x, o = ISCC_NULL_DIGRAPH; to_lib(a, x, (size_t) r.in(0, 2)); A.reset(); if (faults) A.fail_at = (size_t) r.in(1, 2);
		size_t live = live_blocks();
		scc_ErrorCode e = iscc_digraph_transpose(&x, &o); size_t f = A.failed; A.reset();
		CHECK(from_lib(x, "input", false) == a, "transpose changed its input");
		if (e == SCC_ER_OK) {
			DG w; w.n = n; w.adj.resize(n); for (size_t v = 0; v < n; ++v) for (PI h : a.adj[v]) w.adj[h].push_back((PI) v);
			DG g = from_lib(o, "transpose", true); for (auto& v : g.adj) std::sort(v.begin(), v.end());
			CHECK(g == w, "wrong transpose %s", dgstr(g).c_str()); free_dg(o);
		} else { CHECK(f && e == SCC_ER_NO_MEMORY, "transpose returned %s", ecs(e)); CHECK(live_blocks() == live, "transpose leaks on error"); }
		free_dg(x);
	} else {
		DG a = gen_dg(r, n, simple, true), b = gen_dg(r, n, simple, true); bool force = r.p(0.5);
		desc("product "); dump("a", a); dump("b", b); desc("force_loops=%d", force);
		iscc_Digraph x, y, o = ISCC_NULL_DIGRAPH; to_lib(a, x, (size_t) r.in(0, 2)); to_lib(b, y, (size_t) r.in(0, 2)); A.reset();
		size_t sum = 0; for (auto& row : a.adj) for (PI h : row) sum += b.adj[h].size(); if (force) sum += b.arcs();
		if (faults) { if (r.p(0.5)) A.fail_at = (size_t) r.in(1, 4); else { A.fail_over = sum * sizeof(PI) ? sum * sizeof(PI) - 1 : 0; A.fail_over_n = 1; } }
		size_t live = live_blocks();
		scc_ErrorCode e = iscc_adjacency_product(&x, &y, force, &o); size_t f = A.failed; A.reset();
		CHECK(from_lib(x, "a", false) == a && from_lib(y, "b", false) == b, "product changed its inputs");
		if (e == SCC_ER_OK) {
			DG g = from_lib(o, "product", true);
			for (size_t v = 0; v < n; ++v) {
				set<PI> want; for (PI m : a.adj[v]) for (PI h : b.adj[m]) want.insert(h); if (force) for (PI h : b.adj[v]) want.insert(h); want.erase((PI) v);
				set<PI> got(g.adj[v].begin(), g.adj[v].end()); CHECK(got == want && got.size() == g.adj[v].size(), "product row %zu is %s", v, ivec(g.adj[v]).c_str());
			}
			free_dg(o);
		} else { CHECK(f && e == SCC_ER_NO_MEMORY, "product returned %s", ecs(e)); CHECK(live_blocks() == live, "product leaks on error"); }
		free_dg(x); free_dg(y);
	}
}
static void c07(Rng& r, unsigned long) { c07_core(r, r.p(0.3)); }
static Reg r07("C07", c07);

// =============================================================== C08
static void c08(Rng& r, unsigned long) {
	size_t n = gen_n(r, 2, 12);
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, T_NO, false, true);
	Clu C; C.empty(n, r.p(0.2));
	scc_ErrorCode e = scc_sc_clustering(D.ds, &O.o, C.c);
	bool want = solvable(D, O);
	bool rad = O.o.seed_radius == SCC_RM_USE_SUPPLIED; double R = O.o.seed_supplied_radius;
	if (!D.exact && rad && (e == SCC_ER_OK) != want) { g_nontrivial = false; return; }
	CHECK((e == SCC_ER_OK) == want, "returned %s but the problem %s a solution", ecs(e), want ? "has" : "does not have");
	if (e != SCC_ER_OK) { CHECK(e == SCC_ER_NO_SOLUTION, "returned %s", ecs(e)); return; }
	check_sizes(C, n, O.o.size_constraint, "scc_sc_clustering");
	vector<CL> lab = C.labels();
	for (size_t c = 0; c < C.c->num_clusters; ++c) {
		vector<size_t> m; for (size_t i = 0; i < n; ++i) if (lab[i] == (CL) c) m.push_back(i);
		CHECK(m.size() == O.o.size_constraint, "cluster %zu has %zu points, should be exactly %u; labels %s", c, m.size(), O.o.size_constraint, ivec(lab).c_str());
		bool found = false;
		for (size_t s : m) {
			if (!O.primary(s)) continue;
			double far = 0; bool ok = true;
			for (size_t j : m) { double d = D.dist(s, j); far = std::max(far, d); if (rad && cmpd(D, d, R) > 0) ok = false; }
			for (size_t j = 0; ok && j < n; ++j) if (lab[j] != (CL) c && cmpd(D, D.dist(s, j), far) < 0) ok = false;
			if (ok) { found = true; break; }
		}
		CHECK(found, "cluster %zu is not a %spoint with its nearest neighbours%s; labels %s", c, O.has_prim ? "primary " : "", rad ? " within the radius" : "", ivec(lab).c_str());
	}
}
static Reg r08("C08", c08);

// =============================================================== C09
static void c09(Rng& r, unsigned long idx) {
	size_t n = idx % 3000 == 2999 ? (size_t) r.in(2100, 2600) : gen_n(r, 2, 13);
	bool big = n > 1000;
	Data D; gen_data(r, D, n);
	if (big) { for (size_t i = 0; i < n; ++i) for (unsigned k = 0; k < D.d; ++k) D.x[i * D.d + k] = k == 0 ? (double) (i / 2 * 10 + (i % 2) * (1 + (i / 2) % 3)) : 0.0; desc("(pairs on a line) "); }
	Opt O; gen_opt(r, D, O, T_MAYBE, false);
	if (big) { O.o.size_constraint = 2; O.o.num_types = 0; O.o.type_constraints = nullptr; O.o.type_labels = nullptr; O.o.len_type_labels = 0; O.o.seed_radius = SCC_RM_NO_RADIUS; O.o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; O.o.primary_radius = SCC_RM_USE_ESTIMATED; }
	bool fails = r.p(0.15) && !big;
	scc_ClusterOptions& o = O.o;
	bool srad = o.seed_radius == SCC_RM_USE_SUPPLIED;
	if (fails) {
		Clu C; C.empty(n, false);
		spy_install(D.ds); S.fail_at = (unsigned long) r.in(1, 8);
		desc("distance function call %lu fails", S.fail_at);
		scc_ErrorCode e = scc_sc_clustering(D.ds, &o, C.c);
		bool f = S.failed; scc_reset_dist_functions();
		if (f) CHECK(e == SCC_ER_DIST_SEARCH_ERROR, "a distance function failed but scc_sc_clustering returned %s", ecs(e));
		else g_nontrivial = false;
		return;
	}
	if (o.size_constraint > n) { g_nontrivial = false; return; }
	iscc_Digraph nng; scc_ErrorCode e;
	if (o.num_types < 2) e = iscc_get_nng_with_size_constraint(D.ds, n, o.size_constraint, o.len_primary_data_points, o.primary_data_points, srad, o.seed_supplied_radius, &nng);
	else e = iscc_get_nng_with_type_constraint(D.ds, n, o.size_constraint, (uint_fast16_t) o.num_types, o.type_constraints, o.type_labels, o.len_primary_data_points, o.primary_data_points, srad, o.seed_supplied_radius, &nng);
	Clu C; C.empty(n, r.p(0.2));
	scc_ErrorCode e2 = scc_sc_clustering(D.ds, &o, C.c);
	if (e != SCC_ER_OK) { g_nontrivial = false; CHECK(e2 == e, "graph construction gives %s, clustering %s", ecs(e), ecs(e2)); return; }
	DG g = from_lib(nng, "nng", false);
	iscc_SeedResult sr = { 1 + n / o.size_constraint, 0, nullptr };
	e = iscc_find_seeds(&nng, o.seed_method, &sr);
	CHECK(e == SCC_ER_OK, "find_seeds failed");
	vector<PI> seeds(sr.seeds, sr.seeds + sr.count);
	vp_free(sr.seeds); free_dg(nng);
	// radii
	bool use1 = o.primary_unassigned_method != SCC_UM_IGNORE, use2 = o.secondary_unassigned_method != SCC_UM_IGNORE;
	auto radius = [&](scc_RadiusMethod m, double sup, bool use, bool& on, bool& est) -> double {
		on = false; est = false;
		if (!use || m == SCC_RM_NO_RADIUS) return 0;
		if (m == SCC_RM_USE_SUPPLIED) { on = true; return sup; }
		if (m == SCC_RM_USE_SEED_RADIUS) { on = srad; return o.seed_supplied_radius; }
		on = true; est = true;
		size_t step = seeds.size() > 1000 ? seeds.size() / 1000 : 1; double sum = 0; size_t k = 0;
		for (size_t s = 0; s < seeds.size(); s += step) { double t = 0; size_t m2 = 0; for (PI h : g.adj[seeds[s]]) if (h != seeds[s]) { t += D.dist(seeds[s], h); ++m2; } sum += t / (double) m2; ++k; }
		return sum / (double) k;
	};
	bool on1, on2, est1, est2;
	double R1 = radius(o.primary_radius, o.primary_supplied_radius, use1, on1, est1), R2 = radius(o.secondary_radius, o.secondary_supplied_radius, use2, on2, est2);
	if ((est1 && !(R1 > 0)) || (est2 && !(R2 > 0))) { CHECK(e2 == SCC_ER_NO_SOLUTION, "estimated radius is zero but the result is %s", ecs(e2)); return; }
	CHECK(e2 == SCC_ER_OK, "scc_sc_clustering returned %s", ecs(e2));
	check_sizes(C, n, o.size_constraint, "scc_sc_clustering");
	CHECK(C.c->num_clusters == seeds.size(), "%zu clusters from %zu seeds", C.c->num_clusters, seeds.size());
	vector<CL> lab = C.labels();
	vector<bool> core(n, false); vector<char> isseed(n, 0); set<CL> used;
	for (PI s : seeds) {
		isseed[s] = 1; core[s] = true;
		CHECK(lab[s] != SCC_CLABEL_NA && used.insert(lab[s]).second, "seeds share a label or have none; labels %s seeds %s", ivec(lab).c_str(), ivec(seeds).c_str());
		for (PI h : g.adj[s]) { core[h] = true; CHECK(lab[h] == lab[s], "point %lu is a neighbour of seed %lu but has another label; labels %s seeds %s", (unsigned long) h, (unsigned long) s, ivec(lab).c_str(), ivec(seeds).c_str()); }
	}
	// labels allowed by a closest-point rule; may/must distinguish undecidable comparisons of inexact radii
	auto closest = [&](size_t p, bool only_seeds, bool on, double R, bool est, set<CL>& ok, bool& must, bool& may) {
		double best = INFINITY; for (size_t j = 0; j < n; ++j) if (only_seeds ? isseed[j] != 0 : (bool) core[j]) best = std::min(best, D.dist(p, j));
		ok.clear();
		for (size_t j = 0; j < n; ++j) if ((only_seeds ? isseed[j] != 0 : (bool) core[j]) && D.dist(p, j) <= best * (1 + (D.exact ? 0 : 1e-9))) ok.insert(lab[j]);
		if (!on) { must = may = true; return; }
		double tol = (est || !D.exact) ? 1e-9 * (R + best) : 0;
		must = best <= R - tol; may = best <= R + tol;
	};
	for (size_t p = 0; p < n; ++p) {
		if (core[p]) continue;
		set<CL> ok; bool na = false; bool done = false; set<CL> s1; bool must, may;
		if (O.primary(p)) {
			if (o.primary_unassigned_method == SCC_UM_ANY_NEIGHBOR) { for (PI h : g.adj[p]) if (core[h]) ok.insert(lab[h]); done = !ok.empty(); }
			else if (use1) { closest(p, o.primary_unassigned_method == SCC_UM_CLOSEST_SEED, on1, R1, est1, s1, must, may); if (may) ok.insert(s1.begin(), s1.end()); done = must; }
		}
		if (!done) {
			if (use2) { closest(p, o.secondary_unassigned_method == SCC_UM_CLOSEST_SEED, on2, R2, est2, s1, must, may); if (may) ok.insert(s1.begin(), s1.end()); if (!must) na = true; }
			else na = true;
		}
		if (lab[p] == SCC_CLABEL_NA) CHECK(na, "point %zu should have been assigned; labels %s seeds %s", p, ivec(lab).c_str(), ivec(seeds).c_str());
		else CHECK(ok.count(lab[p]), "point %zu %s; labels %s seeds %s", p, ok.empty() ? "should be unassigned" : "has the wrong label", ivec(lab).c_str(), ivec(seeds).c_str());
	}
}
static Reg r09("C09", c09);

// =============================================================== C10
static void setenum(void* p, int v) { memcpy(p, &v, sizeof(int)); }
static void c10(Rng& r, unsigned long) {
	size_t n = gen_n(r, 1, 8, 0, 0);
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, T_MAYBE, true);
	scc_ClusterOptions& o = O.o;
	Buf<uint32_t> x1(vector<uint32_t>{1, 1}); Buf<scc_TypeLabel> x2(vector<scc_TypeLabel>(n, 0)); vector<PI> pr; Buf<PI> x3(vector<PI>{0});
	long nc = r.in(0, 9) < 4 ? 0 : r.in(1, 2);
	for (long t = 0; t < nc; ++t) switch (r.in(0, 22)) {
		case 0: o.options_version = (int32_t) r.in(0, 3) + 722678000 + (r.p(0.5) ? 2 : 0); break;
		case 1: o.size_constraint = (uint32_t) r.in(0, 2); break;
		case 2: o.size_constraint = (uint32_t) ((long) n + r.in(0, 2)); break;
		case 3: o.type_constraints = r.p(0.5) ? nullptr : x1.p; if (o.num_types > 2 && o.type_constraints) o.num_types = 2; break;
		case 4: o.len_type_labels = (size_t) ((long) n - r.in(0, 1)); break;
		case 5: o.type_labels = r.p(0.5) ? nullptr : x2.p; break;
		case 6: o.num_types = (uint32_t) r.in(0, 1); break;
		case 7: o.num_types = (uint32_t) (r.p(0.5) ? 65536 : r.in(65537, 100000)); break;
		case 8: setenum(&o.seed_method, (int) r.in(6, 9)); break;
		case 9: o.len_primary_data_points = 0; break;
		case 10: if (o.primary_data_points) { o.primary_data_points = nullptr; } else { o.len_primary_data_points = 1; } break;
		case 11: { pr = subset(r, n, (size_t) r.in(1, (long) n), false); if (r.p(0.4)) pr.push_back(pr.back()); O.prim = Buf<PI>(pr); O.has_prim = true; o.primary_data_points = O.prim.p; o.len_primary_data_points = pr.size(); break; }
		case 12: setenum(&o.primary_unassigned_method, (int) r.in(4, 7)); break;
		case 13: setenum(&o.secondary_unassigned_method, r.p(0.5) ? 1 : (int) r.in(4, 7)); break;
		case 14: setenum(&o.seed_radius, (int) r.in(2, 5)); break;
		case 15: o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = r.p(0.5) ? 0.0 : -1.0; break;
		case 16: setenum(&o.primary_radius, (int) r.in(4, 6)); break;
		case 17: o.primary_radius = SCC_RM_USE_SUPPLIED; o.primary_supplied_radius = r.p(0.5) ? 0.0 : -0.5; break;
		case 18: setenum(&o.secondary_radius, (int) r.in(4, 6)); break;
		case 19: o.secondary_radius = SCC_RM_USE_SUPPLIED; o.secondary_supplied_radius = r.p(0.5) ? 0.0 : -0.5; break;
		case 20: o.seed_method = SCC_SM_BATCHES; break;
		case 21: o.seed_method = SCC_SM_BATCHES; o.primary_radius = SCC_RM_USE_SEED_RADIUS; o.secondary_unassigned_method = SCC_UM_IGNORE; o.num_types = 0; o.type_constraints = nullptr; o.type_labels = nullptr; o.len_type_labels = 0; break;
		case 22: if (o.num_types >= 2 && o.num_types <= O.tc.n && O.tc.n) O.tc[(size_t) r.in(0, (long) O.tc.n - 1)] = (uint32_t) r.in(0, (long) o.size_constraint + 1); break;
	}
	set<int> bad;
	auto B = [&](bool c, int e) { if (c) bad.insert(e); };
	auto en = [](const void* p) { int v; memcpy(&v, p, sizeof v); return v; };
	B(o.options_version != 722678001, SCC_ER_INVALID_INPUT);
	B(o.size_constraint < 2, SCC_ER_INVALID_INPUT);
	B(n < o.size_constraint, SCC_ER_NO_SOLUTION);
	if (o.num_types < 2) { B(o.type_constraints, SCC_ER_INVALID_INPUT); B(o.len_type_labels != 0, SCC_ER_INVALID_INPUT); B(o.type_labels, SCC_ER_INVALID_INPUT); }
	else { B(o.num_types > 65535, SCC_ER_TOO_LARGE_PROBLEM); B(!o.type_constraints, SCC_ER_INVALID_INPUT); B(o.len_type_labels < n, SCC_ER_INVALID_INPUT); B(!o.type_labels, SCC_ER_INVALID_INPUT); }
	int sm = en(&o.seed_method), pu = en(&o.primary_unassigned_method), su = en(&o.secondary_unassigned_method), s_r = en(&o.seed_radius), p_r = en(&o.primary_radius), q_r = en(&o.secondary_radius);
	B(sm > 5, SCC_ER_INVALID_INPUT);
	B((o.primary_data_points != nullptr) != (o.len_primary_data_points > 0), SCC_ER_INVALID_INPUT);
	if (o.primary_data_points) for (size_t i = 1; i < o.len_primary_data_points; ++i) B(o.primary_data_points[i - 1] >= o.primary_data_points[i], SCC_ER_INVALID_INPUT);
	B(pu > 3, SCC_ER_INVALID_INPUT); B(su == 1 || su > 3, SCC_ER_INVALID_INPUT);
	B(s_r > 1, SCC_ER_INVALID_INPUT); B(s_r == 1 && o.seed_supplied_radius <= 0, SCC_ER_INVALID_INPUT);
	B(p_r > 3, SCC_ER_INVALID_INPUT); B(p_r == 1 && o.primary_supplied_radius <= 0, SCC_ER_INVALID_INPUT);
	B(q_r > 3, SCC_ER_INVALID_INPUT); B(q_r == 1 && o.secondary_supplied_radius <= 0, SCC_ER_INVALID_INPUT);
	if (sm == 1) { B(o.num_types >= 2, SCC_ER_NOT_IMPLEMENTED); B(su != 0, SCC_ER_NOT_IMPLEMENTED); B(p_r != 2, SCC_ER_NOT_IMPLEMENTED); }
	set<int> opt_bad = bad;
	// the clustering/data set arguments
	int mode = (int) r.in(0, 12);
	desc("mode=%d final %s version=%d prim=%d/%zu tc=%d tl=%d/%zu", mode, optstr(O).c_str(), o.options_version, (o.primary_data_points ? 1 : 0), o.len_primary_data_points, o.type_constraints != nullptr, o.type_labels != nullptr, o.len_type_labels);
	auto say = [](const set<int>& s) { string t; for (int e : s) t += string(" ") + ecs((scc_ErrorCode) e); return t; };
	size_t cn = n; if (mode == 1) cn = n + 1;
	Clu C; vector<CL> lab;
	bool ext = r.p(0.5);
	if (mode == 2 || mode >= 9) {
		lab.resize(cn); for (auto& l : lab) l = (CL) r.in(0, 1); C.ext = Buf<CL>(lab); C.is_ext = ext;
		CHECK(scc_init_existing_clustering(cn, 2, C.ext.p, !ext, &C.c) == SCC_ER_OK, "init");
	} else C.empty(cn, ext);
	scc_Clustering before = *C.c; vector<CL> lb = ext || !C.c->cluster_label ? C.ext.vec() : C.labels();
	auto untouched = [&](const char* f) {
		CHECK(C.c->num_clusters == before.num_clusters && C.c->num_data_points == before.num_data_points && C.c->cluster_label == before.cluster_label && C.c->external_labels == before.external_labels && C.c->clustering_version == before.clustering_version, "%s changed the clustering object although it was rejected", f);
		if (ext || C.c->cluster_label) { vector<CL> now = ext ? C.ext.vec() : C.labels(); CHECK(now == lb, "%s changed the labels although the input was rejected", f); }
	};
	if (mode <= 6) {   // scc_sc_clustering
		scc_DataSet broken = *D.ds; void* ds = D.ds; scc_Clustering* cl = C.c; scc_Clustering bc = *C.c;
		if (mode == 1) bad.insert(SCC_ER_INVALID_INPUT);
		if (mode == 2) bad.insert(SCC_ER_NOT_IMPLEMENTED);
		if (mode == 3) { if (r.p(0.3)) ds = nullptr; else { long w = r.in(0, 3); if (w == 0) broken.data_set_version ^= 1; if (w == 1) broken.num_data_points = 0; if (w == 2) broken.num_dimensions = 0; if (w == 3) broken.data_matrix = nullptr; ds = &broken; } bad.insert(SCC_ER_INVALID_INPUT); }
		if (mode == 4) { if (r.p(0.3)) cl = nullptr; else { long w = r.in(0, 2); if (w == 0) bc.clustering_version ^= 1; if (w == 1) bc.num_data_points = 0; if (w == 2) { bc.num_clusters = 1; bc.cluster_label = nullptr; } cl = &bc; } bad.insert(SCC_ER_INVALID_INPUT); }
		bool full = opt_bad.empty() && (mode == 0 || mode > 4);
		set<int> late;
		if (sm == 1 && pu > 1) late.insert(SCC_ER_INVALID_INPUT);
		if (o.num_types >= 2 && o.num_types <= 65535 && o.type_constraints && o.type_labels && opt_bad.empty()) {
			uint64_t sum = 0; vector<size_t> k(o.num_types, 0); for (size_t i = 0; i < n; ++i) { if (o.type_labels[i] >= o.num_types) return; ++k[o.type_labels[i]]; }
			for (uint32_t t = 0; t < o.num_types; ++t) { sum += o.type_constraints[t]; if (k[t] < o.type_constraints[t]) late.insert(SCC_ER_NO_SOLUTION); }
			if (sum > o.size_constraint) late.insert(SCC_ER_INVALID_INPUT);
		}
		scc_ErrorCode e = scc_sc_clustering(ds, &o, cl);
		if (!bad.empty()) { for (int q : late) bad.insert(q); CHECK(bad.count(e), "scc_sc_clustering returned %s, violated rules give%s", ecs(e), say(bad).c_str()); }
		else if (!late.empty()) CHECK(late.count(e), "scc_sc_clustering returned %s, violated rules give%s", ecs(e), say(late).c_str());
		else if (full) CHECK(e == SCC_ER_OK || e == SCC_ER_NO_SOLUTION, "scc_sc_clustering rejected valid input with %s", ecs(e));
		if (!bad.empty() || !late.empty()) untouched("scc_sc_clustering");
	} else if (mode <= 8) { // hierarchical
		uint32_t sc = (uint32_t) r.in(0, (long) n + 1); set<int> b; void* ds = D.ds; scc_Clustering* cl = C.c; Clu C2;
		if (sc < 2) b.insert(SCC_ER_INVALID_INPUT);
		if (n < sc) b.insert(SCC_ER_NO_SOLUTION);
		if (mode == 8) { long w = r.in(0, 2); b.insert(SCC_ER_INVALID_INPUT); if (w == 0) ds = nullptr; if (w == 1) cl = nullptr; if (w == 2) { C2.empty(n + 1, false); cl = C2.c; } }
		desc(" hierarchical size=%u", sc);
		scc_ErrorCode e = scc_hierarchical_clustering(ds, sc, r.p(0.5), cl);
		if (!b.empty()) { CHECK(b.count(e), "scc_hierarchical_clustering returned %s, violated rules give%s", ecs(e), say(b).c_str()); untouched("scc_hierarchical_clustering"); }
		else CHECK(e == SCC_ER_OK, "scc_hierarchical_clustering rejected valid input with %s", ecs(e));
	} else if (mode <= 10) { // check
		bool ok = true; bool* pok = &ok; const scc_Clustering* cl = C.c; set<int> b = opt_bad; Clu C2;
		if (o.num_types >= 2 && o.num_types <= 65535 && o.type_labels && opt_bad.empty()) for (size_t i = 0; i < n; ++i) if (o.type_labels[i] >= o.num_types) return;
		if (mode == 10) { long w = r.in(0, 2); b.insert(SCC_ER_INVALID_INPUT); if (w == 0) pok = nullptr; if (w == 1) cl = nullptr; if (w == 2) { C2.empty(n, false); cl = C2.c; } }
		scc_ErrorCode e = scc_check_clustering(cl, &o, pok);
		if (!b.empty()) { CHECK(b.count(e), "scc_check_clustering returned %s, violated rules give%s", ecs(e), say(b).c_str()); if (pok) CHECK(!ok, "rejected check left is_OK true"); }
		else CHECK(e == SCC_ER_OK, "scc_check_clustering rejected valid options with %s", ecs(e));
		untouched("scc_check_clustering");
	} else { // stats and constructors
		scc_ClusteringStats st; scc_ErrorCode e; Clu C2; C2.empty(n, false); Clu C3; vector<CL> l3(n + 1, 0); Buf<CL> e3(l3); CHECK(scc_init_existing_clustering(n + 1, 1, e3.p, false, &C3.c) == SCC_ER_OK, "init");
		e = scc_get_clustering_stats(D.ds, C.c, &st); CHECK(e == SCC_ER_OK, "scc_get_clustering_stats returned %s", ecs(e));
		CHECK(scc_get_clustering_stats(nullptr, C.c, &st) == SCC_ER_INVALID_INPUT && scc_get_clustering_stats(D.ds, nullptr, &st) == SCC_ER_INVALID_INPUT && scc_get_clustering_stats(D.ds, C.c, nullptr) == SCC_ER_INVALID_INPUT && scc_get_clustering_stats(D.ds, C2.c, &st) == SCC_ER_INVALID_INPUT && scc_get_clustering_stats(D.ds, C3.c, &st) == SCC_ER_INVALID_INPUT, "scc_get_clustering_stats accepted invalid arguments");
		untouched("scc_get_clustering_stats");
		scc_DataSet* q = (scc_DataSet*) 1; double y[1] = {0};
		struct { uint64_t n; uint32_t d; size_t len; const double* p; int e; } T[] = {
			{0, 1, 1, y, SCC_ER_INVALID_INPUT}, {1, 0, 1, y, SCC_ER_INVALID_INPUT}, {1, 1, 0, y, SCC_ER_INVALID_INPUT}, {1, 1, 1, nullptr, SCC_ER_INVALID_INPUT}, {1, 65536, 70000, y, SCC_ER_TOO_LARGE_PROBLEM},
			{2, 3, 5, y, SCC_ER_INVALID_INPUT}, {(uint64_t) ISCC_POINTINDEX_MAX + 1, 1, (size_t) -1, y, SCC_ER_TOO_LARGE_PROBLEM} };
		for (auto& t : T) { q = (scc_DataSet*) 1; if (ISCC_POINTINDEX_MAX == UINTMAX_MAX && t.n == 0 && t.p == y && t.len > 1) continue; e = scc_init_data_set(t.n, t.d, t.len, t.p, &q); CHECK(e == (scc_ErrorCode) t.e && q == nullptr, "scc_init_data_set(%llu,%u,%zu) returned %s, handle %p", (unsigned long long) t.n, t.d, t.len, ecs(e), (void*) q); }
	}
}
static Reg r10("C10", c10);

// =============================================================== C11
struct Run { scc_ErrorCode e; vector<long long> res; };
static void c11_one(const std::function<Run()>& run, Rng& r, const char* name) {
	size_t base = live_blocks();
	A.reset(); Run ref = run(); size_t N = A.count; A.reset();
	CHECK(live_blocks() == base, "%s leaks %zu blocks without any failure", name, live_blocks() - base);
	size_t tries = std::min<size_t>(N, 60);
	for (size_t t = 1; t <= tries; ++t) for (int rest = 0; rest < 2; ++rest) {
		size_t at = N <= 60 ? t : (size_t) r.in(1, (long) N);
		A.reset(); A.fail_at = at; A.fail_rest = rest;
		Run x = run(); size_t f = A.failed; A.reset();
		CHECK(live_blocks() == base, "%s: %zu blocks leaked after allocation %zu%s failed (returned %s)", name, live_blocks() - base, at, rest ? " and all later ones" : "", ecs(x.e));
		if (!f) continue;
		if (x.e == SCC_ER_OK) CHECK(ref.e == SCC_ER_OK && x.res == ref.res, "%s: allocation %zu%s failed, but success was returned with a result other than the right one", name, at, rest ? " and all later ones" : "");
		else CHECK(x.e == SCC_ER_NO_MEMORY || x.e == SCC_ER_DIST_SEARCH_ERROR || (x.e == ref.e), "%s: allocation %zu failed, returned %s", name, at, ecs(x.e));
	}
}
static void c11(Rng& r, unsigned long) {
	int op = (int) r.in(0, 11);
	if (op >= 9) { c07_core(r, true); return; }
	size_t n = gen_n(r, 2, 10, 0, 0);
	Data D; gen_data(r, D, n);
	Opt O; gen_opt(r, D, O, T_MAYBE, true);
	bool ext = r.p(0.3);
	auto result = [&](const Clu& C, scc_ErrorCode e) { Run x; x.e = e; if (e == SCC_ER_OK) { for (CL l : C.labels()) x.res.push_back((long long) l); x.res.push_back((long long) C.c->num_clusters); } return x; };
	auto probe = [&](Clu& C) {   // the object must still be usable
		size_t at = A.fail_at; bool rest = A.fail_rest; A.fail_at = 0;
		CHECK(scc_is_initialized_clustering(C.c), "clustering object no longer valid after a failed call");
		if (C.c->num_clusters > 0) { for (CL l : C.labels()) CHECK(l == SCC_CLABEL_NA || (size_t) l < C.c->num_clusters, "label %lu out of range (%zu clusters) after a failed call", (unsigned long) l, C.c->num_clusters); scc_ClusteringStats st; scc_get_clustering_stats(D.ds, C.c, &st); }
		A.fail_at = at; A.fail_rest = rest;
	};
	if (op <= 3) {
		c11_one([&]() { size_t at = A.fail_at; A.fail_at = 0; Clu C; C.empty(n, ext); A.count = 0; A.fail_at = at;
			scc_ErrorCode e = scc_sc_clustering(D.ds, &O.o, C.c); size_t cnt = A.count;
			if (e != SCC_ER_OK) { probe(C); if (A.failed) { size_t a2 = A.fail_at; A.fail_at = 0; scc_ErrorCode e2 = scc_sc_clustering(D.ds, &O.o, C.c); CHECK(e2 == SCC_ER_OK || e2 == SCC_ER_NO_SOLUTION, "retry on the same object after a failed call gives %s", ecs(e2)); A.fail_at = a2; } }
			A.count = cnt; return result(C, e); }, r, "scc_sc_clustering");
	} else if (op <= 5) {
		bool ex = r.p(0.6); vector<CL> in(n); size_t nc = (size_t) r.in(1, 3); for (auto& l : in) l = r.p(0.1) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
		uint32_t sc = (uint32_t) r.in(2, std::min<long>(3, (long) n)); bool ba = r.p(0.5);
		desc("hierarchical size=%u batch=%d in=%s/%zu", sc, ba, ex ? ivec(in).c_str() : "empty", nc);
		c11_one([&]() { size_t at = A.fail_at; A.fail_at = 0; Clu C; if (ex) { C.ext = Buf<CL>(in); scc_init_existing_clustering(n, nc, C.ext.p, false, &C.c); } else C.empty(n, ext); A.count = 0; A.fail_at = at;
			scc_ErrorCode e = scc_hierarchical_clustering(D.ds, sc, ba, C.c); size_t cnt = A.count;
			if (e != SCC_ER_OK) { probe(C); size_t a2 = A.fail_at; A.fail_at = 0; scc_ErrorCode e2 = scc_hierarchical_clustering(D.ds, sc, ba, C.c); CHECK(e2 == SCC_ER_OK, "retry on the same object after a failed call gives %s", ecs(e2)); A.fail_at = a2; }
			A.count = cnt; return result(C, e); }, r, "scc_hierarchical_clustering");
	} else if (op == 6) {
		size_t nc = (size_t) r.in(1, 3); vector<CL> in(n); for (auto& l : in) l = r.p(0.1) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
		desc("check/stats/copy labels=%s/%zu", ivec(in).c_str(), nc);
		Buf<CL> b(in); scc_Clustering* c = nullptr; CHECK(scc_init_existing_clustering(n, nc, b.p, false, &c) == SCC_ER_OK, "init");
		c11_one([&]() { bool ok = false; Run x; x.e = scc_check_clustering(c, &O.o, &ok); x.res.push_back(ok); if (x.e != SCC_ER_OK) x.res.clear(); return x; }, r, "scc_check_clustering");
		c11_one([&]() { scc_ClusteringStats s; Run x; memset(&s, 0, sizeof s); x.e = scc_get_clustering_stats(D.ds, c, &s); if (x.e == SCC_ER_OK) { x.res = { (long long) s.num_assigned, (long long) s.num_populated_clusters, (long long) s.min_cluster_size, (long long) s.max_cluster_size }; } return x; }, r, "scc_get_clustering_stats");
		c11_one([&]() { scc_Clustering* q = (scc_Clustering*) 1; Run x; x.e = scc_copy_clustering(c, &q); if (x.e == SCC_ER_OK) { for (size_t i = 0; i < n; ++i) x.res.push_back((long long) q->cluster_label[i]); scc_free_clustering(&q); } else CHECK(q == nullptr, "failed copy left a handle"); return x; }, r, "scc_copy_clustering");
		c11_one([&]() { scc_Clustering* q = (scc_Clustering*) 1; Run x; x.e = scc_init_existing_clustering(n, nc, b.p, true, &q); if (x.e == SCC_ER_OK) { for (size_t i = 0; i < n; ++i) x.res.push_back((long long) q->cluster_label[i]); scc_free_clustering(&q); } else CHECK(q == nullptr, "failed constructor left a handle"); return x; }, r, "scc_init_existing_clustering");
		c11_one([&]() { scc_Clustering* q = (scc_Clustering*) 1; Run x; x.e = scc_init_empty_clustering(n, nullptr, &q); if (x.e == SCC_ER_OK) scc_free_clustering(&q); else CHECK(q == nullptr, "failed constructor left a handle"); return x; }, r, "scc_init_empty_clustering");
		c11_one([&]() { scc_DataSet* q = (scc_DataSet*) 1; Run x; x.e = scc_init_data_set(n, D.d, n * D.d, D.x.p, &q); if (x.e == SCC_ER_OK) scc_free_data_set(&q); else CHECK(q == nullptr, "failed constructor left a handle"); return x; }, r, "scc_init_data_set");
		scc_free_clustering(&c);
	} else if (op == 7) {
		DG g = gen_dg(r, n, true, true); desc("find_seeds %s", dgstr(g).c_str());
		static const scc_SeedMethod sm[5] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
		for (int m = 0; m < 5; ++m) c11_one([&]() { size_t at = A.fail_at; A.fail_at = 0; iscc_Digraph d; to_lib(g, d, 0); A.count = 0; A.fail_at = at; iscc_SeedResult sr = { 1, 0, nullptr }; Run x; x.e = iscc_find_seeds(&d, sm[m], &sr); size_t cnt = A.count; if (x.e == SCC_ER_OK) { for (size_t i = 0; i < sr.count; ++i) x.res.push_back((long long) sr.seeds[i]); vp_free(sr.seeds); } free_dg(d); A.count = cnt; return x; }, r, "iscc_find_seeds");
	} else {
		scc_ClusterOptions& o = O.o; bool srad = o.seed_radius == SCC_RM_USE_SUPPLIED;
		if (o.size_constraint > n) { g_nontrivial = false; return; }
		if (o.seed_method == SCC_SM_BATCHES) o.seed_method = SCC_SM_LEXICAL;
		c11_one([&]() { iscc_Digraph g; Run x;
			if (o.num_types < 2) x.e = iscc_get_nng_with_size_constraint(D.ds, n, o.size_constraint, o.len_primary_data_points, o.primary_data_points, srad, o.seed_supplied_radius, &g);
			else x.e = iscc_get_nng_with_type_constraint(D.ds, n, o.size_constraint, (uint_fast16_t) o.num_types, o.type_constraints, o.type_labels, o.len_primary_data_points, o.primary_data_points, srad, o.seed_supplied_radius, &g);
			if (x.e == SCC_ER_OK) { DG q = from_lib(g, "nng", false); for (auto& v : q.adj) { x.res.push_back(-1); for (PI h : v) x.res.push_back((long long) h); } free_dg(g); }
			return x; }, r, "nearest neighbour graph");
	}
}
static Reg r11("C11", c11);

// =============================================================== C12
// Everything the other cases do, in one stream, plus: results may not depend on what fresh memory happens to contain.
static void c14(Rng& r, unsigned long); static void c13(Rng& r, unsigned long); static void c17(Rng& r, unsigned long); static void c16(Rng& r, unsigned long);
static void c12(Rng& r, unsigned long idx) {
	int op = (int) r.in(0, 14);
	if (op == 0) return c03(r, idx);
	if (op == 1) return c04(r, idx);
	if (op == 2) return c05(r, idx);
	if (op == 3) return c06(r, idx);
	if (op == 4) return c07_core(r, false);
	if (op == 5) return c14(r, idx);
	if (op == 6) return c13(r, idx);
	if (op == 7) return c17(r, idx);
	if (op == 8) return c16(r, idx);
	size_t n = r.p(0.003) ? (size_t) r.in(300, 1200) : gen_n(r, 2, 14, 0.05, 100);
	Data D; gen_data(r, D, n); Opt O; gen_opt(r, D, O, T_MAYBE, true);
	if (O.o.num_types >= 2 && r.p(0.2)) O.o.len_type_labels = n + 3;
	Snap sn(D, &O);
	vector<CL> ref; scc_ErrorCode e0 = SCC_ER_OK;
	for (int k = 0; k < 2; ++k) {
		A.fill = k ? 0x01 : 0xFF;
		Clu C; C.empty(n, k == 0, k ? 0 : 99);
		scc_ErrorCode e = scc_sc_clustering(D.ds, &O.o, C.c); sn.check("scc_sc_clustering");
		if (k == 0) { e0 = e; if (e == SCC_ER_OK) ref = C.labels(); }
		else { CHECK(e == e0, "the outcome depends on uninitialised memory: %s, then %s", ecs(e0), ecs(e)); if (e == SCC_ER_OK) CHECK(C.labels() == ref, "the labels depend on uninitialised memory: %s, then %s", ivec(ref).c_str(), ivec(C.labels()).c_str()); }
	}
	if (op == 9) {
		uint32_t sc = (uint32_t) r.in(2, std::min<long>(4, (long) n));
		for (int k = 0; k < 2; ++k) { A.fill = k ? 0x01 : 0xFF; Clu C; C.empty(n, false); scc_ErrorCode e = scc_hierarchical_clustering(D.ds, sc, k == 0, C.c); sn.check("scc_hierarchical_clustering"); CHECK(e == SCC_ER_OK, "hierarchical %s", ecs(e)); }
	}
}
static Reg r12("C12", c12);

// =============================================================== C13
static void c13(Rng& r, unsigned long) {
	size_t n = gen_n(r, 1, 12);
	int op = (int) r.in(0, 5);
	desc("op=%d n=%zu ", op, n);
	size_t base = live_blocks();
	if (op == 0) {
		bool ext = r.p(0.5); Buf<CL> b(n); for (size_t i = 0; i < n; ++i) b[i] = (CL) r.in(0, 9);
		vector<CL> bv = b.vec(); scc_Clustering* c = (scc_Clustering*) 1;
		CHECK(scc_init_empty_clustering(n, ext ? b.p : nullptr, &c) == SCC_ER_OK && c, "init_empty failed");
		CHECK(scc_is_initialized_clustering(c), "not initialized");
		CHECK(c->num_data_points == n && c->num_clusters == 0 && c->cluster_label == (ext ? b.p : nullptr) && (!ext || c->external_labels), "empty clustering object wrong");
		CHECK(b.vec() == bv, "external labels modified");
		uint64_t a = 5, k = 5; CHECK(scc_get_clustering_info(c, &a, &k) == SCC_ER_OK && a == n && k == 0, "info wrong");
		CHECK(scc_get_clustering_info(c, nullptr, nullptr) == SCC_ER_OK, "info with null outputs");
		CL o = 7; CHECK(scc_get_cluster_labels(c, 1, &o) == SCC_ER_INVALID_INPUT && o == 7, "labels of an empty clustering");
		scc_Clustering* d = (scc_Clustering*) 1; CHECK(scc_copy_clustering(c, &d) == SCC_ER_OK && d && d != c && d->num_clusters == 0 && d->num_data_points == n && (d->cluster_label == nullptr || d->cluster_label != c->cluster_label), "copy of empty clustering");
		scc_free_clustering(&d); CHECK(!d, "handle not nulled"); scc_free_clustering(&c); CHECK(!c, "handle not nulled"); scc_free_clustering(&c); scc_free_clustering(nullptr);
		CHECK(b.vec() == bv, "external labels modified");
	} else if (op <= 2) {
		uint64_t nc = (uint64_t) r.in(1, 5); vector<CL> v(n); for (auto& l : v) l = r.p(0.2) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
		bool deep = op == 1; Buf<CL> b(v); scc_Clustering* c = (scc_Clustering*) 1;
		desc("labels=%s clusters=%llu deep=%d", ivec(v).c_str(), (unsigned long long) nc, deep);
		CHECK(scc_init_existing_clustering(n, nc, b.p, deep, &c) == SCC_ER_OK && c, "init_existing failed");
		CHECK(c->num_data_points == n && c->num_clusters == nc && (deep ? c->cluster_label != b.p : c->cluster_label == b.p) && c->external_labels == !deep, "object wrong");
		CHECK(vector<CL>(c->cluster_label, c->cluster_label + n) == v, "labels wrong");
		uint64_t a = 0, k = 0; CHECK(scc_get_clustering_info(c, &a, &k) == SCC_ER_OK && a == n && k == nc, "info wrong");
		k = 0; CHECK(scc_get_clustering_info(c, nullptr, &k) == SCC_ER_OK && k == nc, "info wrong"); a = 0; CHECK(scc_get_clustering_info(c, &a, nullptr) == SCC_ER_OK && a == n, "info wrong");
		size_t len = (size_t) r.in(1, (long) n + (r.p(0.02) ? 70000 : 4)); Buf<CL> o(len); for (size_t i = 0; i < len; ++i) o[i] = 4242;
		desc(" len=%zu", len);
		CHECK(scc_get_cluster_labels(c, len, o.p) == SCC_ER_OK, "get labels failed");
		for (size_t i = 0; i < len; ++i) CHECK(o[i] == (i < n ? v[i] : SCC_CLABEL_NA), "label query entry %zu wrong", i);
		CHECK(scc_get_cluster_labels(c, 0, o.p) == SCC_ER_INVALID_INPUT && scc_get_cluster_labels(c, len, nullptr) == SCC_ER_INVALID_INPUT && scc_get_cluster_labels(nullptr, len, o.p) == SCC_ER_INVALID_INPUT, "invalid label query accepted");
		scc_Clustering* d = (scc_Clustering*) 1; CHECK(scc_copy_clustering(c, &d) == SCC_ER_OK && d, "copy failed");
		CHECK(d->num_data_points == n && d->num_clusters == nc && d->cluster_label != c->cluster_label && d->cluster_label != b.p && !d->external_labels && scc_is_initialized_clustering(d), "copy wrong");
		CHECK(vector<CL>(d->cluster_label, d->cluster_label + n) == v, "copied labels wrong");
		d->cluster_label[0] = (CL) (v[0] == 0 ? 1 : 0); CHECK(c->cluster_label[0] == v[0], "copy is not independent");
		bool first = r.p(0.5); scc_free_clustering(first ? &c : &d); CHECK(!(first ? c : d), "handle not nulled");
		if (first) CHECK(d->cluster_label[n - 1] == (n == 1 ? (CL) (v[0] == 0 ? 1 : 0) : v[n - 1]), "freeing the original damaged the copy");
		scc_free_clustering(&c); scc_free_clustering(&d);
		CHECK(b.vec() == v, "user labels modified or freed");
	} else if (op == 3) {
		Buf<CL> b(n); for (size_t i = 0; i < n; ++i) b[i] = 0;
		struct { uint64_t n, k; CL* p; scc_ErrorCode e; } T[] = { {0, 1, b.p, SCC_ER_INVALID_INPUT}, {n, 0, b.p, SCC_ER_INVALID_INPUT}, {n, 1, nullptr, SCC_ER_INVALID_INPUT}, {(uint64_t) ISCC_POINTINDEX_MAX + 1, 1, b.p, SCC_ER_TOO_LARGE_PROBLEM}, {n, (uint64_t) SCC_CLABEL_MAX + 1, b.p, SCC_ER_TOO_LARGE_PROBLEM} };
		for (auto& t : T) for (int deep = 0; deep < 2; ++deep) { scc_Clustering* c = (scc_Clustering*) 1; if ((t.n == 0 || t.k == 0) && t.e != SCC_ER_INVALID_INPUT) continue; scc_ErrorCode e = scc_init_existing_clustering(t.n, t.k, t.p, deep, &c); CHECK(e == t.e && c == nullptr, "init_existing(%llu,%llu) gives %s, handle %p", (unsigned long long) t.n, (unsigned long long) t.k, ecs(e), (void*) c); }
		scc_Clustering* c = (scc_Clustering*) 1; CHECK(scc_init_empty_clustering(0, b.p, &c) == SCC_ER_INVALID_INPUT && !c, "init_empty(0)");
		c = (scc_Clustering*) 1; if ((uint64_t) ISCC_POINTINDEX_MAX + 1 != 0) CHECK(scc_init_empty_clustering((uint64_t) ISCC_POINTINDEX_MAX + 1, nullptr, &c) == SCC_ER_TOO_LARGE_PROBLEM && !c, "init_empty(too large)");
		CHECK(scc_init_empty_clustering(n, nullptr, nullptr) == SCC_ER_INVALID_INPUT && scc_init_existing_clustering(n, 1, b.p, true, nullptr) == SCC_ER_INVALID_INPUT, "null output accepted");
		c = (scc_Clustering*) 1; CHECK(scc_copy_clustering(nullptr, &c) == SCC_ER_INVALID_INPUT && !c, "copy of null");
		uint64_t q = 9; CHECK(scc_get_clustering_info(nullptr, &q, &q) == SCC_ER_INVALID_INPUT && q == 9, "info of null");
		scc_Clustering bad = { 722587001, n, 1, nullptr, false }; CHECK(!scc_is_initialized_clustering(&bad) && !scc_is_initialized_clustering(nullptr), "is_initialized"); bad.cluster_label = b.p; CHECK(scc_is_initialized_clustering(&bad), "is_initialized"); bad.num_data_points = 0; CHECK(!scc_is_initialized_clustering(&bad), "is_initialized"); bad.num_data_points = n; bad.clustering_version = 1; CHECK(!scc_is_initialized_clustering(&bad), "is_initialized");
		c = (scc_Clustering*) 1; CHECK(scc_copy_clustering(&bad, &c) == SCC_ER_INVALID_INPUT && !c, "copy of invalid");
	} else {
		unsigned d = (unsigned) r.in(1, 4); size_t len = n * d + (size_t) r.in(0, 2); Buf<double> x(len); for (size_t i = 0; i < len; ++i) x[i] = (double) i; vector<double> xv = x.vec();
		scc_DataSet* s = (scc_DataSet*) 1; CHECK(scc_init_data_set(n, d, len, x.p, &s) == SCC_ER_OK && s, "init_data_set failed");
		CHECK(scc_is_initialized_data_set(s) && s->num_data_points == n && s->num_dimensions == d && s->data_matrix == x.p, "data set object wrong");
		CHECK(iscc_imp_num_data_points(s) == n && iscc_imp_check_data_set(s), "data set queries wrong");
		
		scc_free_data_set(&s); CHECK(!s, "handle not nulled"); scc_free_data_set(&s); scc_free_data_set(nullptr); CHECK(x.vec() == xv, "data modified");
		s = (scc_DataSet*) 1; CHECK(scc_init_data_set(n, d, n * d - 1, x.p, &s) == SCC_ER_INVALID_INPUT && !s, "short matrix accepted");
		CHECK(!scc_is_initialized_data_set(nullptr), "null initialized");
	}
	CHECK(live_blocks() == base, "%zu block(s) leaked", live_blocks() - base);
}
static Reg r13("C13", c13);

// =============================================================== C14
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static void c14(Rng& r, unsigned long) {
	if (r.p(0.0003)) return big_labels(r, 14);
	size_t n = gen_n(r, 1, 14);
	Data D; gen_data(r, D, n);
	size_t nc = (size_t) r.in(1, 6); vector<CL> v(n); bool none = r.p(0.02);
	for (auto& l : v) l = none || r.p(0.15) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
	if (r.p(0.3)) for (auto& l : v) if (l == 0 && nc > 1) l = (CL) 1;   // leave cluster 0 empty
	Buf<CL> b(v); scc_Clustering* c = nullptr; CHECK(scc_init_existing_clustering(n, nc, b.p, false, &c) == SCC_ER_OK, "init");
	desc("labels=%s clusters=%zu", ivec(v).c_str(), nc);
	scc_ClusteringStats s; memset(&s, 0x7f, sizeof s);
	Snap sn(D, nullptr);
	if (r.p(0.1)) {
		spy_install(D.ds); S.fail_at = (unsigned long) r.in(1, 3); scc_ErrorCode e = scc_get_clustering_stats(D.ds, c, &s); bool f = S.failed; scc_reset_dist_functions();
		CHECK(f ? e == SCC_ER_DIST_SEARCH_ERROR : e == SCC_ER_OK, "distance function %s but stats returned %s", f ? "failed" : "worked", ecs(e)); scc_free_clustering(&c); return;
	}
	scc_ErrorCode e = scc_get_clustering_stats(D.ds, c, &s);
	sn.check("scc_get_clustering_stats"); CHECK(b.vec() == v, "labels changed");
	CHECK(e == SCC_ER_OK, "scc_get_clustering_stats returned %s", ecs(e));
	vector<vector<size_t>> m(nc); for (size_t i = 0; i < n; ++i) if (v[i] != SCC_CLABEL_NA) m[v[i]].push_back(i);
	uint64_t as = 0, pop = 0, mn = UINT64_MAX, mx = 0; double sum = 0, mind = DBL_MAX, maxd = 0, amin = 0, amax = 0, aw = 0, au = 0; bool single = false, pair = false;
	for (auto& q : m) {
		if (q.empty()) continue;
		as += q.size(); ++pop; mn = std::min<uint64_t>(mn, q.size()); mx = std::max<uint64_t>(mx, q.size());
		if (q.size() < 2) { single = true; continue; }
		pair = true; double t = 0, lo = DBL_MAX, hi = 0; size_t k = 0;
		for (size_t i = 0; i < q.size(); ++i) for (size_t j = i + 1; j < q.size(); ++j) { double d = D.dist(q[i], q[j]); t += d; lo = std::min(lo, d); hi = std::max(hi, d); ++k; }
		sum += t; mind = std::min(mind, lo); maxd = std::max(maxd, hi); amin += lo; amax += hi; aw += (double) q.size() * t / (double) k; au += t / (double) k;
	}
	CHECK(s.num_data_points == n && s.num_clusters == nc && s.num_assigned == as && s.num_populated_clusters == pop, "counts wrong: %llu %llu %llu %llu", (unsigned long long) s.num_data_points, (unsigned long long) s.num_clusters, (unsigned long long) s.num_assigned, (unsigned long long) s.num_populated_clusters);
	if (pop) {
		CHECK(s.min_cluster_size == mn && s.max_cluster_size == mx, "cluster sizes wrong: %llu %llu", (unsigned long long) s.min_cluster_size, (unsigned long long) s.max_cluster_size);
		CHECK(near(s.avg_cluster_size, (double) as / (double) pop), "avg_cluster_size %g", s.avg_cluster_size);
		CHECK(near(s.sum_dists, sum), "sum_dists %g should be %g", s.sum_dists, sum);
		CHECK(near(s.max_dist, maxd), "max_dist %g should be %g", s.max_dist, maxd);
		if (!single && pair) CHECK(near(s.min_dist, mind), "min_dist %g should be %g", s.min_dist, mind);
		if (single) CHECK(near(s.min_dist, 0) || (pair && near(s.min_dist, mind)), "min_dist %g", s.min_dist);
		CHECK(near(s.avg_min_dist, amin / (double) pop), "avg_min_dist %g should be %g", s.avg_min_dist, amin / (double) pop);
		CHECK(near(s.avg_max_dist, amax / (double) pop), "avg_max_dist %g should be %g", s.avg_max_dist, amax / (double) pop);
		CHECK(near(s.avg_dist_weighted, aw / (double) as), "avg_dist_weighted %g should be %g", s.avg_dist_weighted, aw / (double) as);
		CHECK(near(s.avg_dist_unweighted, au / (double) pop), "avg_dist_unweighted %g should be %g", s.avg_dist_unweighted, au / (double) pop);
	}
	scc_free_clustering(&c);
}
static Reg r14("C14", c14);

// =============================================================== C15
struct DF { scc_check_data_set a; scc_num_data_points b; scc_get_dist_matrix c; scc_get_dist_rows d; scc_init_max_dist_object e; scc_get_max_dist f; scc_close_max_dist_object g; scc_init_nn_search_object h; scc_nearest_neighbor_search i; scc_close_nn_search_object j; };
extern "C" { typedef struct { scc_check_data_set check_data_set; scc_num_data_points num_data_points; scc_get_dist_matrix get_dist_matrix; scc_get_dist_rows get_dist_rows; scc_init_max_dist_object init_max_dist_object; scc_get_max_dist get_max_dist; scc_close_max_dist_object close_max_dist_object; scc_init_nn_search_object init_nn_search_object; scc_nearest_neighbor_search nearest_neighbor_search; scc_close_nn_search_object close_nn_search_object; } DFS; }
// behaviour-level view of which function is installed: exercise the library and see which spies are hit
static unsigned installed(Data& D) {
	S.reset();
	size_t n = D.n; scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.primary_radius = SCC_RM_USE_ESTIMATED; o.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED;
	{ Clu C; C.empty(n, false); scc_sc_clustering(D.ds, &o, C.c); }
	{ Clu C; C.empty(n, false); scc_hierarchical_clustering(D.ds, 2, false, C.c); scc_ClusteringStats st; scc_get_clustering_stats(D.ds, C.c, &st); }
	unsigned m = 0; for (int k = 0; k < 10; ++k) if (S.calls[k]) m |= 1u << k;
	return m;
}
static void c15(Rng& r, unsigned long idx) {
	Data D; D.n = 6; D.d = 1; D.x = Buf<double>(6); for (int i = 0; i < 6; ++i) D.x[(size_t) i] = (double) (i * i) + (double) r.in(0, 1);
	CHECK(scc_init_data_set(6, 1, 6, D.x.p, &D.ds) == SCC_ER_OK, "init");
	CHECK(scc_reset_dist_functions(), "reset returned false");
	CHECK(installed(D) == 0, "after reset, replaced functions are still called (mask %x)", installed(D));
	unsigned state = 0;
	int steps = (int) r.in(1, 3);
	for (int t = 0; t < steps; ++t) {
		unsigned m = t == 0 ? (unsigned) (idx % 1024) : (unsigned) r.in(0, 1023);
		desc("set(mask=%x) ", m);
		bool ret = scc_set_dist_functions(m & 1 ? sp_check : nullptr, m & 2 ? sp_num : nullptr, m & 4 ? sp_matrix : nullptr, m & 8 ? sp_rows : nullptr, m & 16 ? sp_imax : nullptr, m & 32 ? sp_max : nullptr, m & 64 ? sp_cmax : nullptr, m & 128 ? sp_inn : nullptr, m & 256 ? sp_nn : nullptr, m & 512 ? sp_cnn : nullptr);
		unsigned gm = m & 0x70, gn = m & 0x380; bool pm = gm && gm != 0x70, pn = gn && gn != 0x380;
		CHECK(ret == !(pm || pn), "scc_set_dist_functions(mask %x) returned %d", m, ret);
		unsigned got = installed(D);
		// complete groups or untouched
		CHECK(((got & 0x70) == 0 || (got & 0x70) == 0x70) && ((got & 0x380) == 0 || (got & 0x380) == 0x380), "function groups are mixed: mask %x", got);
		if (!pm && !pn) { state |= m; CHECK(got == state, "installed functions are %x, should be %x", got, state); }
		else {
			unsigned lo = state, hi = state | (m & 0xF) | (pm ? 0 : gm) | (pn ? 0 : gn);
			CHECK((got & lo) == lo && (got & ~hi) == 0, "after a refused call the installed functions are %x (before %x, requested %x)", got, state, m);
			state = got;
		}
		CHECK(S.bad.empty(), "%s", S.bad.c_str());
	}
	CHECK(scc_reset_dist_functions(), "reset"); CHECK(installed(D) == 0, "after reset, replaced functions are still called");
}
static Reg r15("C15", c15);

// =============================================================== C16
static string last_error() { char b[512]; memset(b, 'x', sizeof b); CHECK(scc_get_latest_error(sizeof b, b), "scc_get_latest_error failed"); CHECK(memchr(b, 0, sizeof b), "message not terminated"); return b; }
// any library call with an injected allocation or distance failure: an error must leave its own message
static void c16_wild(Rng& r) {
	static const char* def[] = { "No error.", "Unkonwn error.", "Function parameters are invalid.", "Cannot allocate required memory.", "Clustering problem has no solution.", "Clustering problem is too large.", "Failed to calculate distances.", "Functionality not yet implemented." };
	size_t n = gen_n(r, 2, 10, 0.02, 30); Data D; gen_data(r, D, n); Opt O; gen_opt(r, D, O, T_MAYBE, true);
	vector<CL> in(n); size_t nc = (size_t) r.in(1, 3); for (auto& l : in) l = r.p(0.1) ? SCC_CLABEL_NA : (CL) r.in(0, (long) nc - 1);
	DG a = gen_dg(r, n, r.p(0.4), true), b = gen_dg(r, n, r.p(0.4), true), s1 = gen_dg(r, n, true, true);
	int op = (int) r.in(0, 11); uint32_t sc = (uint32_t) r.in(2, std::min<long>(3, (long) n)); bool flag = r.p(0.5), dist = r.p(0.3);
	size_t big = 0; for (auto& row : a.adj) for (PI h : row) big += b.adj[h].size(); size_t sum = a.arcs() + b.arcs();
	desc("op=%d size=%u flag=%d in=%s/%zu a=%s b=%s", op, sc, flag, ivec(in).c_str(), nc, dgstr(a).c_str(), dgstr(b).c_str());
	for (size_t at = 1; at <= 40; ++at) {
		Clu C, E; C.empty(n, false); E.ext = Buf<CL>(in); CHECK(scc_init_existing_clustering(n, nc, E.ext.p, false, &E.c) == SCC_ER_OK, "init");
		iscc_Digraph x, y, z = ISCC_NULL_DIGRAPH; to_lib(op == 4 ? s1 : a, x, 0); to_lib(b, y, 0); iscc_Digraph xy[2] = { x, y };
		iscc_SeedResult sr = { 1, 0, nullptr }; scc_Clustering* q = nullptr; bool ok = false; scc_ClusteringStats st;
		bool spy = dist && op <= 3; if (spy) spy_install(D.ds);
		iscc_reset_error();
		if (!flag) iscc_make_error__(SCC_ER_UNKNOWN_ERROR, "old message", "f.c", 1);
		A.reset(); if (spy) S.fail_at = at; else if (at == 40 && sum) { A.fail_over = (op == 5 ? big : sum) * sizeof(PI) - 1; A.fail_over_n = 99; if (A.fail_over == (size_t) -1) A.fail_over = 0; } else { A.fail_at = at; A.fail_rest = r.p(0.5); }
		scc_ErrorCode e = SCC_ER_OK;
		switch (op) {
			case 0: case 1: e = scc_sc_clustering(D.ds, &O.o, C.c); break;
			case 2: e = scc_hierarchical_clustering(D.ds, sc, flag, r.p(0.5) ? C.c : E.c); break;
			case 3: e = scc_get_clustering_stats(D.ds, E.c, &st); break;
			case 4: e = iscc_find_seeds(&x, (scc_SeedMethod) (flag ? SCC_SM_EXCLUSION_UPDATING : SCC_SM_INWARDS_UPDATING), &sr); break;
			case 5: e = iscc_adjacency_product(&x, &y, flag, &z); break;
			case 6: e = iscc_digraph_union_and_delete(2, xy, 0, nullptr, flag, &z); break;
			case 7: e = iscc_digraph_difference(&x, &y, 2); xy[0] = x; break;
			case 8: e = iscc_digraph_transpose(&x, &z); break;
			case 9: e = iscc_delete_loops(&x); break;
			case 10: e = scc_check_clustering(E.c, &O.o, &ok); break;
			case 11: e = flag ? scc_copy_clustering(E.c, &q) : scc_init_existing_clustering(n, nc, E.ext.p, true, &q); break;
		}
		size_t failed = A.failed + (spy && S.failed); A.reset(); if (spy) scc_reset_dist_functions();
		if (e != SCC_ER_OK) {
			string m = last_error();
			CHECK(m.find("No error") == string::npos, "failure %zu: %s was returned, but the message is \"%s\"", at, ecs(e), m.c_str());
			CHECK(m.find("old message") == string::npos, "failure %zu: %s was returned, but the message is that of an older error", at, ecs(e));
			for (int c = 1; c < 8; ++c) if (c != (int) e) CHECK(m.find(def[c]) == string::npos, "failure %zu: %s was returned, but the message is \"%s\"", at, ecs(e), m.c_str());
		} else { if (z.tail_ptr) free_dg(z); if (op == 4) vp_free(sr.seeds); if (q) scc_free_clustering(&q); }
		free_dg(x); free_dg(y);
		if (!failed && at < 39) { if (at == 1 && e == SCC_ER_OK) g_nontrivial = op != 3; if (op >= 5 && op <= 6) at = 39; else break; }
	}
	iscc_reset_error();
}
static void c16(Rng& r, unsigned long) {
	if (r.p(0.5)) return c16_wild(r);
	static const char* def[] = { "No error.", "Unkonwn error.", "Function parameters are invalid.", "Cannot allocate required memory.", "Clustering problem has no solution.", "Clustering problem is too large.", "Failed to calculate distances.", "Functionality not yet implemented." };
	iscc_reset_error();
	CHECK(last_error().find("No error") != string::npos, "message without any error: %s", last_error().c_str());
	size_t n = 4; Data D; gen_data(r, D, n);
	Buf<CL> lb(vector<CL>{0, 0, 1, 1}); Clu C; C.empty(n, false); scc_Clustering* ex = nullptr; CHECK(scc_init_existing_clustering(n, 2, lb.p, false, &ex) == SCC_ER_OK, "init");
	scc_ClusterOptions good = scc_get_default_options(); good.size_constraint = 2;
	uint32_t tcs[2] = {1, 0}; scc_TypeLabel tls[4] = {0, 0, 1, 1};
	int steps = (int) r.in(1, 4);
	for (int t = 0; t < steps; ++t) {
		scc_ErrorCode e = SCC_ER_OK; string want; scc_ClusterOptions o = good; int k = (int) r.in(0, 22); bool dflt = false;
		desc("call%d ", k);
		switch (k) {
			case 0: o.options_version = 1; e = scc_sc_clustering(D.ds, &o, C.c); want = "version"; break;
			case 1: o.size_constraint = 1; e = scc_sc_clustering(D.ds, &o, C.c); want = "ize constraint"; break;
			case 2: o.size_constraint = 99; e = scc_sc_clustering(D.ds, &o, C.c); want = "ewer data points"; break;
			case 3: e = scc_sc_clustering(D.ds, &o, ex); want = "refine existing"; break;
			case 4: e = scc_sc_clustering(nullptr, &o, C.c); want = "data set"; break;
			case 5: e = scc_sc_clustering(D.ds, &o, nullptr); want = "lustering object"; break;
			case 6: { scc_Clustering* q; e = scc_init_empty_clustering(0, nullptr, &q); } want = "positive number"; break;
			case 7: { scc_DataSet* q; e = scc_init_data_set(3, 0, 3, D.x.p, &q); want = "dimension"; break; }
			case 8: e = scc_get_clustering_info(nullptr, nullptr, nullptr); want = "lustering object"; break;
			case 9: e = scc_get_cluster_labels(ex, 0, lb.p); dflt = true; break;
			case 10: { A.count = 0; A.fail_at = 1; scc_Clustering* q; e = scc_copy_clustering(ex, &q); A.fail_at = 0; CHECK(e == SCC_ER_NO_MEMORY, "ec"); dflt = true; break; }
			case 11: { spy_install(D.ds); S.fail_at = 1; e = scc_sc_clustering(D.ds, &o, C.c); scc_reset_dist_functions(); CHECK(e == SCC_ER_DIST_SEARCH_ERROR, "ec"); dflt = true; break; }
			case 12: o.secondary_unassigned_method = SCC_UM_ANY_NEIGHBOR; e = scc_sc_clustering(D.ds, &o, C.c); want = "unassigned method"; break;
			case 13: o.seed_radius = SCC_RM_USE_SUPPLIED; e = scc_sc_clustering(D.ds, &o, C.c); want = "adius"; break;
			case 14: o.seed_method = SCC_SM_BATCHES; o.primary_radius = SCC_RM_NO_RADIUS; e = scc_sc_clustering(D.ds, &o, C.c); want = "BATCHES"; break;
			case 15: e = scc_check_clustering(C.c, &o, nullptr); want = "Output parameter"; break;
			case 16: { bool b; e = scc_check_clustering(C.c, &o, &b); want = "Empty clustering"; break; }
			case 17: e = scc_hierarchical_clustering(D.ds, 1, false, C.c); want = "ize constraint"; break;
			case 18: { scc_ClusteringStats st; e = scc_get_clustering_stats(D.ds, C.c, &st); want = "Empty clustering"; break; }
			case 19: { A.count = 0; A.fail_at = 1; e = scc_hierarchical_clustering(D.ds, 2, false, ex); A.fail_at = 0; CHECK(e == SCC_ER_NO_MEMORY, "ec"); dflt = true; break; }
			case 20: { A.count = 0; A.fail_at = (size_t) r.in(1, 6); Clu C2; { size_t f = A.fail_at; A.fail_at = 0; C2.empty(n, false); A.count = 0; A.fail_at = f; } o.num_types = 2; o.type_constraints = tcs; o.type_labels = tls; o.len_type_labels = 4; e = scc_sc_clustering(D.ds, &o, C2.c); A.fail_at = 0; dflt = true; break; }
			case 21: { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 1e-7; Clu C2; C2.empty(n, false); e = scc_sc_clustering(D.ds, &o, C2.c); want = "nfeasible"; break; }
			case 22: { if ((uint64_t) SCC_CLABEL_MAX + 1 == 0) continue; scc_Clustering* q; e = scc_init_existing_clustering(2, (uint64_t) SCC_CLABEL_MAX + 1, lb.p, false, &q); want = "oo many clusters"; break; }
		}
		if (e == SCC_ER_OK) { if (k >= 20) continue; vp_fail("call %d unexpectedly succeeded", k); }
		if (k == 21 && e != SCC_ER_NO_SOLUTION) continue;
		string m = last_error();
		if (dflt) want = def[e];
		CHECK(m.find(want) != string::npos || m.find(def[e]) != string::npos, "after %s the message is \"%s\" (expected \"%s\" or \"%s\")", ecs(e), m.c_str(), want.c_str(), def[e]);
		CHECK(m.find("No error") == string::npos, "after %s the message is \"%s\"", ecs(e), m.c_str());
		size_t len = (size_t) r.in(1, (long) m.size() + 3); Buf<char> b(len); memset(b.p, 'x', len);
		CHECK(scc_get_latest_error(len, b.p), "scc_get_latest_error(%zu) refused", len);
		CHECK(memchr(b.p, 0, len), "message of length %zu not terminated", len);
		CHECK(m.compare(0, strlen(b.p), b.p) == 0 && strlen(b.p) == std::min(m.size(), len - 1), "message cut to %zu is \"%s\"", len, b.p);
		CHECK(!scc_get_latest_error(0, b.p) && !scc_get_latest_error(len, nullptr), "null buffer or zero length accepted");
		if (r.p(0.3)) { iscc_make_error__((scc_ErrorCode) r.in(1, 7), nullptr, "f.c", 3); }
		if (r.p(0.2)) { int q = (int) r.in(1, 7); iscc_make_error__((scc_ErrorCode) q, nullptr, "f.c", 3); CHECK(last_error().find(def[q]) != string::npos, "text for code %d is \"%s\"", q, last_error().c_str()); iscc_make_error__((scc_ErrorCode) q, "own text", "f.c", 3); CHECK(last_error().find("own text") != string::npos, "own message lost: \"%s\"", last_error().c_str()); }
		if (r.p(0.2)) { iscc_reset_error(); CHECK(last_error().find("No error") != string::npos, "reset does not clear the error"); }
	}
	iscc_reset_error();
	scc_free_clustering(&ex);
}
static Reg r16("C16", c16);

// =============================================================== C17
static void c17(Rng& r, unsigned long) {
	size_t n = gen_n(r, 2, 12);
	Data D; gen_data(r, D, n);
	Snap sn(D, nullptr);
	auto idxs = [&](bool& null, size_t lo) { null = r.p(0.35); size_t k = (size_t) r.in((long) lo, (long) n + (null ? 0 : 3)); vector<PI> v(k); for (size_t i = 0; i < k; ++i) v[i] = null ? (PI) i : (PI) r.in(0, (long) n - 1); return v; };
	bool an, bn; vector<PI> a = idxs(an, 2), b = idxs(bn, 1); Buf<PI> ab(a), bb(b);
	desc("a=%s%s b=%s%s", an ? "NULL" : "", ivec(a).c_str(), bn ? "NULL" : "", ivec(b).c_str());
	{ Buf<double> o(a.size() * (a.size() - 1) / 2); CHECK(iscc_imp_get_dist_matrix(D.ds, a.size(), an ? nullptr : ab.p, o.p), "matrix failed"); size_t w = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j, ++w) CHECK(near(o[w], D.dist(a[i], a[j])), "matrix entry %zu (pair %lu,%lu) is %g, should be %g", w, (unsigned long) a[i], (unsigned long) a[j], o[w], D.dist(a[i], a[j])); }
	{ Buf<double> o(a.size() * b.size()); CHECK(iscc_imp_get_dist_rows(D.ds, a.size(), an ? nullptr : ab.p, b.size(), bn ? nullptr : bb.p, o.p), "rows failed"); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) CHECK(near(o[i * b.size() + j], D.dist(a[i], b[j])), "row entry (%zu,%zu) is %g, should be %g", i, j, o[i * b.size() + j], D.dist(a[i], b[j])); }
	{ iscc_MaxDistObject* m = nullptr; CHECK(iscc_imp_init_max_dist_object(D.ds, b.size(), bn ? nullptr : bb.p, &m) && m, "init failed"); Buf<PI> oi(a.size()); Buf<double> od(a.size());
	  CHECK(iscc_imp_get_max_dist(m, a.size(), an ? nullptr : ab.p, oi.p, od.p), "max dist failed"); CHECK(iscc_imp_close_max_dist_object(&m) && !m, "close failed");
	  for (size_t i = 0; i < a.size(); ++i) { double best = -1; for (PI s : b) best = std::max(best, D.dist(a[i], s)); CHECK(std::find(b.begin(), b.end(), oi[i]) != b.end(), "query %zu: %lu is not a search point", i, (unsigned long) oi[i]); CHECK(near(od[i], best), "query %zu: distance %g, maximum is %g", i, od[i], best); CHECK(near(D.dist(a[i], oi[i]), best), "query %zu: point %lu is not at maximum distance", i, (unsigned long) oi[i]); } }
	sn.check("distance functions"); CHECK(ab.vec() == a && bb.vec() == b, "index arrays changed");
}
static Reg r17("C17", c17);
