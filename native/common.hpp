// Search for concrete failing inputs against the real library (compiled from /repo with sanitizers).
#pragma once
#define VP_DRIVER
#include "wrap.h"
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <cfloat>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <vector>
extern "C" {
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "src/scclust_types.h"
#include "src/clustering_struct.h"
#include "src/data_set_struct.h"
#include "src/digraph_core.h"
#include "src/nng_findseeds.h"
#include "src/dist_search_imp.h"
scc_ErrorCode iscc_delete_loops(iscc_Digraph*);
scc_ErrorCode iscc_digraph_union_and_delete(uint_fast16_t, const iscc_Digraph*, size_t, const scc_PointIndex*, bool, iscc_Digraph*);
scc_ErrorCode iscc_digraph_difference(iscc_Digraph*, const iscc_Digraph*, uint32_t);
scc_ErrorCode iscc_digraph_transpose(const iscc_Digraph*, iscc_Digraph*);
scc_ErrorCode iscc_adjacency_product(const iscc_Digraph*, const iscc_Digraph*, bool, iscc_Digraph*);
scc_ErrorCode iscc_get_nng_with_size_constraint(void*, size_t, uint32_t, size_t, const scc_PointIndex*, bool, double, iscc_Digraph*);
scc_ErrorCode iscc_get_nng_with_type_constraint(void*, size_t, uint32_t, uint_fast16_t, const uint32_t*, const scc_TypeLabel*, size_t, const scc_PointIndex*, bool, double, iscc_Digraph*);
scc_ErrorCode iscc_estimate_avg_seed_dist(void*, const iscc_SeedResult*, const iscc_Digraph*, uint32_t, double*);
void iscc_reset_error(void);
scc_ErrorCode iscc_make_error__(scc_ErrorCode, const char*, const char*, int);
}
using std::string; using std::vector; using std::set; using std::map;
typedef scc_PointIndex PI;
typedef scc_Clabel CL;

// ---------------------------------------------------------------- randomness
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	// in [a, b]
	long in(long a, long b) { return b <= a ? a : a + (long) (next() % (uint64_t) (b - a + 1)); }
	bool p(double q) { return (double) (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
	double unit() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- reporting
extern string g_desc, g_prop;
extern unsigned long g_case; extern uint64_t g_seed;
extern bool g_nontrivial;
void vp_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) vp_fail(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- allocation control
struct Alloc {
	size_t count = 0;          // allocations since reset
	size_t fail_at = 0;        // 1-based; 0: never
	bool fail_rest = false;    // all from fail_at on
	size_t fail_over = 0;      // fail requests over this many bytes (0: off), at most fail_over_n times
	size_t fail_over_n = 0;
	size_t failed = 0;
	unsigned char fill = 0xA5;
	std::unordered_map<void*, size_t> live;
	void reset() { count = 0; fail_at = 0; fail_rest = false; fail_over = 0; fail_over_n = 0; failed = 0; }
};
extern Alloc A;

// ---------------------------------------------------------------- exact heap buffers (so that sanitizers see every overrun)
template <class T> struct Buf {
	T* p = nullptr; size_t n = 0;
	Buf() {}
	explicit Buf(size_t k) : p((T*) malloc(k * sizeof(T) ? k * sizeof(T) : 1)), n(k) {}
	explicit Buf(const vector<T>& v) : Buf(v.size()) { if (n) memcpy(p, v.data(), n * sizeof(T)); }
	Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
	Buf(Buf&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
	Buf& operator=(Buf&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); return *this; }
	~Buf() { free(p); }
	T& operator[](size_t i) { return p[i]; }
	vector<T> vec() const { return vector<T>(p, p + n); }
};

// ---------------------------------------------------------------- data
struct Data {
	size_t n = 0; unsigned d = 1; bool exact = true;
	Buf<double> x;
	scc_DataSet* ds = nullptr;
	Data() {}
	Data(const Data&) = delete;
	double d2(size_t i, size_t j) const { double s = 0; for (unsigned k = 0; k < d; ++k) { double t = x.p[i * d + k] - x.p[j * d + k]; s += t * t; } return s; }
	double dist(size_t i, size_t j) const { return std::sqrt(d2(i, j)); }
	~Data() { if (ds) scc_free_data_set(&ds); }
};
// -1, 0 (too close to tell for inexact data), 1: compare two distances
inline int cmpd(const Data& D, double a, double b) {
	if (D.exact) return a < b ? -1 : a > b;
	double tol = 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-300;
	return a < b - tol ? -1 : a > b + tol;
}
void gen_data(Rng& r, Data& D, size_t n);
double gen_radius(Rng& r, const Data& D);
size_t gen_n(Rng& r, long lo, long hi, double pbig = 0.03, long big = 60);
string vecstr(const double* p, size_t n);
template <class T> string ivec(const T* p, size_t n) { std::ostringstream o; o << "["; for (size_t i = 0; i < n; ++i) { if (i) o << ","; if (p[i] == (T) -1 && sizeof(T) >= 4) o << "NA"; else o << (long long) p[i]; } o << "]"; return o.str(); }
template <class T> string ivec(const vector<T>& v) { return ivec(v.data(), v.size()); }

// ---------------------------------------------------------------- options
struct Opt {
	scc_ClusterOptions o;
	Buf<uint32_t> tc; Buf<scc_TypeLabel> tl; Buf<PI> prim;
	bool has_prim = false;
	bool primary(size_t i) const { if (!has_prim) return true; for (size_t k = 0; k < prim.n; ++k) if (prim.p[k] == i) return true; return false; }
};
enum { T_NO = 0, T_MAYBE = 1, T_YES = 2 };
void gen_opt(Rng& r, const Data& D, Opt& O, int types, bool batches, bool ignore_only = false);
string optstr(const Opt& O);

struct Snap {   // snapshot of everything that is read-only for the library
	const Data* D; const Opt* O; vector<double> x; scc_DataSet ds; scc_ClusterOptions o; vector<uint32_t> tc; vector<scc_TypeLabel> tl; vector<PI> prim;
	Snap(const Data& d, const Opt* op) : D(&d), O(op), x(d.x.vec()), ds(*d.ds) { if (op) { o = op->o; tc = op->tc.vec(); tl = op->tl.vec(); prim = op->prim.vec(); } }
	void check(const char* where) const {
		CHECK(x == D->x.vec(), "%s changed the data matrix", where);
		CHECK(ds.data_set_version == D->ds->data_set_version && ds.num_data_points == D->ds->num_data_points && ds.num_dimensions == D->ds->num_dimensions && ds.data_matrix == D->ds->data_matrix, "%s changed the data set object", where);
		if (O) {
			CHECK(!memcmp(&o, &O->o, sizeof o), "%s changed the options struct", where);
			CHECK(tc == O->tc.vec() && tl == O->tl.vec() && prim == O->prim.vec(), "%s changed an options array", where);
		}
	}
};

// a clustering with label storage of the wanted kind
struct Clu {
	scc_Clustering* c = nullptr; Buf<CL> ext; bool is_ext = false;
	Clu() {}
	Clu(const Clu&) = delete;
	void empty(size_t n, bool external, CL fill = 12345) {
		is_ext = external;
		if (external) { ext = Buf<CL>(n); for (size_t i = 0; i < n; ++i) ext[i] = fill; }
		scc_ErrorCode e = scc_init_empty_clustering(n, external ? ext.p : nullptr, &c);
		CHECK(e == SCC_ER_OK && c, "scc_init_empty_clustering(%zu) failed: %d", n, (int) e);
	}
	~Clu() { if (c) scc_free_clustering(&c); }
	vector<CL> labels() const { return (c && c->cluster_label) ? vector<CL>(c->cluster_label, c->cluster_label + c->num_data_points) : vector<CL>(); }
};

struct DG {   // plain digraph
	size_t n = 0; vector<vector<PI>> adj;
	bool operator==(const DG& o) const { return n == o.n && adj == o.adj; }
	size_t arcs() const { size_t a = 0; for (auto& v : adj) a += v.size(); return a; }
};
string dgstr(const DG& g);
void to_lib(const DG& g, iscc_Digraph& out, size_t extra = 0);
DG from_lib(const iscc_Digraph& g, const char* what, bool tight);
DG gen_dg(Rng& r, size_t n, bool simple, bool nonempty);
inline void free_dg(iscc_Digraph& g) { iscc_free_digraph(&g); }

size_t live_blocks();
// labels are assigned only to known clusters of the wanted size
void check_sizes(const Clu& C, size_t n, uint32_t sc, const char* who);

typedef void (*CaseFn)(Rng&, unsigned long idx);
struct Reg { Reg(const char* prop, CaseFn f); };
map<string, CaseFn>& cases();
