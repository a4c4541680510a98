// Model-based checks of the data structures, the MST algorithms and the readers, each driven through an adapter under the sanitizers.
#include "solver.hpp"
#include <algorithm>
#include <cfloat>
#include <array>
#include <numeric>
#include <random>

namespace vf {
namespace {

rc::Gen<int64_t> pick(std::vector<int64_t> v) { return rc::gen::map(inr(0, (int64_t) v.size() - 1), [v](int64_t i) { return v[i]; }); }
rc::Gen<Case> fields(std::vector<std::pair<std::string, rc::Gen<Vec>>> fs) {
    return rc::gen::exec([fs] {
        Case c;
        for (auto &f : fs) c[f.first] = *f.second;
        return c;
    });
}
rc::Gen<Vec> one(rc::Gen<int64_t> g) { return rc::gen::map(std::move(g), [](int64_t v) { return Vec{v}; }); }
rc::Gen<Vec> list(int64_t lo, int64_t hi, rc::Gen<int64_t> g) {     // shrinks by dropping elements
    return rc::gen::mapcat(inr(lo, hi), [g](int64_t n) { return rc::gen::container<Vec>((size_t) n, g); });
}

struct Log {
    std::vector<double> d;
    Iso iso;
    bool ok = false;
    size_t k = 0;
    bool more() const { return k < d.size(); }
    double get() { return k < d.size() ? d[k++] : (k++, NAN); }
    long geti() { double v = get(); return std::isnan(v) ? -999999 : (long) v; }
};
bool complains(const Iso &i) { return i.err.find("runtime error") != std::string::npos || i.err.find("Sanitizer") != std::string::npos; }
double *buffer(long &max) {
    static std::vector<double> b(4000000);
    max = (long) b.size();
    return b.data();
}
// fn fills the buffer and returns how much of it is used
Log observe(const std::function<long(double *, long)> &fn, Outcome &o, bool may_exit = false) {
    Log l;
    long max;
    double *b = buffer(max);
    l.iso = isolated([&](Sink &s) {
        long k = std::min(fn(b, max), max);
        fflush(stdout);
        s.put(b, k * sizeof(double));
        s.finish();
    }, 30);
    if (complains(l.iso)) { o.fail("sanitizer: " + l.iso.err.substr(0, 1500)); return l; }
    if (!l.iso.done()) {
        if (!(may_exit && l.iso.kind == Iso::EXITED)) o.fail("the call " + l.iso.describe());
        return l;
    }
    l.d.resize(l.iso.payload.size() / sizeof(double));
    memcpy(l.d.data(), l.iso.payload.data(), l.d.size() * sizeof(double));
    l.ok = true;
    return l;
}

// ---- graphs ---------------------------------------------------------------------------------------------------
struct E { int s, d, sym; double w, p; };
struct G { int n = 0, cap = 0, hyb = 0; std::vector<double> xy; std::vector<E> e; };
const int CAPS[] = {4, 8, 16, 24, 130, 280};
rc::Gen<Case> genGraph() {                    // one graph in about 60 is large (one in 480: more than 256 nodes), its numbers drawn from a seed
    return rc::gen::mapcat(rc::gen::tuple(inr(1, 24), inr(0, 9), inr(0, 1 << 20)), [](std::tuple<int64_t, int64_t, int64_t> t) {
        int64_t n = std::get<0>(t), st = std::get<1>(t), z = std::get<2>(t);
        static const int64_t pct[] = {100, 100, 100, 80, 60, 40, 25, 15, 5, 0};
        if (z % 60 == 59)
            return rc::gen::map(fields({{"n", one(z % 480 == 59 ? inr(257, 280) : inr(25, 130))}, {"wstyle", one(inr(0, 7))}, {"pstyle", one(inr(0, 3))}, {"flip", one(inr(0, 2))}, {"slack", one(inr(0, 0))},
                                        {"hyb", one(inr(0, 1))}, {"aux", one(inr(0, 3))}, {"seed", one(inr(1, 1 << 30))}}),
                                [st](Case c) { c["pct"] = {pct[st]}; return c; });
        return rc::gen::map(
            fields({{"w", vecOf(n * (n - 1) / 2, inr(0, 1000000))}, {"p", vecOf(n * (n - 1) / 2, inr(0, 10000))}, {"here", vecOf(n * (n - 1) / 2, inr(0, 99))},
                    {"perm", vecOf(n * (n - 1) / 2, inr(0, 1 << 20))}, {"xy", vecOf(2 * n, inr(-100000, 100000))}, {"wstyle", one(inr(0, 7))},
                    {"pstyle", one(inr(0, 3))}, {"flip", one(inr(0, 2))}, {"slack", one(pick({0, 0, 1}))}, {"hyb", one(inr(0, 1))}, {"aux", one(inr(0, 3))}}),
            [n, st](Case c) { c["n"] = {n}; c["pct"] = {pct[st]}; return c; });
    });
}
Case expand(Case c) {
    if (!c.i("seed")) return c;
    std::mt19937_64 r((uint64_t) c.i("seed"));
    auto draw = [&](const char *k, size_t n, int64_t lo, int64_t hi) { Vec v(n); for (auto &x : v) x = lo + (int64_t) (r() % (uint64_t) (hi - lo + 1)); c[k] = v; };
    size_t n = (size_t) c.i("n"), m = n * (n - 1) / 2;
    draw("w", m, 0, 1000000); draw("p", m, 0, 10000); draw("here", m, 0, 99); draw("perm", m, 0, 1 << 20); draw("xy", 2 * n, -100000, 100000);
    return c;
}
G graph(const Case &given) {
    const Case c = expand(given);
    G g;
    g.n = (int) c.i("n");
    g.hyb = (int) c.i("hyb");
    for (int k : CAPS) if (k >= g.n) { g.cap = k; if (!c.i("slack") || k >= 24) break; if (g.n <= k) { for (int q : CAPS) if (q > k) { g.cap = q; break; } break; } }
    for (int64_t v : c.at("xy")) g.xy.push_back(v / 1000.0);
    size_t q = 0;
    std::vector<std::pair<int64_t, E>> es;
    for (int i = 0; i < g.n; i++)
        for (int j = i + 1; j < g.n; j++, q++) {
            if (c.at("here")[q] >= c.i("pct")) continue;
            int64_t r = c.at("w")[q], pr = c.at("p")[q];
            double w = 0, p = 0;
            switch (c.i("wstyle")) {
            case 0: w = 1 + r % 3; break;                        // ties
            case 1: w = 7; break;                                // all equal
            case 2: w = r / 1000.0; break;
            case 3: w = r * 1e6; break;
            case 4: w = r / 1e6 - 0.5; break;                    // what the subgradient makes of the weights
            case 5: w = std::fabs(i - j) + (double) (r % 2); break;
            case 6: w = -1 - (double) (r % 5); break;
            default: w = std::hypot(g.xy[2 * i] - g.xy[2 * j], g.xy[2 * i + 1] - g.xy[2 * j + 1]);
            }
            switch (c.i("pstyle")) {
            case 0: p = pr / 10000.0; break;
            case 1: p = (double) (pr % 3) / 2; break;
            case 2: p = 0; break;
            default: p = (double) (pr % 11) / 10;
            }
            E e{i, j, 0, w, p};
            if (c.i("flip") == 1 || (c.i("flip") == 2 && r % 2)) std::swap(e.s, e.d);
            es.push_back({c.i("aux") ? c.at("perm")[q] : (int64_t) q, e});
        }
    std::stable_sort(es.begin(), es.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &e : es) { e.second.sym = (int) g.e.size() + 1; g.e.push_back(e.second); }
    return g;
}
std::string gname(const G &g) { return fmt("g_n%d_h%d_p1_asan", g.cap, g.hyb); }
struct GApi {
    void (*log)(double *, long); long (*size)(); void (*create)(int, const double *, int, const double *, int); void (*eucl)(int, const double *);
    void (*dump)(); void (*sort)(); void (*mst)(int); void (*print)(int);
    explicit GApi(const std::string &n) {
        const Lib &L = lib(n);
        log = (decltype(log)) L.sym("vg_log"); size = (decltype(size)) L.sym("vg_log_size"); create = (decltype(create)) L.sym("vg_create");
        eucl = (decltype(eucl)) L.sym("vg_euclidean"); dump = (decltype(dump)) L.sym("vg_dump"); sort = (decltype(sort)) L.sym("vg_sort");
        mst = (decltype(mst)) L.sym("vg_mst"); print = (decltype(print)) L.sym("vg_print");
    }
};
std::vector<double> flat(const G &g) {
    std::vector<double> v;
    for (auto &e : g.e) { v.push_back(e.s); v.push_back(e.d); v.push_back(e.w); v.push_back(e.p); }
    return v;
}
struct Dump {
    int kind, n, m, ordered;
    double cost;
    struct V { int pos, deg; double x, y; std::vector<int> nb; };
    struct C { int s, d, sym, pos; double w, p; bool operator==(const C &o) const { return s == o.s && d == o.d && sym == o.sym && pos == o.pos && w == o.w && p == o.p; } };
    std::vector<V> v;
    std::vector<std::array<C, 3>> e;
};
Dump rd_dump(Log &l, int cap) {
    Dump d;
    d.kind = (int) l.geti(); d.cost = l.get(); d.n = (int) l.geti(); d.m = (int) l.geti(); d.ordered = (int) l.geti();
    for (int i = 0; i < d.n && i < cap && l.more(); i++) {
        Dump::V v;
        v.pos = (int) l.geti(); v.x = l.get(); v.y = l.get(); v.deg = (int) l.geti();
        for (int k = 0; k < v.deg && k < cap - 1; k++) v.nb.push_back((int) l.geti());
        d.v.push_back(v);
    }
    for (int k = 0; k < d.m && k < cap * (cap - 1) / 2 && l.more(); k++) {
        std::array<Dump::C, 3> a;
        for (auto &c : a) { c.s = (int) l.geti(); c.d = (int) l.geti(); c.sym = (int) l.geti(); c.w = l.get(); c.p = l.get(); c.pos = (int) l.geti(); }
        d.e.push_back(a);
    }
    return d;
}
// the graph in memory is the model's; order: whether edge k must be the k-th edge of the model
void same_graph(const Dump &d, const G &g, Outcome &o, bool order, const char *when) {
    if (d.n != g.n || d.m != (int) g.e.size()) { o.fail(fmt("%s: %d nodes and %d edges instead of %d and %zu", when, d.n, d.m, g.n, g.e.size())); return; }
    if ((int) d.v.size() != d.n || (int) d.e.size() != d.m) { o.fail(fmt("%s: more nodes or edges than fit", when)); return; }
    double cost = 0, mag = 0;
    for (auto &e : g.e) { cost += e.w; mag += std::fabs(e.w); }
    if (!(std::fabs(cost - d.cost) <= 1e-9 * mag + 1e-12)) o.fail(fmt("%s: cost %.9f instead of %.9f", when, d.cost, cost));
    std::vector<std::vector<int>> nb(g.n);
    std::map<std::pair<int, int>, const E *> at;
    for (auto &e : g.e) { nb[e.s].push_back(e.d); nb[e.d].push_back(e.s); at[{std::min(e.s, e.d), std::max(e.s, e.d)}] = &e; }
    for (int i = 0; i < g.n; i++) {
        auto &v = d.v[i];
        if (v.pos != i) o.fail(fmt("%s: node %d says it is number %d", when, i, v.pos));
        if (v.x != g.xy[2 * i] || v.y != g.xy[2 * i + 1]) o.fail(fmt("%s: node %d at (%.17g, %.17g) instead of (%.17g, %.17g)", when, i, v.x, v.y, g.xy[2 * i], g.xy[2 * i + 1]));
        auto a = v.nb, b = nb[i];
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (v.deg != (int) nb[i].size() || a != b) o.fail(fmt("%s: node %d has wrong neighbours (%d of them)", when, i, v.deg));
    }
    std::set<std::pair<int, int>> seen;
    for (int k = 0; k < d.m; k++) {
        auto &c = d.e[k][0];
        auto key = std::make_pair(std::min(c.s, c.d), std::max(c.s, c.d));
        auto it = at.find(key);
        if (it == at.end() || !seen.insert(key).second) { o.fail(fmt("%s: edge %d-%d does not exist or comes twice", when, c.s, c.d)); continue; }
        const E &e = *it->second;
        if (c.w != e.w || c.p != e.p || c.sym != e.sym || c.s != e.s || c.d != e.d)
            o.fail(fmt("%s: edge %d-%d has symbol %d weight %.17g prob %.17g instead of %d %.17g %.17g", when, c.s, c.d, c.sym, c.w, c.p, e.sym, e.w, e.p));
        if (c.pos != k) o.fail(fmt("%s: edge %d says it is number %d", when, k, c.pos));
        if (!(d.e[k][1] == c) || !(d.e[k][2] == c)) o.fail(fmt("%s: the matrix disagrees with edge %d-%d (weights %.17g %.17g, positions %d %d)", when, c.s, c.d, d.e[k][1].w, d.e[k][2].w, d.e[k][1].pos, d.e[k][2].pos));
        if (order && c.sym != k + 1) o.fail(fmt("%s: edge number %d is the %d-th of the input", when, k, c.sym));
    }
}
void classify(const G &g, const Case &c, Outcome &o) {
    o.label(fmt("weights %ld", (long) c.i("wstyle")));
    if (g.n > 24) o.label("large");
    o.label(g.e.empty() ? "no edges" : g.e.size() == (size_t) g.n * (g.n - 1) / 2 ? "complete" : "incomplete");
}

// ---- C18 minimum spanning trees -----------------------------------------------------------------------------------
struct Span { std::vector<std::pair<double, double>> best; int comps; };
Span span(const G &g) {                       // lexicographically best spanning forest: least weight, then greatest probability
    std::vector<E> e = g.e;
    std::sort(e.begin(), e.end(), [](const E &a, const E &b) { return a.w != b.w ? a.w < b.w : a.p > b.p; });
    std::vector<int> id(g.n);
    std::iota(id.begin(), id.end(), 0);
    Span s;
    for (auto &x : e)
        if (id[x.s] != id[x.d]) {
            int a = id[x.s], b = id[x.d];
            for (int &v : id) if (v == a) v = b;
            s.best.push_back({x.w, x.p});
        }
    s.comps = g.n - (int) s.best.size();
    return s;
}
void c18(const Case &c, Outcome &o) {
    G g = graph(c);
    classify(g, c, o);
    Span best = span(g);
    bool sorted_first = c.i("aux") == 3;
    GApi a(gname(g));
    auto f = flat(g);
    Log l = observe([&](double *b, long max) {
        a.log(b, max);
        a.create(g.n, g.xy.data(), (int) g.e.size(), f.data(), 0);
        if (sorted_first) a.sort();
        a.mst(1);
        a.mst(0);
        a.mst(1);
        a.dump();
        return a.size();
    }, o);
    if (!l.ok) return;
    l.geti();
    for (int round = 0; round < 3; round++) {
        bool kr = round == 1;
        const char *who = kr ? "Kruskal" : "Prim";
        bool valid = l.geti() != 0;
        double cost = l.get(), prob = l.get();
        int n = (int) l.geti(), m = (int) l.geti();
        if (n != g.n) o.fail(fmt("%s: %d nodes instead of %d", who, n, g.n));
        if (m != (int) best.best.size()) { o.fail(fmt("%s: %d edges, a spanning forest of this graph has %zu", who, m, best.best.size())); return; }
        if (valid != (best.comps == 1)) o.fail(fmt("%s: isValid = %d on a graph of %d components", who, valid, best.comps));
        std::vector<std::pair<double, double>> got;
        std::vector<int> id(g.n), deg(g.n, 0);
        std::vector<std::set<int>> nb(g.n);
        std::iota(id.begin(), id.end(), 0);
        double sw = 0, sp = 0, mag = 1;
        for (int k = 0; k < m; k++) {
            int s = (int) l.geti(), d = (int) l.geti();
            double w = l.get(), p = l.get();
            int pos = (int) l.geti(), m1 = (int) l.geti(), m2 = (int) l.geti();
            if (s < 0 || d < 0 || s >= g.n || d >= g.n) { o.fail(fmt("%s: edge %d-%d", who, s, d)); return; }
            bool real = false;
            for (auto &e : g.e) if (std::minmax(e.s, e.d) == std::minmax(s, d)) real = e.w == w && e.p == p;
            if (!real) o.fail(fmt("%s: %d-%d of weight %.17g is not an edge of the graph", who, s, d, w));
            if (pos != k || m1 != k || m2 != k) o.fail(fmt("%s: edge %d is number %d, the matrix says %d and %d", who, k, pos, m1, m2));
            if (id[s] == id[d]) o.fail(fmt("%s: %d-%d closes a cycle", who, s, d));
            int q = id[s];
            for (int &v : id) if (v == q) v = id[d];
            nb[s].insert(d); nb[d].insert(s);
            got.push_back({w, p});
            sw += w; sp += p; mag += std::fabs(w);
        }
        for (int i = 0; i < n && i < g.n; i++) {
            int pos = (int) l.geti(), d = (int) l.geti();
            double x = l.get(), y = l.get();
            if (x != g.xy[2 * i] || y != g.xy[2 * i + 1]) o.fail(fmt("%s: node %d of the tree is not at the place of the graph's", who, i));
            std::set<int> s;
            for (int k = 0; k < d && k < g.cap - 1; k++) s.insert((int) l.geti());
            if (pos != i || d != (int) nb[i].size() || s != nb[i]) o.fail(fmt("%s: node %d of the tree has wrong neighbours", who, i));
        }
        std::sort(got.begin(), got.end());
        auto ref = best.best;
        std::sort(ref.begin(), ref.end());
        double gc = 0, rc_ = 0;
        bool same_w = true;
        for (int k = 0; k < m; k++) { gc += got[k].first; rc_ += ref[k].first; same_w = same_w && got[k].first == ref[k].first; }
        if (!same_w) o.fail(fmt("%s: a spanning tree of weight %.9f, the minimum is %.9f", who, gc, rc_));
        if (kr && g.hyb && got != ref) o.fail("Kruskal, hybrid: equal weights were not decided by the greater probability");
        if (!(std::fabs(cost - sw) <= 1e-9 * mag)) o.fail(fmt("%s: cost %.9f, the edges weigh %.9f", who, cost, sw));
        double mean = g.hyb && m ? sp / m : 0;
        if (!(std::fabs(prob - mean) <= 1e-5)) o.fail(fmt("%s: probability %.9f instead of %.9f", who, prob, mean));
    }
    Dump d = rd_dump(l, g.cap);
    same_graph(d, g, o, false, "after the MSTs");
    if (best.comps > 1) o.label("disconnected");
    o.nontrivial = (int) g.e.size() > g.n - best.comps && g.n >= 3;
}
Registrar r18({"C18", "weighted graphs of 1..24 nodes (one in 60: up to 130, one in 480: up to 280), 0-100 % of the edges, negative weights and ties, edges in any order and orientation; non-trivial = there is more than one spanning forest",
               [](int) { return genGraph(); }, c18, 1200, 40000});

// ---- C21 the order of the edges -------------------------------------------------------------------------------------
void c21(const Case &c, Outcome &o) {
    G g = graph(c);
    classify(g, c, o);
    GApi a(gname(g));
    auto f = flat(g);
    Log l = observe([&](double *b, long max) {
        a.log(b, max);
        a.create(g.n, g.xy.data(), (int) g.e.size(), f.data(), 0);
        a.sort();
        a.dump();
        if (c.i("aux") > 1) { a.sort(); a.dump(); }
        return a.size();
    }, o);
    if (!l.ok) return;
    l.geti();
    for (int round = 0; round < (c.i("aux") > 1 ? 2 : 1); round++) {
        Dump d = rd_dump(l, g.cap);
        same_graph(d, g, o, false, "after sorting");
        if (!d.ordered) o.fail("the graph does not count as sorted");
        for (int k = 0; k + 1 < (int) d.e.size(); k++) {
            auto &p = d.e[k][0], &q = d.e[k + 1][0];
            if (p.w > q.w) o.fail(fmt("edge %d weighs %.17g, the next one %.17g", k, p.w, q.w));
            if (g.hyb && p.w == q.w && p.p < q.p) o.fail(fmt("equal weights, but probability %.9f comes before %.9f", p.p, q.p));
        }
    }
    std::set<double> ws;
    for (auto &e : g.e) ws.insert(e.w);
    if (ws.size() < g.e.size()) o.label("ties");
    o.nontrivial = g.e.size() >= 3 && ws.size() > 1;
}
Registrar r21({"C21", "edge arrays of 0..276 edges (one in 60: up to 8385, one in 480: up to 39060) in any order, with ties; non-trivial = at least three edges and two weights",
               [](int) { return genGraph(); }, c21, 1800, 40000});

// ---- C23 building and printing graphs ----------------------------------------------------------------------------------
struct Line { int sym, s, d; double w, p; };
std::vector<Line> edge_lines(const std::string &t, bool &bad) {
    std::vector<Line> v;
    size_t at = 0;
    while (at < t.size()) {
        size_t e = t.find('\n', at);
        if (e == std::string::npos) e = t.size();
        std::string s = t.substr(at, e - at);
        at = e + 1;
        if (s.compare(0, 4, "Edge") || s.compare(0, 6, "Edges:") == 0) continue;
        Line l;
        if (sscanf(s.c_str(), "Edge%d: %d <--> %d weight = %lf prob = %lf", &l.sym, &l.s, &l.d, &l.w, &l.p) != 5) bad = true;
        else v.push_back(l);
    }
    return v;
}
void c23(const Case &c, Outcome &o) {
    G g = graph(c);
    bool eucl = c.i("how") == 1;
    int what = (int) c.i("print");
    if (eucl) {
        g.e.clear();
        for (int i = 0; i < g.n; i++)
            for (int j = i + 1; j < g.n; j++) g.e.push_back({i, j, (int) g.e.size() + 1, 0, 0});
        for (auto &e : g.e) e.w = (float) std::sqrt(std::pow(g.xy[2 * e.s] - g.xy[2 * e.d], 2) + std::pow(g.xy[2 * e.s + 1] - g.xy[2 * e.d + 1], 2));
    }
    classify(g, c, o);
    GApi a(gname(g));
    auto f = flat(g);
    Log l = observe([&](double *b, long max) {
        a.log(b, max);
        if (eucl) a.eucl(g.n, g.xy.data());
        else a.create(g.n, g.xy.data(), (int) g.e.size(), f.data(), 0);
        a.dump();
        if (what == 3) a.sort();
        a.print(what % 3);
        return a.size();
    }, o);
    if (!l.ok) return;
    long left = l.geti();
    if (left != 0) o.fail(fmt("%ld list blocks are left over after building the graph", left));
    Dump d = rd_dump(l, g.cap);
    if (eucl)
        for (size_t k = 0; k < d.e.size() && k < g.e.size(); k++) {       // distances up to rounding
            int i = d.e[k][0].s, j = d.e[k][0].d;
            for (auto &e : g.e)
                if (e.s == i && e.d == j && std::fabs(e.w - d.e[k][0].w) <= 1e-6 * (1e-3 + e.w)) e.w = d.e[k][0].w;
        }
    same_graph(d, g, o, true, eucl ? "Euclidean graph" : "graph");
    if (d.ordered) o.fail("a new graph counts as sorted");
    bool bad = false;
    auto ls = edge_lines(l.iso.out, bad);
    if (bad) o.fail("an edge line cannot be read: " + l.iso.out.substr(0, 400));
    size_t want = what % 3 == 0 ? g.e.size() : span(g).best.size();
    if (ls.size() != want) o.fail(fmt("%zu of %zu edges printed", ls.size(), want));
    std::set<int> seen;
    for (auto &x : ls) {
        if (x.sym < 1 || x.sym > (int) g.e.size() || !seen.insert(x.sym).second) { o.fail(fmt("edge %d is printed twice or does not exist", x.sym)); continue; }
        const E &e = g.e[x.sym - 1];
        double p = e.p;
        if (x.s != e.s || x.d != e.d || !(std::fabs(x.w - e.w) <= 1e-6 + 1e-9 * std::fabs(e.w)) || !(std::fabs(x.p - p) <= 1e-6))
            o.fail(fmt("edge %d (%d-%d, %.6f, %.6f) is printed as %d-%d, %.6f, %.6f", x.sym, e.s, e.d, e.w, p, x.s, x.d, x.w, x.p));
    }
    if (what % 3 == 0) {
        int n = -1, m = -1;
        if (sscanf(l.iso.out.c_str(), "Nodes: %d", &n) != 1 || n != g.n) o.fail(fmt("%d nodes printed instead of %d", n, g.n));
        size_t at = l.iso.out.find("Edges: ");
        if (at == std::string::npos || sscanf(l.iso.out.c_str() + at, "Edges: %d", &m) != 1 || m != (int) g.e.size()) o.fail("number of edges printed");
    }
    o.label(eucl ? "euclidean" : "from lists");
    o.nontrivial = g.e.size() >= 3;
}
Registrar r23({"C23", "graphs of 1..24 nodes (one in 60: up to 130, one in 480: up to 280) from edge lists or from coordinates, printed in the three ways; non-trivial = at least three edges",
               [](int) {
                   return rc::gen::mapcat(genGraph(), [](Case c) {
                       return rc::gen::map(rc::gen::pair(inr(0, 1), inr(0, 3)), [c](std::pair<int64_t, int64_t> t) { Case k = c; k["how"] = {t.first}; k["print"] = {t.second}; return k; });
                   });
               },
               c23, 1500, 40000});

// ---- C19 Fibonacci heap ---------------------------------------------------------------------------------------------
void c19(const Case &c, Outcome &o) {
    const Vec &r = c.at("ops");
    std::vector<double> ops;
    for (size_t k = 0; k + 2 < r.size(); k += 3) {
        int64_t z = r[k] % 100, a = r[k + 1], b = r[k + 2];
        double scale = c.i("wide") == 2 ? 1e9 : 1;
        if (z < 38) { ops.insert(ops.end(), {0, c.i("wide") ? a * scale : (double) (a % 7), 0}); }
        else if (z < 52) ops.insert(ops.end(), {1, 0, 0});
        else if (z < 56) ops.insert(ops.end(), {7, 0, (double) b});
        else if (z < 92) ops.insert(ops.end(), {2, c.i("wide") ? a * scale / 3 : (double) (a % 4), (double) b});
        else if (z < 97) ops.insert(ops.end(), {3, (double) (a % (b % 3 ? 40 : 600)), (double) (b % 50)});
        else ops.insert(ops.end(), {b % 2 ? 4. : 5., (double) (2 + a % 2), 0});
    }
    if (int64_t big = c.i("big")) {      // thin out one large regular tree, then go on with the script
        std::vector<double> pre = {6, (double) (big % 100), 0, big / 100 % 2 ? 4. : 5., 2, 0, 1, 0, 0};
        ops.insert(ops.begin(), pre.begin(), pre.end());
    }
    const Lib &L = lib("h_n8_h0_p1_asan");
    auto run = (void (*)(long, const double *, double *, long, long *)) L.sym("vh_run");
    Log l = observe([&](double *b, long max) { long used = 0; run((long) ops.size() / 3, ops.data(), b, max, &used); return used; }, o);
    if (!l.ok) return;
    std::map<long, double> model;
    std::multiset<double> vals;
    long inserts = 0, decreases = 0, extracts = 0, after_dec = 0;
    while (l.more() && o.ok) {
        long e = l.geti(), k = l.geti();
        double v = l.get();
        if (e == 1) { model[k] = v; vals.insert(v); inserts++; }
        else if (e == 2) { vals.erase(vals.find(model[k])); model[k] = v; vals.insert(v); decreases++; }
        else if (e == 4) {
            vals.erase(vals.find(model[k]));
            model.erase(k);
            o.label("deletions");
            if (v != (double) model.size()) o.fail(fmt("%g nodes counted after a deletion, %zu present", v, model.size()));
        }
        else {
            if (model.empty()) {
                if (k != -1) o.fail(fmt("extraction from an empty heap returned %ld", k));
                if (v != 0) o.fail(fmt("an empty heap counts %g nodes", v));
                continue;
            }
            auto it = model.find(k);
            if (it == model.end()) { o.fail(fmt("extracted %ld, which is not in the heap of %zu nodes (after %ld insertions, %ld decreases)", k, model.size(), inserts, decreases)); break; }
            if (it->second != *vals.begin()) o.fail(fmt("extracted node %ld of value %g, the least value is %g", k, it->second, *vals.begin()));
            vals.erase(vals.begin());
            model.erase(it);
            extracts++;
            if (decreases) after_dec++;
            if (v != (double) model.size()) o.fail(fmt("%g nodes counted, %zu present", v, model.size()));
        }
    }
    if (o.ok && !model.empty()) o.fail(fmt("%zu nodes were never returned", model.size()));
    for (size_t k = 0; k < ops.size(); k += 3) if (ops[k] == 4) { o.label("thinned tree"); break; }
    o.label(inserts > 4000 ? "huge" : inserts > 300 ? "large" : inserts > 30 ? "medium" : "small");
    o.nontrivial = after_dec >= 3 && inserts >= 5;
}
Registrar r19({"C19", "scripts of 1..90 insertions, extractions, decreases, deletions, runs of insertions and adversarial thinnings of the fattest tree, then the heap is emptied; "
                      "non-trivial = at least three extractions after a decrease",
               [](int) {
                   return rc::gen::mapcat(inr(1, 90), [](int64_t n) {
                       return fields({{"ops", rc::gen::map(rc::gen::container<std::vector<Vec>>((size_t) n, vecOf(3, inr(0, 9999))),
                                                           [](const std::vector<Vec> &v) { Vec f; for (auto &x : v) f.insert(f.end(), x.begin(), x.end()); return f; })},
                                      {"wide", one(inr(0, 2))},
                                      {"big", rc::gen::map(inr(0, 199), [](int64_t v) { return Vec{v < 190 ? 0 : (v - 190) / 2 + 8 + v % 2 * 100}; })}});
                   });
               },
               c19, 1500, 60000});

// ---- C20 merge-find sets -------------------------------------------------------------------------------------------
// one case in 40 is large, its script drawn from a seed; half of these first merge in rounds, equals with equals
Case big20(Case c) {
    if (!c.i("seed")) return c;
    std::mt19937_64 r((uint64_t) c.i("seed"));
    int64_t n = c.i("n"), left = c.i("nops");
    Vec v;
    std::vector<int64_t> p(n - (c.i("cand") >= 0));
    std::iota(p.begin(), p.end(), 0);
    std::shuffle(p.begin(), p.end(), r);
    if (c.i("seed") % 2)
        for (size_t step = 1; step < p.size(); step *= 2)
            for (size_t i = 0; i + step < p.size() && left > 0; i += 2 * step, left--) v.insert(v.end(), {(int64_t) (r() % 2), p[i + r() % step], p[i + step]});
    for (; left > 0; left--) v.insert(v.end(), {(int64_t) (r() % 3), (int64_t) (r() % 10000), (int64_t) (r() % 10000)});
    c["ops"] = v;
    return c;
}
void c20(const Case &given, Outcome &o) {
    const Case c = big20(given);
    int n = (int) c.i("n"), cand = -1;
    if (c.i("cand") >= 0 && n >= 2) cand = (int) (c.i("cand") % n);
    int cap = n <= 3 && !c.i("slack") ? 3 : n <= 8 && c.i("slack") < 2 ? 8 : 24;
    if (n > cap) cap = n <= 24 ? 24 : 320;
    std::vector<long> ops;
    const Vec &r = c.at("ops");
    std::vector<int> ids;
    for (int i = 0; i < n; i++) if (i != cand) ids.push_back(i);
    for (size_t k = 0; k + 2 < r.size(); k += 3) {
        ops.push_back(r[k] % 3);
        ops.push_back(ids[r[k + 1] % ids.size()]);
        ops.push_back(ids[r[k + 2] % ids.size()]);
    }
    long nops = (long) ops.size() / 3;
    const Lib &L = lib(fmt("u_n%d_h0_p1_asan", cap));
    auto run = (void (*)(int, int, long, const long *, double *)) L.sym("vu_run");
    long total = 1, dumps = 0;
    for (long k = -1; k < nops; k++) if (k < 0 || k % 3 == 0) dumps++;
    total += (dumps + 1) * (n + 1) + n;
    Log l = observe([&](double *b, long) { run(n, cand, nops, ops.data(), b); return total; }, o);
    if (!l.ok) return;
    int want_sets = cand >= 0 ? n - 1 : n;
    if (l.geti() != want_sets) o.fail("number of sets of a new forest");
    std::vector<int> id(n);
    std::iota(id.begin(), id.end(), 0);
    int merges = 0;
    auto compare = [&](long k) {
        if (l.geti() != -1) { o.fail("log out of step"); return; }
        std::vector<long> rep(n);
        for (auto &x : rep) x = l.geti();
        for (int i = 0; i < n && o.ok; i++) {
            if (i == cand) { if (rep[i] != -2) o.fail("candidate"); continue; }
            if (rep[i] < 0 || rep[i] >= n || rep[i] == cand || id[rep[i]] != id[i]) { o.fail(fmt("after operation %ld the representative of %d is %ld, outside its set", k, i, rep[i])); return; }
            for (int j = 0; j < i; j++)
                if (j != cand && (rep[i] == rep[j]) != (id[i] == id[j]))
                    o.fail(fmt("after operation %ld: %d and %d are %s", k, j, i, id[i] == id[j] ? "in one set but have different representatives" : "in different sets but share their representative"));
        }
    };
    for (long k = -1; k < nops && o.ok; k++) {
        if (k >= 0) {
            int a = (int) ops[3 * k + 1], b = (int) ops[3 * k + 2];
            if (ops[3 * k] < 2 && id[a] != id[b]) { int q = id[a]; for (int &v : id) if (v == q) v = id[b]; merges++; }
            if (k % 3) continue;
        }
        compare(k);
    }
    if (o.ok) compare(nops);
    for (int i = 0; i < n && o.ok; i++) if (l.get() != (i == cand ? 1 : 1)) o.fail(fmt("set %d lost its node", i));
    if (cand >= 0) o.label("constrained");
    if (n > 24) o.label("sets:25-320");
    o.nontrivial = merges >= 2;
}
Registrar r20({"C20", "forests of 1..24 (one in 40: up to 320) sets, with or without the candidate node, and scripts of up to 60 (420) merges (of elements or of roots) and finds; non-trivial = at least two real merges",
               [](int) {
                   return rc::gen::mapcat(inr(0, 40 * 61 - 1), [](int64_t z) {
                       int64_t n = z / 40;
                       if (z % 40 == 39) return fields({{"n", one(inr(25, 320))}, {"cand", one(inr(-160, 319))}, {"slack", one(inr(0, 0))}, {"nops", one(inr(0, 420))}, {"seed", one(inr(1, 1 << 30))}});
                       return fields({{"ops", vecOf(3 * n, inr(0, 9999))}, {"n", one(inr(1, 24))}, {"cand", one(inr(-12, 23))}, {"slack", one(inr(0, 2))}});
                   });
               },
               c20, 2000, 60000});

// ---- C22 lists ---------------------------------------------------------------------------------------------------------
void c22(const Case &given, Outcome &o) {
    Case c = given;
    if (c.i("seed")) {                            // one case in 60 is long and mostly grows
        std::mt19937_64 g((uint64_t) c.i("seed"));
        Vec v;
        for (int64_t k = 0; k < c.i("nops"); k++) v.insert(v.end(), {(int64_t) (g() % (g() % 8 ? 60 : 100)), (int64_t) (g() % 10000)});
        c["ops"] = v;
    }
    int sub = (int) c.i("sub");
    std::vector<long> ops;
    std::vector<double> model, want;
    auto dump = [&] {
        want.push_back((double) model.size());
        want.push_back(model.empty());
        for (size_t i = 0; i < model.size(); i += model.size() > 2000 ? model.size() / 8 : 1) want.push_back(model[i]);
        want.push_back(1);
        want.insert(want.end(), model.begin(), model.end());
        want.push_back(-7);
        want.push_back(0);
        want.push_back(1);
        want.insert(want.end(), model.rbegin(), model.rend());
        want.push_back(-7);
    };
    dump();
    const Vec &r = c.at("ops");
    size_t quiet = (size_t) c.i("quiet");         // so many insertions at the end come first, and are only read at the end
    size_t peak = 0, removed = 0;
    for (size_t k = 0; k + 1 < r.size(); k += 2) {
        int64_t z = k / 2 < quiet ? 0 : r[k] % 100;
        // beyond-the-end indices included
        long idx = (long) (r[k + 1] % (int64_t) (model.size() + 3));
        long kind = z < 25 ? 0 : z < 60 ? 1 : z < 75 ? 2 : 3;
        ops.push_back(kind);
        ops.push_back(idx);
        size_t i = k / 2;
        double v = sub ? (double) (i + 1) + 1e6 * (double) (i % 7) : (double) (i + 1);
        if (kind == 0) model.push_back(v);
        else if (kind == 1) { if (idx <= (long) model.size()) model.insert(model.begin() + idx, v); }
        else if (kind == 2) { if (!sub && !model.empty()) { model.pop_back(); removed++; } }
        else if (idx < (long) model.size()) { model.erase(model.begin() + idx); removed++; }
        peak = std::max(peak, model.size());
        if (k / 2 >= quiet) dump();
    }
    want.insert(want.end(), {0, 1, 1, 1});
    want.push_back(0);
    const Lib &L = lib("l_n6_h0_p1_asan");
    auto run = (void (*)(int, long, long, const long *, double *, long, long *)) L.sym("vl_run");
    Log l = observe([&](double *b, long max) { long used = 0; run(sub, (long) quiet, (long) ops.size() / 2, ops.data(), b, max, &used); return used; }, o);
    if (!l.ok) return;
    size_t k = 0;
    while (k < want.size() && k < l.d.size() && want[k] == l.d[k]) k++;
    if (k < want.size() || k < l.d.size()) {
        if (k + 1 == want.size() && l.d.size() == want.size()) o.fail(fmt("%g blocks were not freed", l.d[k]));
        else o.fail(fmt("observation %zu of %zu is %g, the model says %g", k, want.size(), k < l.d.size() ? l.d[k] : NAN, k < want.size() ? want[k] : NAN));
    }
    o.label(sub ? "SubProblemsList" : "List");
    if (peak > 65535) o.label("elements:65536-");
    else if (peak > 255) o.label("elements:256-");
    o.nontrivial = peak >= 3 && removed >= 1;
}
Registrar r22({"C22", "scripts of up to 40 (one in 60: 320, one in 2500: 66000) insertions and deletions at the end or at an index (also beyond the end); after each one the list is read by index, by iterator and backwards; "
                      "non-trivial = three elements at once and a deletion",
               [](int) {
                   return rc::gen::mapcat(inr(0, 60 * 41), [](int64_t z) {
                       if (z == 60 * 41) return fields({{"nops", one(inr(66001, 66003))}, {"quiet", one(inr(66000, 66000))}, {"seed", one(inr(1, 1 << 30))}, {"sub", one(inr(0, 1))}});
                       if (z % 60 == 59) return fields({{"nops", one(inr(41, 320))}, {"seed", one(inr(1, 1 << 30))}, {"sub", one(inr(0, 1))}});
                       return fields({{"ops", vecOf(2 * (z / 60), inr(0, 9999))}, {"sub", one(inr(0, 1))}});
                   });
               },
               c22, 2500, 60000});

// ---- C24, C25 the readers --------------------------------------------------------------------------------------------------
std::string num(int64_t r, int style, double scale) {
    double v = r * scale;
    switch (style) {
    case 0: return fmt("%.17g", v);
    case 1: return fmt("%g", v);
    case 2: return fmt("%.6f", v);
    case 3: return fmt("%.3e", v);
    case 4: return fmt("%.0f", v);
    default: return fmt("+%.2f", std::fabs(v));
    }
}
Log read_file(const G &g, int tsplib, const std::string &text, Outcome &o, bool missing = false) {
    MemFile f(text);
    const Lib &L = lib(fmt("r_n%d_h%d_p1_asan", g.cap, g.hyb));
    auto run = (void (*)(int, char *, double *, long, long *)) L.sym("vr_read");
    std::string path = missing ? std::string("/nonexistent/vf.csv") : f.path();
    return observe([&](double *b, long max) { long used = 0; run(tsplib, (char *) path.c_str(), b, max, &used); return used; }, o, true);
}
int rcap(const Case &c, int n) { static const int k[] = {3, 6, 12, 60, 280}; for (int i = 0; i < 4; i++) if (k[i] >= n) return c.i("slack") && i < 2 ? k[i + 1] : k[i]; return 280; }
rc::Gen<int64_t> file_size() { return rc::gen::map(inr(0, 480), [](int64_t z) { return z == 480 ? 280 : z < 468 ? 1 + z % 12 : 13 + (z - 468) * 47 / 11; }); }
void rejected(const Log &l, Outcome &o, const char *why) {
    if (l.iso.done()) o.fail(fmt("accepted although %s", why));
    else if (l.iso.kind != Iso::EXITED || l.iso.code == 0) o.fail(fmt("%s: %s", why, l.iso.describe().c_str()));
}
const char *GARBAGE[] = {"abc", "(1.5)", "1.5, 2", "(x, 0.5)", "(0.5, y)", "()", "(, )", "[1, 2]"};
void c24(const Case &c, Outcome &o) {
    G g;
    g.n = (int) c.i("n");
    g.hyb = (int) c.i("hyb");
    g.cap = rcap(c, g.n);
    int bad = (int) c.i("bad");                // 0 none 1 garbage 2 nodes 3 rows 4 columns 5 no such file
    int nh = g.n, nr = g.n, nc = g.n, extra = 1 + (int) (c.i("where") % 40);
    if (bad == 2 || bad == 3 || bad == 4) {
        int big = g.cap + extra;
        nh = bad == 2 ? big : g.n;
        nr = bad == 2 || bad == 3 ? big : g.n;
        nc = bad == 2 || bad == 4 ? big : g.n;
    }
    const Vec &w = c.at("w"), &s = c.at("st");
    auto rw = [&](size_t k) { return w[k % w.size()]; };
    auto rs = [&](size_t k) { return (int) s[k % s.size()]; };
    const char *sep = c.i("space") ? ", " : ",";
    std::string t;
    std::string gar = GARBAGE[c.i("where") % 8];
    bool in_header = c.i("where") % 3 == 0;
    int gi = (int) (c.i("where2") % g.n), gj = (int) (c.i("where3") % g.n);
    if (gi == gj) { if (g.n == 1) in_header = true; else gj = (gi + 1) % g.n; }
    static const double scales[] = {1e-6, 1e-3, 1, 1e-9};
    double scale = scales[c.i("scale")];
    for (int i = 0; i < nh; i++) {
        std::string x = num(rw(2 * i) - 500000, rs(i), scale), y = num(rw(2 * i + 1) - 500000, rs(i + 1), scale);
        if (i < g.n) { g.xy.push_back(atof(x.c_str())); g.xy.push_back(atof(y.c_str())); }
        std::string tok = "(" + x + sep + y + ")";
        if (bad == 1 && in_header && i == gi) tok = gar;
        t += tok + (i + 1 < nh || c.i("tail") % 2 ? ";" : "");
    }
    t += "\n";
    int N = std::max(nr, nc);
    for (int i = 0; i < nr; i++) {
        for (int j = 0; j < nc; j++) {
            int a = std::min(i, j), b = std::max(i, j);
            size_t q = (size_t) a * N + b;
            std::string ws = num(rw(q * 3 + 7) + 1, rs(q), scale), ps = fmt(rs(q + 3) % 2 ? "%.17g" : "%.4f", (double) rw(q + 11) / 1000000);
            if (rw(q * 5 + 1) % 100 < c.i("gaps")) ws = rs(q) % 3 == 2 && isdigit(ws[0]) ? "-" + ws : rs(q) % 2 ? "0" : "0.0";   // anything not positive is no edge
            if (i == j) ws = "0.0", ps = "0.0";
            else if (i < j && i < g.n && j < g.n && atof(ws.c_str()) > 0) g.e.push_back({i, j, (int) g.e.size() + 1, atof(ws.c_str()), g.hyb ? atof(ps.c_str()) : 0});
            std::string tok = "(" + ws + sep + ps + ")";
            if (bad == 1 && !in_header && i == gi && j == gj) tok = gar;
            t += tok + (j + 1 < nc || c.i("tail") != 1 ? ";" : "");
        }
        if (i + 1 < nr || c.i("tail") != 3) t += "\n";
    }
    Log l = read_file(g, 0, t, o, bad == 5);
    if (!o.ok) return;
    static const char *why[] = {"", "a field is malformed", "there are more nodes than the built-in maximum", "there are more rows than the built-in maximum",
                                "there are more columns than the built-in maximum", "the file does not exist"};
    o.label(bad ? std::string("bad: ") + why[bad] : g.e.size() == (size_t) g.n * (g.n - 1) / 2 ? "complete" : "incomplete");
    if (bad) { rejected(l, o, why[bad]); o.nontrivial = true; return; }
    if (!l.ok) { o.fail("a well-formed file: " + l.iso.describe()); return; }
    Dump d = rd_dump(l, g.cap);
    same_graph(d, g, o, true, "CSV");
    if (d.kind != 0) o.fail("not a weighted graph");
    if (d.ordered) o.fail("a new graph counts as sorted");
    if (l.geti() != 0) o.fail("the reader does not free what it allocates");
    o.nontrivial = g.e.size() >= 2;
}
Registrar r24({"C24", "CSV files of 1..12, sometimes up to 60 or 280, nodes in six number formats, with and without spaces, trailing separators and final newline, complete or not (absent edges as 0 or as negative entries); a third malformed, oversized or missing; "
                      "non-trivial = rejected, or at least two edges",
               [](int) {
                   return fields({{"n", one(file_size())}, {"hyb", one(inr(0, 1))}, {"slack", one(inr(0, 1))}, {"bad", one(pick({0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5}))},
                                  {"where", one(inr(0, 9999))}, {"where2", one(inr(0, 9999))}, {"where3", one(inr(0, 9999))}, {"w", vecOf(97, inr(0, 1000000))},
                                  {"st", vecOf(23, inr(0, 5))}, {"space", one(inr(0, 1))}, {"tail", one(inr(0, 3))}, {"scale", one(inr(0, 3))}, {"gaps", one(pick({0, 0, 10, 40, 100}))}});
               },
               c24, 1300, 60000});

void c25(const Case &c, Outcome &o) {
    G g;
    g.n = (int) c.i("n");
    g.cap = rcap(c, g.n);
    int bad = (int) c.i("bad");            // 0 none 1 other weight type 2 no weight type 3 too many nodes 4 malformed line 5 no such file
    int count = bad == 3 ? g.cap + 1 + (int) (c.i("where") % 40) : g.n;
    const Vec &w = c.at("w"), &s = c.at("st");
    static const char *types[] = {"GEO", "ATT", "EXPLICIT", "EUC_3D", "CEIL_2D", "MAN_2D", "UPPER_ROW", "SPECIAL"};
    static const char *colon[] = {" : ", ": ", " :", ":"};
    std::string ct = colon[c.i("where2") % 4];
    std::vector<std::string> head = {"NAME" + ct + "random" + fmt("%d", count), "COMMENT" + ct + (c.i("where3") % 2 ? "distances are EUC_2D" : "generated"),
                                     "TYPE" + ct + "TSP", fmt("DIMENSION%s%d", ct.c_str(), count)};
    std::string type = bad == 1 ? types[c.i("where") % 8] : "EUC_2D";
    // the numbers of the nodes: 1, 2, 3... or in another order, or with gaps; only the order of the lines counts
    std::vector<int> id;
    for (int i = 0; i < count; i++) id.push_back(i + 1);
    if (c.i("ids") % 3 == 1) for (int i = count - 1; i > 0; i--) std::swap(id[i], id[(c.i("ids") / 3 + 7 * i) % (i + 1)]);
    if (c.i("ids") % 3 == 2) for (auto &k : id) k = k * 3 + (int) (c.i("ids") / 3);
    if (bad != 2) head.insert(head.begin() + c.i("where3") % (head.size() + 1), "EDGE_WEIGHT_TYPE" + ct + (ct.back() == ':' && c.i("where") % 2 ? " " : "") + type);
    std::string t;
    for (auto &h : head) t += h + "\n";
    t += "NODE_COORD_SECTION\n";
    static const double scales[] = {1e-3, 1, 1e-6};
    std::vector<std::pair<float, float>> pt;
    for (int i = 0; i < count; i++) {
        std::string x = num(w[(2 * i) % w.size()] - 500000, (int) s[i % s.size()], scales[c.i("scale")]), y = num(w[(2 * i + 1) % w.size()] - 500000, (int) s[(i + 5) % s.size()], scales[c.i("scale")]);
        pt.push_back({strtof(x.c_str(), nullptr), strtof(y.c_str(), nullptr)});
        static const char *gar[] = {"1 2", "x 1 2", "1 a 2", "1 2 b", ""};
        if (bad == 4 && i == (int) (c.i("where2") % count)) t += std::string(gar[c.i("where") % 5]) + "\n";
        else t += fmt(c.i("space") ? " %d  %s\t%s\n" : "%d %s %s\n", id[i], x.c_str(), y.c_str());
    }
    if (c.i("tail") == 0) t += "EOF\n";
    if (c.i("tail") == 1) t += "EOF";
    if (c.i("tail") == 2) t += "EOF\n\n";
    Log l = read_file(g, 1, t, o, bad == 5);
    if (!o.ok) return;
    static const char *why[] = {"", "its weights are not Euclidean", "it does not say what its weights are", "there are more nodes than the built-in maximum", "a line is malformed", "the file does not exist"};
    o.label(bad ? std::string("bad: ") + why[bad] : "well-formed");
    if (bad) { rejected(l, o, why[bad]); o.nontrivial = true; return; }
    if (!l.ok) { o.fail("a well-formed file: " + l.iso.describe()); return; }
    for (auto &p : pt) { g.xy.push_back(p.first); g.xy.push_back(p.second); }
    Dump d = rd_dump(l, g.cap);
    std::map<std::pair<int, int>, double> found;
    for (auto &e : d.e) found[{e[0].s, e[0].d}] = e[0].w;
    for (int i = 0; i < g.n; i++)
        for (int j = i + 1; j < g.n; j++) {
            double ref = std::hypot((double) pt[i].first - pt[j].first, (double) pt[i].second - pt[j].second), use = ref;
            auto it = found.find({i, j});
            if (it != found.end() && std::fabs(it->second - ref) <= 1e-6 * ref + 1e-12) use = it->second;
            g.e.push_back({i, j, (int) g.e.size() + 1, use, 0});
        }
    same_graph(d, g, o, true, "TSPLIB");
    if (d.kind != 0) o.fail("not a weighted graph");
    if (l.geti() != 0) o.fail("the reader does not free what it allocates");
    o.nontrivial = g.n >= 3;
}
Registrar r25({"C25", "TSPLIB files of 1..12, sometimes up to 60 or 280, nodes: header lines in any order and spelling, number formats, with and without EOF; a third of another weight type, oversized, malformed or missing; "
                      "non-trivial = rejected, or at least three nodes",
               [](int) {
                   return fields({{"n", one(file_size())}, {"slack", one(inr(0, 1))}, {"bad", one(pick({0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5}))}, {"where", one(inr(0, 9999))}, {"where2", one(inr(0, 9999))},
                                  {"where3", one(inr(0, 9999))}, {"ids", one(inr(0, 299))}, {"w", vecOf(29, inr(0, 1000000))}, {"st", vecOf(23, inr(0, 5))}, {"space", one(inr(0, 1))}, {"tail", one(inr(0, 3))}, {"scale", one(inr(0, 2))}});
               },
               c25, 1600, 60000});

} // namespace
} // namespace vf
