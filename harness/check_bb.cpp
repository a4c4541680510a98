// Step-level properties of the branch-and-bound search, against the enumeration of all tours of small graphs.
#include "solver.hpp"
#include <algorithm>
#include <cfloat>
#include <numeric>

namespace vf {
namespace {

enum { T_OPEN, T_NN, T_NNH, T_BOUND, T_UNFEAS, T_1TREE, T_SUBG };
const char *type_name(int t) {
    static const char *k[] = {"open", "nn", "nn-hybrid", "closed-bound", "closed-infeasible", "closed-1tree", "closed-subgradient"};
    return t >= 0 && t < 7 ? k[t] : "?";
}

typedef unsigned __int128 Mask;        // sets of edges of graphs of up to 16 nodes
int pc(Mask m) { return __builtin_popcountll((uint64_t) m) + __builtin_popcountll((uint64_t) (m >> 64)); }
const int ENUM = 10;                     // up to this many nodes all tours are enumerated; above, Held-Karp decides

int eidx(int n, int i, int j) { if (i > j) std::swap(i, j); return i * n - i * (i + 1) / 2 + (j - i - 1); }

Mask ebit(int n, int i, int j) { return (Mask) 1 << eidx(n, i, j); }

const std::vector<Mask> &tours(int n) {           // all Hamiltonian cycles of K_n as edge sets, n <= ENUM
    static std::vector<Mask> memo[ENUM + 1];
    if (n > ENUM) abort();
    auto &v = memo[n];
    if (v.empty()) {
        std::vector<int> q(n - 1);
        std::iota(q.begin(), q.end(), 1);
        do {
            if (q.front() > q.back()) continue;
            Mask m = ebit(n, 0, q.front()) | ebit(n, 0, q.back());
            for (int k = 0; k + 1 < n - 1; k++) m |= ebit(n, q[k], q[k + 1]);
            v.push_back(m);
        } while (std::next_permutation(q.begin(), q.end()));
    }
    return v;
}

struct Sub {
    double value, prob;
    int type, level, id, father, nmand, nforb, es, ed;
    std::vector<int> c;
    std::vector<std::pair<int, int>> mand;
    Mask M = 0, F = 0;
    bool symmetric = true;
};
struct Prob {
    double best, best_sol;
    int type;
    std::vector<std::pair<int, int>> cyc;
    long generated, explored, levels, fixed;
    std::vector<double> w;
};
struct Item { int id; double value, prob; int fresh; Sub s; };
struct Step {
    Sub popped, bounded;
    Prob after;
    bool go = false;
    int nfix = 0;
    Sub fixed;
    long gen0 = 0, gen1 = 0;
    std::vector<Item> list;
};
struct Cur {
    const double *d;
    size_t n, k = 0;
    bool bad = false;
    double get() { if (k >= n) { bad = true; return 0; } return d[k++]; }
    int geti() { return (int) get(); }
};
Sub rd_sub(Cur &c, int n) {
    Sub s;
    s.value = c.get(); s.prob = c.get(); s.type = c.geti(); s.level = c.geti(); s.id = c.geti(); s.father = c.geti();
    s.nmand = c.geti(); s.nforb = c.geti(); s.es = c.geti(); s.ed = c.geti();
    s.c.resize(n * n);
    for (auto &v : s.c) v = c.geti();
    int m = c.geti();
    for (int i = 0; i < m && !c.bad; i++) { int a = c.geti(), b = c.geti(); s.mand.push_back({a, b}); }
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            if (s.c[i * n + j] != s.c[j * n + i]) s.symmetric = false;
            if (s.c[i * n + j] == 1) s.M |= ebit(n, i, j);
            if (s.c[i * n + j] == 2) s.F |= ebit(n, i, j);
        }
    return s;
}
Prob rd_prob(Cur &c, int n) {
    Prob p;
    p.best = c.get(); p.best_sol = c.get(); p.type = c.geti();
    int m = c.geti();
    for (int i = 0; i < m && !c.bad; i++) { int a = c.geti(), b = c.geti(); p.cyc.push_back({a, b}); }
    p.generated = (long) c.get(); p.explored = (long) c.get(); p.levels = (long) c.get(); p.fixed = (long) c.get();
    p.w.resize(n * n);
    for (auto &v : p.w) v = c.get();
    return p;
}

struct World {
    Instance in;
    int n, hyb, prim, cap, cand;
    std::vector<double> flatw, flatp;
    Mask absent = 0;
    std::vector<double> tc;          // cost of each tour, DBL_MAX when it uses an absent edge
    double tol, eps;
    bool big() const { return n > ENUM; }
    // the cheapest tour that contains M and avoids F
    double sat_min(Mask M, Mask F, bool cheapest = true) const {
        if (big()) return hk(M, F, cheapest);
        double b = DBL_MAX;
        auto &T = tours(n);
        for (size_t k = 0; k < T.size(); k++)
            if ((T[k] & M) == M && !(T[k] & F) && tc[k] < b) b = tc[k];
        return b;
    }
    // over subsets of the nodes below n-1, the walk starting at n-1: as many required edges as possible, then the least weight
    double hk(Mask M, Mask F, bool cheapest) const {
        int m = n - 1;
        std::vector<double> W(n * n, DBL_MAX);
        std::vector<int> R(n * n, 0);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                if (i != j && !(F & ebit(n, i, j)) && (!cheapest || in.has(i, j))) { W[i * n + j] = cheapest ? in.w[i][j] : 0; R[i * n + j] = (M & ebit(n, i, j)) != 0; }
        static std::vector<double> C;
        static std::vector<signed char> K;
        C.assign((size_t) m << m, DBL_MAX);
        K.assign((size_t) m << m, -1);
        auto relax = [&](size_t at, int k, double c) { if (k > K[at] || (k == K[at] && c < C[at])) { K[at] = (signed char) k; C[at] = c; } };
        for (int j = 0; j < m; j++) if (W[m * n + j] < DBL_MAX) relax((size_t) (1u << j) * m + j, R[m * n + j], W[m * n + j]);
        for (unsigned S = 1; S < 1u << m; S++)
            for (int j = 0; j < m; j++) {
                size_t at = (size_t) S * m + j;
                if (K[at] < 0) continue;
                for (int q = 0; q < m; q++)
                    if (!(S >> q & 1) && W[j * n + q] < DBL_MAX) relax((size_t) (S | 1u << q) * m + q, K[at] + R[j * n + q], C[at] + W[j * n + q]);
            }
        double b = DBL_MAX;
        for (int j = 0; j < m; j++) {
            size_t at = ((size_t) (1u << m) - 1) * m + j;
            if (K[at] >= 0 && W[j * n + m] < DBL_MAX && K[at] + R[j * n + m] == pc(M)) b = std::min(b, C[at] + W[j * n + m]);
        }
        return b;
    }
    bool some_tour(Mask M, Mask F) const { return sat_min(M, F, false) < DBL_MAX; }     // big() only: in the complete graph
    bool is_tour(Mask m) const {
        std::vector<std::vector<int>> nb(n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (m & ebit(n, i, j))) nb[i].push_back(j);
        for (auto &v : nb) if (v.size() != 2) return false;
        int at = 0, from = -1, k = 0;
        do { int to = nb[at][0] != from ? nb[at][0] : nb[at][1]; from = at; at = to; k++; } while (at && k <= n);
        return k == n;
    }
};
int cap_of(int n, bool slack) {
    static const int caps[] = {4, 5, 6, 7, 8, 10, 12, 16};
    for (int k : caps) if (k >= n) { if (slack && k < 16) { slack = false; if (k < 8) return 8; continue; } return k; }
    return 16;
}
World world(const Case &c) {
    World w;
    w.in = build(c);
    w.n = w.in.n;
    w.hyb = (int) c.i("hyb");
    w.prim = (int) c.i("prim");
    w.cap = cap_of(w.n, c.i("slack") != 0);
    w.cand = (int) (c.i("cand") % w.n);
    w.tol = 1e-7 + 1e-9 * w.in.scale() * w.n;
    w.eps = eps_of(w.cap);
    for (int i = 0; i < w.n; i++)
        for (int j = 0; j < w.n; j++) {
            w.flatw.push_back(w.in.w[i][j]);
            w.flatp.push_back(w.in.p[i][j]);
            if (i < j && !w.in.has(i, j)) w.absent |= ebit(w.n, i, j);
        }
    // as the solver itself demands before searching: every node has at least two neighbours
    for (int i = 0; i < w.n; i++) {
        int d = 0;
        for (int j = 0; j < w.n; j++) d += w.in.has(i, j);
        if (d < 2 && !c.f.count("complete_")) {
            Case full = c;
            full["complete_"] = {1};
            full["missing_pct"] = {0};
            return world(full);
        }
    }
    if (!w.big()) for (Mask t : tours(w.n)) {
        double s = 0;
        if (t & w.absent) s = DBL_MAX;
        else
            for (int i = 0; i < w.n; i++) for (int j = i + 1; j < w.n; j++) if (t >> eidx(w.n, i, j) & 1) s += w.in.w[i][j];
        w.tc.push_back(s);
    }
    return w;
}

std::vector<int> root_constraints(const Case &c, const World &w) {
    int n = w.n;
    std::vector<int> k(n * n, 0);
    const Vec &r = c.at("craw");
    int kind = (int) c.i("ckind"), dm = (int) c.i("dm"), df = (int) c.i("df");
    if (kind == 0 || r.empty()) return k;
    Mask t = 0;
    if (w.big()) {
        std::vector<int> perm(n);
        std::iota(perm.begin(), perm.end(), 0);
        for (int i = n - 1, z = (int) c.i("ctour"); i > 0; i--, z = z * 31 % 10007) std::swap(perm[i], perm[z % (i + 1)]);
        for (int i = 0; i < n; i++) t |= ebit(n, perm[i], perm[(i + 1) % n]);
    } else {
        auto &T = tours(n);
        t = T[(size_t) c.i("ctour") % T.size()];
    }
    size_t q = 0;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, q++) {
            long v = r[q % r.size()];
            bool on = t >> eidx(n, i, j) & 1;
            if (kind == 1) k[i * n + j] = v < dm ? 1 : v >= 100 - df ? 2 : 0;
            else k[i * n + j] = on ? (v < 2 * dm ? 1 : 0) : (v >= 100 - 2 * df ? 2 : 0);
            if (k[i * n + j] == 1 && !w.in.has(i, j)) k[i * n + j] = 0;
        }
    return k;
}

struct Trace { std::vector<Step> steps; double inc0; Mask M0, F0; bool ran = false; std::string out; Prob whole; int cand = -1; bool complete = false; };
// whole: the program's own search first, then the same one step by step, from its own starting point
Trace run_trace(const Case &c, const World &w, Outcome &o, bool whole = false) {
    Trace t;
    int n = w.n;
    std::vector<int> cons = root_constraints(c, w);
    bool plain = c.i("ckind") == 0;
    t.inc0 = DBL_MAX;
    std::vector<double> feas;
    for (double v : w.tc) if (v < DBL_MAX) feas.push_back(v);
    if (w.big() && c.i("inc") > 0) {                 // the optimum, the greedy tours and some others
        double best = w.sat_min(0, 0);
        if (best < DBL_MAX) feas.push_back(best);
        for (int z = 0; z < 2 * n && best < DBL_MAX; z++) {
            std::vector<bool> seen(n, false);
            int at = z % n, k = 1;
            double s = 0;
            for (seen[at] = true; k < n; k++) {
                int to = -1;
                for (int j = 0; j < n; j++) if (!seen[j] && w.in.has(at, j) && (to < 0 || (z < n ? w.in.w[at][j] < w.in.w[at][to] : w.in.p[at][j] > w.in.p[at][to]))) to = j;
                if (to < 0) break;
                s += w.in.w[at][to];
                seen[at = to] = true;
            }
            if (k == n && w.in.has(at, z % n)) feas.push_back(s + w.in.w[at][z % n]);
        }
    }
    if (c.i("inc") > 0 && !feas.empty()) {
        std::sort(feas.begin(), feas.end());
        static const double q[] = {0, 0, 0.02, 0.1, 0.5};
        t.inc0 = feas[(size_t) (q[c.i("inc") % 5] * (feas.size() - 1))];
    }
    const Lib &L = lib(fmt("b_n%d_h%d_p%d", w.cap, w.hyb, w.prim));
    auto vlog = (void (*)(double *, long)) L.sym("vb_log");
    auto vsize = (long (*)()) L.sym("vb_log_size");
    auto vsetup = (void (*)(int, const double *, const double *, int)) L.sym("vb_setup");
    auto vinc = (void (*)(double)) L.sym("vb_incumbent");
    auto vtrace = (void (*)(int, const int *, int, double, int)) L.sym("vb_trace");
    static std::vector<double> buf;
    buf.resize(whole ? 600000 : n > 8 ? 400000 : 120000);
    Iso iso = isolated(
        [&](Sink &s) {
            vlog(buf.data(), (long) buf.size());
            vsetup(n, w.flatw.data(), w.flatp.data(), w.cand);
            if (whole) {
                ((void (*)(int)) L.sym("vb_whole"))(n);
                vsetup(n, w.flatw.data(), w.flatp.data(), w.cand);
                ((void (*)()) L.sym("vb_start"))();
                vtrace(n, cons.data(), 1, DBL_MAX, 400);
            } else {
                if (t.inc0 < DBL_MAX) vinc(t.inc0);
                vtrace(n, cons.data(), plain ? 1 : 2, plain ? DBL_MAX : 0, 40);
            }
            long k = std::min<long>(vsize(), (long) buf.size());
            s.put(buf.data(), k * sizeof(double));
            s.finish();
        },
        30);
    if (!iso.done()) { o.fail("the search " + iso.describe()); return t; }
    t.out = iso.out;
    Cur cu{(const double *) iso.payload.data(), iso.payload.size() / sizeof(double)};
    std::vector<double> aligned(cu.n);
    memcpy(aligned.data(), iso.payload.data(), cu.n * sizeof(double));
    cu.d = aligned.data();
    if (whole) { t.whole = rd_prob(cu, n); t.cand = cu.geti(); }
    while (!cu.bad && cu.get() == 1) {
        Step s;
        s.popped = rd_sub(cu, n);
        s.bounded = rd_sub(cu, n);
        s.after = rd_prob(cu, n);
        s.go = cu.get() != 0;
        if (s.go) {
            s.nfix = cu.geti();
            s.fixed = rd_sub(cu, n);
            s.gen0 = (long) cu.get();
            s.gen1 = (long) cu.get();
            long m = (long) cu.get();
            for (long k = 0; k < m && !cu.bad; k++) {
                Item it;
                it.id = cu.geti(); it.value = cu.get(); it.prob = cu.get(); it.fresh = cu.geti();
                if (it.fresh) it.s = rd_sub(cu, n);
                s.list.push_back(it);
            }
        }
        if (!cu.bad) t.steps.push_back(s);
    }
    t.ran = true;
    t.complete = !cu.bad && cu.get() == 0 && !cu.bad;
    if (getenv("VF_DEBUG"))
        for (auto &s : t.steps)
            fprintf(stderr, "popped %d value %.17g M %llx F %llx -> %s value %.17g best %.17g etb %d-%d\n", s.popped.id, s.popped.value, (unsigned long long) s.popped.M, (unsigned long long) s.popped.F,
                    type_name(s.bounded.type), s.bounded.value, s.after.best, s.bounded.es, s.bounded.ed);
    for (auto &s : t.steps) {
        o.label(std::string("step:") + type_name(s.bounded.type));
        if (s.go && s.nfix) o.label("step:fixed-some-edge");
    }
    o.label(fmt("root:%s", c.i("ckind") == 0 ? "unconstrained" : c.i("ckind") == 1 ? "random-constraints" : "around-a-tour"));
    o.label(std::string("weights:") + style_name((int) c.i("style")));
    if (!w.in.complete()) o.label("incomplete");
    if (n > 8) o.label(w.big() ? "nodes:11-16" : "nodes:9-10");
    return t;
}

std::string show(const World &w, Mask M, Mask F) {
    std::string s = "required {";
    for (int i = 0; i < w.n; i++) for (int j = i + 1; j < w.n; j++) if (M >> eidx(w.n, i, j) & 1) s += fmt(" %d-%d", i, j);
    s += " } excluded {";
    for (int i = 0; i < w.n; i++) for (int j = i + 1; j < w.n; j++) if (F >> eidx(w.n, i, j) & 1) s += fmt(" %d-%d", i, j);
    return s + " }";
}

bool list_matches(const World &w, const Sub &s) {
    Mask m = 0;
    for (auto &e : s.mand) {
        if (e.first < 0 || e.second < 0 || e.first >= w.n || e.second >= w.n || e.first == e.second) return false;
        m |= ebit(w.n, e.first, e.second);
    }
    return m == s.M && (int) s.mand.size() == s.nmand;
}

// an edge both required (in the list) and excluded: fixing has settled the very edge that was branched on
bool contradicts(const World &w, const Sub &s) {
    for (auto &e : s.mand)
        if (e.first >= 0 && e.second >= 0 && e.first < w.n && e.second < w.n && e.first != e.second && !(s.M & ebit(w.n, e.first, e.second))) return true;
    return false;
}

// minimum 1-tree at the candidate that contains the required edges and avoids the excluded ones; DBL_MAX when there is none
double one_tree(const World &w, Mask M, Mask F) {
    int n = w.n;
    std::vector<int> comp(n);
    std::iota(comp.begin(), comp.end(), 0);
    std::function<int(int)> root = [&](int x) { return comp[x] == x ? x : comp[x] = root(comp[x]); };
    std::vector<std::tuple<int, double, int, int>> es;
    std::vector<std::tuple<int, double>> ce;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            Mask b = ebit(n, i, j);
            if (!w.in.has(i, j) || (F & b)) continue;
            int pri = (M & b) ? 0 : 1;
            if (i == w.cand || j == w.cand) ce.push_back({pri, w.in.w[i][j]});
            else es.push_back({pri, w.in.w[i][j], i, j});
        }
    std::sort(es.begin(), es.end());
    std::sort(ce.begin(), ce.end());
    double s = 0;
    int k = 0;
    for (auto &[p, v, i, j] : es)
        if (root(i) != root(j)) { comp[root(i)] = root(j); s += v; k++; }
    if (k != n - 2 || ce.size() < 2) return DBL_MAX;
    return s + std::get<1>(ce[0]) + std::get<1>(ce[1]);
}

rc::Gen<Case> gen_trace(bool sparse) {
    // mostly small; about one in 40 has 9 or 10 nodes, one in 120 more
    return rc::gen::mapcat(rc::gen::map(inr(0, 839), [](int64_t z) {
        static const int64_t few[] = {4, 5, 6, 6, 7, 7, 8};
        return z < 812 ? few[z % 7] : z < 833 ? 9 + z % 2 : 11 + z % 6;
    }), [sparse](int64_t n) {
        return rc::gen::map(
            rc::gen::tuple(genInstanceN((int) n, sparse), vecOf(n * (n - 1) / 2, inr(0, 99)),
                           rc::gen::elementOf(std::vector<int64_t>{0, 0, 1, 2, 2}), inr(0, 4), inr(0, 40), inr(0, 45),
                           vecOf(5, inr(0, 9999))),
            [](const std::tuple<Case, Vec, int64_t, int64_t, int64_t, int64_t, Vec> &t) {
                Case c = std::get<0>(t);
                c["craw"] = std::get<1>(t);
                c["ckind"] = {std::get<2>(t)};
                c["inc"] = {std::get<3>(t)};
                c["dm"] = {std::get<4>(t)};
                c["df"] = {std::get<5>(t)};
                const Vec &x = std::get<6>(t);
                c["ctour"] = {x[0]};
                c["cand"] = {x[1] % 16};
                c["hyb"] = {x[2] % 2};
                c["prim"] = {x[3] % 3 != 0};
                c["slack"] = {x[4] % 4 == 0};
                return c;
            });
    });
}

// ---- C10: bounding a subproblem never loses a tour that matters --------------------------------------------
void c10(const Case &c, Outcome &o) {
    World w = world(c);
    Trace t = run_trace(c, w, o);
    double U = t.inc0;
    for (auto &s : t.steps) {
        double T = w.sat_min(s.popped.M, s.popped.F), U2 = s.after.best;
        std::string where = fmt("subproblem %d (%s), cheapest tour %.9g, incumbent %.9g -> %.9g, now %s, bound %.9g", s.popped.id,
                                show(w, s.popped.M, s.popped.F).c_str(), T, U, U2, type_name(s.bounded.type), s.bounded.value);
        // fixing can settle the very edge that is branched on: one child then requires what it excludes, and holds no better tour
        bool contradictory = contradicts(w, s.popped);
        if (contradictory) o.label("contradictory-child");
        if (!(U2 <= U)) { o.fail("the incumbent's value increased: " + where); return; }
        if (U2 < U) {
            Report r;
            r.cycle = s.after.cyc;
            r.num_cycle = (long) s.after.cyc.size();
            // the cycle is stored as unordered pairs: walk it
            std::vector<int> deg(w.n, 0);
            Mask m = 0;
            double cost = 0;
            bool ok = (int) s.after.cyc.size() == w.n;
            for (auto &e : s.after.cyc) {
                if (e.first < 0 || e.second < 0 || e.first >= w.n || e.second >= w.n || !w.in.has(e.first, e.second)) { ok = false; break; }
                m |= ebit(w.n, e.first, e.second);
                cost += w.in.w[e.first][e.second];
            }
            if (!ok || !w.is_tour(m)) { o.fail("the new incumbent is not a tour: " + where); return; }
            if (std::fabs(cost - U2) > w.tol) { o.fail(fmt("the new incumbent costs %.9g: ", cost) + where); return; }
            if (!contradictory && ((T < DBL_MAX && (m & s.popped.M) != s.popped.M) || (m & s.popped.F))) { o.fail("the new incumbent breaks the subproblem's constraints: " + where); return; }
            if (!(std::fabs(s.after.best_sol - U2) <= w.tol)) { o.fail("incumbent value and best value differ: " + where); return; }
        }
        if (!s.go) {
            if (T < U2 - w.eps - w.tol) { o.fail("a subproblem holding a better tour was closed: " + where); return; }
        } else {
            if (!contradictory && s.bounded.value > T + w.tol) { o.fail("the lower bound exceeds the cheapest tour: " + where); return; }
        }
        if (s.bounded.M != s.popped.M || s.bounded.F != s.popped.F) { o.fail("bounding changed the constraints: " + where); return; }
        for (int i = 0; i < w.n; i++)
            for (int j = 0; j < w.n; j++)
                if (i != j && w.in.has(i, j) && s.after.w[i * w.n + j] != w.in.w[i][j]) { o.fail("bounding changed the weights of the graph: " + where); return; }
        if (s.go || s.bounded.type == T_BOUND || s.bounded.type == T_UNFEAS) o.nontrivial |= s.popped.id > 1 || c.i("ckind") > 0;
        U = U2;
    }
}
Registrar r10({"C10",
               "searches of up to 40 subproblems on graphs of 4..8 nodes (sometimes up to 16), from an unconstrained or a randomly constrained root, with a given incumbent; "
               "the cheapest tour of every subproblem by enumeration of all tours (above 10 nodes by dynamic programming); non-trivial = a constrained subproblem was bounded",
               [](int) { return gen_trace(true); }, c10, 10000, 80000});

// ---- C11: variable fixing --------------------------------------------------------------------------------------
void c11(const Case &c, Outcome &o) {
    World w = world(c);
    Trace t = run_trace(c, w, o);
    static const std::vector<Mask> none;
    auto &T = w.big() ? none : tours(w.n);
    for (auto &s : t.steps) {
        if (!s.go) continue;
        const Sub &a = s.bounded, &b = s.fixed;
        std::string where = fmt("subproblem %d, incumbent %.9g, before %s, after %s, %d reported as fixed", a.id, s.after.best,
                                show(w, a.M, a.F).c_str(), show(w, b.M, b.F).c_str(), s.nfix);
        if ((a.M & ~b.M) || (a.F & ~b.F)) { o.fail("fixing dropped a constraint: " + where); return; }
        if (!b.symmetric) { o.fail("fixing left an asymmetric constraint: " + where); return; }
        int changed = pc((b.M & ~a.M) | (b.F & ~a.F));
        if (changed != s.nfix) { o.fail(fmt("%d edges were fixed: ", changed) + where); return; }
        for (size_t k = 0; k < T.size(); k++)
            if (w.tc[k] < s.after.best - w.tol && (T[k] & a.M) == a.M && !(T[k] & a.F) && ((T[k] & b.M) != b.M || (T[k] & b.F))) {
                o.fail(fmt("fixing excludes a tour of cost %.9g: ", w.tc[k]) + where);
                return;
            }
        for (int e = 0; w.big() && e < w.n * (w.n - 1) / 2; e++) {
            Mask x = (Mask) 1 << e;
            double lost = b.M & ~a.M & x ? w.sat_min(a.M, a.F | x) : b.F & ~a.F & x ? w.sat_min(a.M | x, a.F) : DBL_MAX;
            if (lost < s.after.best - w.tol) { o.fail(fmt("fixing excludes a tour of cost %.9g: ", lost) + where); return; }
        }
        if (s.nfix) {
            o.nontrivial = true;
            if (b.M & ~a.M) o.label("fixed-in");
            if (b.F & ~a.F) o.label("fixed-out");
        }
    }
}
Registrar r11({"C11",
               "the same searches; every tour cheaper than the incumbent that satisfied the subproblem before fixing must satisfy it afterwards; "
               "non-trivial = at least one edge was fixed",
               [](int) { return gen_trace(true); }, c11, 10000, 80000});

// ---- C12: branching and inference ----------------------------------------------------------------------------------
void c12(const Case &c, Outcome &o) {
    World w = world(c);
    int n = w.n;
    static const std::vector<Mask> none;
    auto &T = w.big() ? none : tours(n);
    if (c.i("infer_only")) {
        std::vector<int> cons = root_constraints(c, w);
        const Lib &L = lib(fmt("b_n%d_h%d_p%d", w.cap, w.hyb, w.prim));
        auto vlog = (void (*)(double *, long)) L.sym("vb_log");
        auto vsize = (long (*)()) L.sym("vb_log_size");
        auto vsetup = (void (*)(int, const double *, const double *, int)) L.sym("vb_setup");
        auto vinfer = (void (*)(int, const int *)) L.sym("vb_infer");
        static std::vector<double> buf(4000);
        Iso iso = isolated([&](Sink &s) {
            vlog(buf.data(), (long) buf.size());
            vsetup(n, w.flatw.data(), w.flatp.data(), w.cand);
            vinfer(n, cons.data());
            s.put(buf.data(), std::min<long>(vsize(), (long) buf.size()) * sizeof(double));
            s.finish();
        });
        if (!iso.done()) { o.fail("inference " + iso.describe()); return; }
        std::vector<double> al(iso.payload.size() / sizeof(double));
        memcpy(al.data(), iso.payload.data(), al.size() * sizeof(double));
        Cur cu{al.data(), al.size()};
        Sub a = rd_sub(cu, n);
        bool valid = cu.get() != 0;
        Sub b = rd_sub(cu, n);
        Mask M0 = 0, F0 = 0;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
            if (cons[i * n + j] == 1) M0 |= ebit(n, i, j);
            if (cons[i * n + j] == 2) F0 |= ebit(n, i, j);
        }
        std::string where = fmt("given %s, copied %s, inferred %s, verdict %d", show(w, M0, F0).c_str(), show(w, a.M, a.F).c_str(), show(w, b.M, b.F).c_str(), valid);
        if (a.M != M0 || a.F != F0 || !a.symmetric) { o.fail("copying changed the constraints: " + where); return; }
        if (!list_matches(w, a)) { o.fail("the copy's list of required edges does not match: " + where); return; }
        long sat = 0;
        for (Mask t : T) {
            if ((t & M0) != M0 || (t & F0)) continue;
            sat++;
            if (!valid) { o.fail("constraints that a tour satisfies were rejected: " + where); return; }
            if ((t & b.M) != b.M || (t & b.F)) { o.fail("inference excludes a tour: " + where); return; }
        }
        if (w.big()) {
            if (!valid && w.some_tour(M0, F0)) { o.fail("constraints that a tour satisfies were rejected: " + where); return; }
            for (int e = 0; valid && e < n * (n - 1) / 2; e++) {
                Mask x = (Mask) 1 << e;
                if ((b.M & ~M0 & x && w.some_tour(M0, F0 | x)) || (b.F & ~F0 & x && w.some_tour(M0 | x, F0))) { o.fail("inference excludes a tour: " + where); return; }
            }
        }
        if ((b.M & M0) != M0 || (b.F & F0) != F0) { o.fail("inference dropped a constraint: " + where); return; }
        if (!b.symmetric) { o.fail("inference left an asymmetric constraint: " + where); return; }
        if (valid && !list_matches(w, b)) { o.fail("the list of required edges does not match the constraints: " + where); return; }
        for (int i = 0; i < n && valid; i++) {
            int m0 = 0, f0 = 0;
            for (int j = 0; j < n; j++)
                if (j != i) { Mask e = ebit(n, i, j); m0 += (M0 & e) != 0; f0 += (F0 & e) != 0; }
            if (m0 > 2 || n - 1 - f0 < 2) { o.fail(fmt("node %d cannot have degree two, yet the constraints were accepted: ", i) + where); return; }
        }
        o.label(valid ? (b.M != M0 || b.F != F0 ? "inference:something-inferred" : "inference:nothing-new") : "inference:rejected");
        o.nontrivial = !valid || b.M != M0 || b.F != F0;
        (void) sat;
        return;
    }
    Trace t = run_trace(c, w, o);
    std::vector<int> seen_ids;
    for (auto &s : t.steps) {
        if (!s.go) continue;
        const Sub &p = s.fixed;
        std::string where = fmt("subproblem %d (%s) branched on %d-%d, list of %zu", p.id, show(w, p.M, p.F).c_str(), p.es, p.ed, s.list.size());
        if (p.es < 0 || !w.in.has(p.es, p.ed)) { o.fail("the branching edge is not in the graph: " + where); return; }
        Mask e = ebit(n, p.es, p.ed);
        if ((s.bounded.M | s.bounded.F) & e) { o.fail("the branching edge is already constrained: " + where); return; }
        if (s.gen1 - s.gen0 != 2) { o.fail(fmt("%ld subproblems generated: ", s.gen1 - s.gen0) + where); return; }
        std::vector<const Sub *> kids;
        for (auto &it : s.list) if (it.fresh) kids.push_back(&it.s);
        if (kids.size() > 2) { o.fail("more than two children: " + where); return; }
        for (auto *k : kids) {
            std::string kid = where + fmt("; child %d %s", k->id, show(w, k->M, k->F).c_str());
            bool with = k->M & e, without = k->F & e;
            // fixing may have settled the branching edge in between: then one child contradicts the parent
            if (with == without) { o.fail("a child neither requires nor excludes the branching edge: " + kid); return; }
            if ((p.M & ~e & ~k->M) || (p.F & ~e & ~k->F)) { o.fail("a child lost a constraint of its parent: " + kid); return; }
            if (!k->symmetric) { o.fail("asymmetric constraints: " + kid); return; }
            if (k->father != p.id) { o.fail(fmt("the child's father is %d: ", k->father) + kid); return; }
            if (k->level != p.level + 1) { o.fail(fmt("the child's level is %d, its father's %d: ", k->level, p.level) + kid); return; }
            if (k->id <= s.gen0 || k->id > s.gen1) { o.fail("the child's number is not fresh: " + kid); return; }
            if (std::find(seen_ids.begin(), seen_ids.end(), k->id) != seen_ids.end()) { o.fail("number used twice: " + kid); return; }
            seen_ids.push_back(k->id);
            if (!list_matches(w, *k) && !((p.M | p.F) & e)) { o.fail("the child's list of required edges does not match its constraints: " + kid); return; }
            if (k->value != p.value || k->type != T_OPEN) { o.fail("the child does not start open with its father's bound: " + kid); return; }
        }
        long both = 0;
        if (w.big()) {                        // a child for each way to decide the edge, unless no tour is left there, and nothing inferred that excludes a tour
            both = kids.size() == 2 && w.some_tour(kids[0]->M, kids[0]->F) && w.some_tour(kids[1]->M, kids[1]->F);
            int with = 0, without = 0;
            for (auto *k : kids) {
                (k->M & e ? with : without)++;
                Mask M1 = k->M & e ? p.M | e : p.M, F1 = k->M & e ? p.F : p.F | e;
                for (int z = 0; z < n * (n - 1) / 2; z++) {
                    Mask x = (Mask) 1 << z;
                    if ((k->M & ~M1 & x && w.some_tour(M1, F1 | x)) || (k->F & ~F1 & x && w.some_tour(M1 | x, F1))) { o.fail("a child excludes a tour: " + where); return; }
                }
            }
            if (with > 1 || without > 1) { o.fail("both children decide the edge alike: " + where); return; }
            if ((!with && !((p.F) & e) && w.some_tour(p.M | e, p.F)) || (!without && !(p.M & e) && w.some_tour(p.M, p.F | e))) { o.fail("a child that holds tours is missing: " + where); return; }
        }
        for (size_t q = 0; q < T.size(); q++) {
            Mask x = T[q];
            if ((x & p.M) != p.M || (x & p.F)) continue;
            both++;
            int in = 0;
            for (auto *k : kids) in += (x & k->M) == k->M && !(x & k->F);
            if (in != 1) { o.fail(fmt("a tour of the parent is in %d of the children: ", in) + where); return; }
        }
        if (kids.size() < 2) o.label("child-rejected");
        if (kids.size() == 2 && both) o.nontrivial = true;
        for (auto *k : kids) if (pc(k->M | k->F) > pc(p.M | p.F | e)) o.label("child-with-inferred-constraints");
    }
    if (t.steps.size() > 1) {
        // popped subproblems are children of earlier ones, or the root, each once
        std::vector<int> ids;
        for (auto &s : t.steps) {
            if (std::find(ids.begin(), ids.end(), s.popped.id) != ids.end()) { o.fail(fmt("subproblem %d was processed twice", s.popped.id)); return; }
            ids.push_back(s.popped.id);
        }
    }
}
Registrar r12({"C12",
               "the same searches, plus copying and inference alone on random constraint sets; every tour of the parent must be in exactly one child, "
               "and what is inferred or rejected must hold for every tour; non-trivial = two children with tours between them, or something inferred/rejected",
               [](int) {
                   return rc::gen::map(rc::gen::pair(gen_trace(true), inr(0, 2)), [](std::pair<Case, int64_t> p) {
                       p.first["infer_only"] = {p.second == 0};
                       if (p.second == 0 && p.first.i("ckind") == 0) p.first["ckind"] = {1};
                       return p.first;
                   });
               },
               c12, 12000, 90000});

// ---- C17: strength of the bound -----------------------------------------------------------------------------------------
void c17(const Case &c, Outcome &o) {
    World w = world(c);
    Trace t = run_trace(c, w, o);
    double U = t.inc0;
    for (auto &s : t.steps) {
        double ot = one_tree(w, s.popped.M, s.popped.F);
        // more than two required edges at a node, or a required circuit: no 1-tree contains them all
        int n = w.n;
        bool degenerate = false;
        std::vector<int> comp(n), deg(n, 0);
        std::iota(comp.begin(), comp.end(), 0);
        std::function<int(int)> root = [&](int x) { return comp[x] == x ? x : comp[x] = root(comp[x]); };
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++)
                if (s.popped.M >> eidx(n, i, j) & 1) {
                    deg[i]++; deg[j]++;
                    if (i == w.cand || j == w.cand) { if (deg[w.cand] > 2) degenerate = true; continue; }
                    if (root(i) == root(j)) degenerate = true;
                    comp[root(i)] = root(j);
                }
        std::string where = fmt("subproblem %d (%s) at candidate %d: minimum 1-tree %.9g, incumbent %.9g, result %s, bound %.9g", s.popped.id,
                                show(w, s.popped.M, s.popped.F).c_str(), w.cand, ot, s.after.best, type_name(s.bounded.type), s.bounded.value);
        bool skipped = s.bounded.type == T_BOUND && !(U - s.popped.value > w.eps) && s.popped.level != 1;
        // fixing can settle the very edge that is branched on; one child then contradicts itself and holds no tour worth finding
        bool contradictory = contradicts(w, s.popped);
        if (contradictory) o.label("contradictory-child");
        if (s.after.best < U && !degenerate && !contradictory && ot < DBL_MAX) {
            // how the report of the new incumbent says it was found
            size_t at = t.out.find(fmt("\nIMPROVED AT STEP %d\n", (int) (&s - t.steps.data())));
            size_t ty = at == std::string::npos ? at : t.out.find("type = ", at), end = ty == std::string::npos ? ty : t.out.find(',', ty);
            if (end == std::string::npos) { o.fail("the new incumbent cannot be printed: " + where); return; }
            std::string kind = t.out.substr(ty + 7, end - ty - 7);
            std::vector<double> ws;
            bool distinct = true;
            for (int i = 0; i < n; i++)
                for (int j = i + 1; j < n; j++)
                    if (w.in.has(i, j)) { ws.push_back(w.in.w[i][j]); distinct &= w.in.w[i][j] == std::floor(w.in.w[i][j]); }
            std::sort(ws.begin(), ws.end());
            distinct &= std::adjacent_find(ws.begin(), ws.end()) == ws.end();
            if (kind != "CLOSED_1TREE" && kind != "CLOSED_SUBGRADIENT") { o.fail("the new incumbent is reported as " + kind + ": " + where); return; }
            if (kind == "CLOSED_1TREE" && !(std::fabs(s.after.best - ot) <= w.tol)) { o.fail("the new incumbent is not the minimum 1-tree, but reported as " + kind + ": " + where); return; }
            if (kind == "CLOSED_SUBGRADIENT" && distinct && !(s.after.best > ot + 0.5)) { o.fail("the new incumbent is the minimum 1-tree, but reported as " + kind + ": " + where); return; }
            o.label("improved:" + kind + (distinct ? " distinct-integers" : ""));
        }
        if (!skipped && !degenerate && !contradictory) {
            if (ot == DBL_MAX) {
                if (s.bounded.type != T_UNFEAS) { o.fail("no 1-tree satisfies the constraints, but the subproblem is not closed as infeasible: " + where); return; }
                o.label("no-1-tree");
            } else {
                if (s.bounded.type == T_UNFEAS) { o.fail("a 1-tree exists, but the subproblem is closed as infeasible: " + where); return; }
                if (s.bounded.type == T_OPEN && s.bounded.value < ot - w.tol) { o.fail("the bound is below the minimum 1-tree: " + where); return; }
                if (U < DBL_MAX && ot >= U - w.eps + w.tol && s.bounded.type == T_OPEN) { o.fail("the 1-tree already reaches the incumbent, but the subproblem stays open: " + where); return; }
                if (s.bounded.type == T_OPEN) {
                    o.nontrivial |= s.bounded.value > ot + w.tol || c.i("ckind") > 0 || s.popped.id > 1;
                    if (s.bounded.value > ot + w.tol) o.label("bound-improved-by-subgradient");
                }
            }
        } else if (degenerate) o.label("degenerate-requirements");
        U = s.after.best;
    }
}
Registrar r17({"C17",
               "the same searches; the minimum 1-tree with the required and without the excluded edges by sorted-edge construction; "
               "non-trivial = a constrained subproblem stayed open, or its bound rose above the 1-tree",
               [](int) { return gen_trace(true); }, c17, 10000, 80000});

// ---- C08: the counts, step by step --------------------------------------------------------------------------------------
void steps08(const Case &given, Outcome &o) {
    Case c = given;
    c["ckind"] = {0};
    c["inc"] = {0};
    if (c.i("n") > 8) c["missing_pct"] = {0};         // larger graphs without a tour take too long
    World w = world(c);
    Trace t = run_trace(c, w, o, true);
    if (!t.ran) return;
    if (!t.complete) { o.label("steps:too-many"); return; }
    long explored = 0, branched = 0, levels = 1, fixed = 0, loose = 0;
    bool close = false, improved = false;
    double best = DBL_MAX;
    for (auto &s : t.steps) {
        double U = &s == t.steps.data() ? DBL_MAX : (&s - 1)->after.best;
        if (s.popped.level == 1 || U - s.popped.value > w.eps) explored++;
        if (s.popped.level != 1 && std::fabs(U - s.popped.value - w.eps) < 1e-9 + w.tol) close = true;
        best = s.after.best;
        improved |= s.after.best < U;
        if (!s.go) continue;
        branched++;
        levels = std::max<long>(levels, s.popped.level + 1);
        Mask e = ebit(w.n, s.fixed.es, s.fixed.ed);
        fixed += pc((s.fixed.M & ~s.bounded.M) | (s.fixed.F & ~s.bounded.F));
        int kids = 0;
        for (auto &it : s.list)
            if (it.fresh) {
                kids++;
                fixed += pc((it.s.M & ~s.fixed.M & ~e) | (it.s.F & ~s.fixed.F & ~e));
            }
        // what was settled in a child before it was rejected is not known here
        loose += (2 - kids) * (w.n * (w.n - 1) / 2 - pc(s.fixed.M | s.fixed.F | e));
        if ((s.fixed.M | s.fixed.F) & e) loose += 2;
    }
    // the numbers of required and excluded edges, as kept with every child and as printed with a new incumbent; what is excluded
    // from the start (an edge from a node to itself) counts the same everywhere
    long base = -1;
    for (auto &s : t.steps) {
        for (auto &it : s.list) {
            Mask e = ebit(w.n, s.fixed.es, s.fixed.ed);
            if (!it.fresh || ((s.fixed.M | s.fixed.F) & e)) continue;
            long k = it.s.nforb - pc(it.s.F);
            if (base < 0) base = k;
            if (k != base || k < 0 || it.s.nmand != pc(it.s.M)) {
                o.fail(fmt("subproblem %d counts %d required and %d excluded edges (others %ld more than they have), but has %s", it.s.id, it.s.nmand, it.s.nforb, base, show(w, it.s.M, it.s.F).c_str()));
                return;
            }
        }
        size_t at = t.out.find(fmt("\nIMPROVED AT STEP %d\n", (int) (&s - t.steps.data())));
        if (at == std::string::npos || s.popped.level == 1) continue;
        size_t end = t.out.find("\nIMPROVED AT STEP", at + 1);
        std::string text = t.out.substr(at, end == std::string::npos ? end : end - at);
        int m = -1, f = -1;
        size_t pm = text.find(" Mandatory edges"), pf = text.find(" Forbidden edges");
        if (pm != std::string::npos && pf != std::string::npos) {
            m = atoi(text.c_str() + text.rfind('\n', pm) + 1);
            f = atoi(text.c_str() + text.rfind('\n', pf) + 1);
        }
        if (m != s.popped.nmand || f != s.popped.nforb) {
            o.fail(fmt("%d required and %d excluded edges reported, but there are %d and %d: ", m, f, s.popped.nmand, s.popped.nforb) + show(w, s.popped.M, s.popped.F));
            return;
        }
        o.label("steps:improved-below-the-root");
    }
    const Prob &p = t.whole;
    std::string where = fmt("the search reports %ld generated, %ld explored, %ld levels, %ld fixed edges, best %.9g; its %zu steps have %ld bounded subproblems, %ld branchings, "
                            "%ld levels, %ld to %ld settled edges, best %.9g", p.generated, p.explored, p.levels, p.fixed, p.best, t.steps.size(), explored, branched, levels, fixed, fixed + loose, best);
    if (close) { o.label("steps:near-tie"); return; }
    if (p.generated != 1 + 2 * branched) o.fail("generated: " + where);
    if (p.explored != explored) o.fail("explored: " + where);
    if (p.levels != levels) o.fail("levels: " + where);
    if (p.fixed < fixed || p.fixed > fixed + loose) o.fail("fixed edges: " + where);
    if (!(std::fabs(p.best - best) <= w.tol)) o.fail("best value: " + where);
    o.nontrivial = branched > 0;
    if (branched) o.label(loose ? "steps:fixed-count-bounded" : "steps:fixed-count-exact");
    if (fixed) o.label("steps:some-edge-settled");
    if (explored < (long) t.steps.size()) o.label("steps:some-discarded-unexplored");
}
struct Steps08 {
    Steps08() { c08_steps = steps08; c08_steps_gen = [] { return gen_trace(true); }; }
} steps08_hook;

// ---- C13: order of the open list ---------------------------------------------------------------------------------------------
void c13(const Case &c, Outcome &o) {
    int n = 6, hyb = (int) c.i("hyb");
    const Vec &ops = c.at("ops");
    std::vector<double> flat, W(n * n, 1), Pm(n * n, 0);
    double eps = eps_of(n);
    size_t fill = (size_t) c.i("fill"), m = fill > 1000 ? 2 : ops.size() / 4;
    bool direct = fill > 60000;               // too many to branch: as many equal subproblems put in by hand
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Pm[i * n + j] = ((i * 7 + j * 7) % 10) / 9.0;
    auto operation = [&](long kind, long a, long b, long e) {
        // values: a coarse level plus a fraction of the tolerance, so that ties, near-ties and clear differences all occur
        static const double frac[] = {0, 0, 0, 0.01, 0.4, 0.6, 0.99, 1.01, 2.5};
        flat.push_back(kind < 25 ? 0 : 1);
        flat.push_back(1 + (a % 4) * 0.5 * (c.i("coarse") ? 1 : 0) + frac[(a / 4) % 9] * eps);
        flat.push_back((b % 21) / 20.0 + ((b / 21) % 3 == 0 ? 0.003 : 0));
        flat.push_back((double) (e % (n * (n - 1) / 2)));
    };
    uint64_t x = 88172645463325252ull + (uint64_t) c.i("fill") * 7919 + (uint64_t) (ops.empty() ? 0 : ops[0]);
    auto draw = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (long) (x >> 33); };
    for (size_t k = 0; k < fill; k++) { long a = direct ? 0 : draw(), b = direct ? 0 : draw(), e = draw(); operation(99, a, b, e); }
    for (size_t k = 0; k < m; k++) operation(ops[4 * k], ops[4 * k + 1], ops[4 * k + 2], ops[4 * k + 3]);
    size_t first = fill ? fill - 1 : 0;
    m += fill;
    const Lib &L = lib(fmt("b_n%d_h%d_p1", n, hyb));
    auto vlog = (void (*)(double *, long)) L.sym("vb_log");
    auto vsize = (long (*)()) L.sym("vb_log_size");
    auto vsetup = (void (*)(int, const double *, const double *, int)) L.sym("vb_setup");
    auto vlist = (void (*)(int, int, int, const double *)) L.sym("vb_open_list");
    static std::vector<double> buf;
    buf.resize(std::max<size_t>(60000, (m - first) * (1 + 6 * m)));
    Iso iso = isolated([&](Sink &s) {
        vlog(buf.data(), (long) buf.size());
        vsetup(n, W.data(), Pm.data(), 0);
        vlist((int) fill, direct, (int) m, flat.data());
        s.put(buf.data(), std::min<long>(vsize(), (long) buf.size()) * sizeof(double));
        s.finish();
    }, fill > 1000 ? 120 : 20);
    if (!iso.done()) { o.fail("the open list " + iso.describe()); return; }
    std::vector<double> al(iso.payload.size() / sizeof(double));
    memcpy(al.data(), iso.payload.data(), al.size() * sizeof(double));
    Cur cu{al.data(), al.size()};
    struct E { int id; double v, p; };
    std::vector<E> prev;
    for (size_t k = first; k < m; k++) {
        std::vector<E> cur;
        int sz = cu.geti();
        for (int i = 0; i < sz && !cu.bad; i++) { E e; e.id = cu.geti(); e.v = cu.get(); e.p = cu.get(); cur.push_back(e); }
        if (cu.bad) { o.fail("log too short"); return; }
        std::string where = fmt("after operation %zu:", k);
        for (auto &e : cur) if (where.size() < 3000) where += fmt(" %d(%.6f,%.3f)", e.id, e.v, e.p);
        std::unordered_set<int> ids;
        for (auto &e : cur) ids.insert(e.id);
        if (ids.size() != cur.size()) { o.fail("a subproblem is listed twice, " + where); return; }
        if (k == first && fill) {
            if (cur.size() != (direct ? fill : 2 * fill)) { o.fail(fmt("%zu open subproblems after %zu branchings", cur.size(), fill)); return; }
            double best = DBL_MAX;
            for (size_t i = cur.size(); i-- > 0;) {
                if (cur[i].v > best + eps * (1 + 1e-9)) { o.fail(fmt("after %zu branchings %d is listed before one whose bound is smaller by more than the tolerance", fill, cur[i].id)); return; }
                best = std::min(best, cur[i].v);
            }
            prev = cur;
            continue;
        }
        ids.clear();
        for (auto &q : prev) ids.insert(q.id);
        if (flat[4 * k] == 0) {
            if (cur.size() != (prev.empty() ? 0 : prev.size() - 1)) { o.fail("removing the head: " + where); return; }
            for (size_t i = 0; i < cur.size(); i++) if (cur[i].id != prev[i + 1].id) { o.fail("removing the head disturbed the rest, " + where); return; }
        } else {
            std::vector<E> old, fresh;
            for (auto &e : cur) {
                bool was = ids.count(e.id) > 0;
                (was ? old : fresh).push_back(e);
            }
            if (old.size() != prev.size() || fresh.size() != 2) { o.fail(fmt("%zu of %zu kept, %zu added, ", old.size(), prev.size(), fresh.size()) + where); return; }
            for (size_t i = 0; i < old.size(); i++) if (old[i].id != prev[i].id) { o.fail("adding disturbed the order of the others, " + where); return; }
            for (auto &f : fresh) if (f.v != flat[4 * k + 1]) { o.fail("a child has another value, " + where); return; }
            if (hyb && fresh.size() == 2) {
                for (size_t i = 0; i < cur.size(); i++) {
                    bool isf = false;
                    for (auto &f : fresh) isf |= f.id == cur[i].id;
                    if (isf) break;
                    // cur[i] stands before every child: it must not be an equal with a clearly smaller probability
                    if (cur[i].v == flat[4 * k + 1] && fresh[0].p >= cur[i].p + 0.05 + 1e-6) {
                        o.fail(fmt("%d has the same bound and a clearly smaller probability, but stands before the new ones, ", cur[i].id) + where);
                        return;
                    }
                }
            }
            for (auto &q : prev) if (q.v == flat[4 * k + 1]) o.nontrivial = true;
        }
        double best = DBL_MAX;
        for (size_t i = cur.size(); i-- > 0;) {
            if (cur[i].v > best + eps * (1 + 1e-9)) { o.fail(fmt("%d is listed before one whose bound is smaller by more than the tolerance, ", cur[i].id) + where); return; }
            best = std::min(best, cur[i].v);
        }
        prev = cur;
    }
    o.label(hyb ? "mode:hybrid" : "mode:classic");
    if (m > 12) o.label(direct ? "more-than-65536-open" : fill > 1000 ? "more-than-30000-open" : fill ? "more-than-200-open" : "more-than-12-operations");
}
Registrar r13({"C13",
               "sequences of up to 30 branchings (with tied, nearly tied and clearly different bounds and probabilities) and removals of the head on the "
               "open list, some of them after 100 to 250 or 17000 other branchings, or with 66000 subproblems open; invariants of the order after every operation; non-trivial = a branching met an open subproblem with exactly its bound",
               [](int) {
                   return rc::gen::mapcat(inr(2, 30), [](int64_t m) {
                       return rc::gen::map(rc::gen::tuple(vecOf(4 * m, inr(0, 999)), inr(0, 1), inr(0, 1), inr(0, 9999)), [](const std::tuple<Vec, int64_t, int64_t, int64_t> &t) {
                           Case c;
                           Vec v = std::get<0>(t);
                           for (size_t i = 0; i < v.size(); i += 4) v[i] %= 100;
                           c["ops"] = v;
                           c["hyb"] = {std::get<1>(t)};
                           c["coarse"] = {std::get<2>(t)};
                           int64_t f = std::get<3>(t);
                           c["fill"] = {f == 9999 ? 66000 : f >= 9997 ? 17000 : f >= 9700 ? 100 + (f - 9700) / 2 : 0};
                           return c;
                       });
                   });
               },
               c13, 6000, 100000});

// ---- C16: the tour test ----------------------------------------------------------------------------------------------------------
void c16(const Case &c, Outcome &o) {
    int n = (int) c.i("n"), hyb = (int) c.i("hyb"), cand = (int) c.i("cand") % n;
    const Vec &r = c.at("raw");
    // a random tree over the other nodes (random shape), closed by two edges at the candidate
    std::vector<int> others;
    for (int i = 0; i < n; i++) if (i != cand) others.push_back(i);
    for (int i = n - 2; i > 0; i--) std::swap(others[i], others[r[i] % (i + 1)]);
    std::vector<std::pair<int, int>> es;
    int path = (int) c.i("path");       // 0..100: tendency to extend the last node
    for (int k = 1; k < n - 1; k++) {
        int to = r[n + k] % 100 < path ? k - 1 : (int) (r[2 * n + k] % k);
        es.push_back({others[to], others[k]});
    }
    int a = others[r[3 * n] % (n - 1)], b = others[r[3 * n + 1] % (n - 1)];
    if (c.i("ends")) {                   // leaves of the tree, the only way to a tour
        std::vector<int> deg(n, 0), lv;
        for (auto &e : es) { deg[e.first]++; deg[e.second]++; }
        for (int x : others) if (deg[x] <= 1) lv.push_back(x);
        a = lv[r[3 * n] % lv.size()];
        b = lv[r[3 * n + 1] % lv.size()];
    }
    if (a == b) b = others[(std::find(others.begin(), others.end(), a) - others.begin() + 1) % (n - 1)];
    es.push_back({cand, a});
    es.push_back({cand, b});
    // in any order and orientation
    for (int i = (int) es.size() - 1; i > 0; i--) std::swap(es[i], es[r[4 * n + i] % (i + 1)]);
    std::vector<double> W(n * n, 0), Pm(n * n, 0);
    double cost = 0, prob = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { W[i * n + j] = 1 + (i + j) % 7 + i * j % 5; Pm[i * n + j] = ((i + j) % 11) / 10.0; }
    std::vector<int> flat;
    for (auto &e : es) {
        flat.push_back(e.first);
        flat.push_back(e.second);
        cost += W[e.first * n + e.second];
        prob += Pm[e.first * n + e.second] / n;
    }
    const Lib &L = lib(fmt("b_n%d_h%d_p1", n <= 8 ? 8 : n <= 16 ? 16 : n <= 60 ? 60 : 300, hyb));
    auto vlog = (void (*)(double *, long)) L.sym("vb_log");
    auto vsize = (long (*)()) L.sym("vb_log_size");
    auto vsetup = (void (*)(int, const double *, const double *, int)) L.sym("vb_setup");
    auto vham = (void (*)(int, int, const int *)) L.sym("vb_hamiltonian");
    static std::vector<double> buf(4000);
    Iso iso = isolated([&](Sink &s) {
        vlog(buf.data(), (long) buf.size());
        vsetup(n, W.data(), Pm.data(), cand);
        vham(n, n, flat.data());
        s.put(buf.data(), std::min<long>(vsize(), (long) buf.size()) * sizeof(double));
        s.finish();
    });
    if (!iso.done()) { o.fail("the tour test " + iso.describe()); return; }
    std::vector<double> al(iso.payload.size() / sizeof(double));
    memcpy(al.data(), iso.payload.data(), al.size() * sizeof(double));
    Cur cu{al.data(), al.size()};
    bool verdict = cu.get() != 0;
    int m = cu.geti();
    std::set<std::pair<int, int>> got;
    bool dup = false;
    for (int i = 0; i < m && !cu.bad; i++) {
        int x = cu.geti(), y = cu.geti();
        dup |= !got.insert({std::min(x, y), std::max(x, y)}).second;
    }
    double lcost = cu.get(), lprob = cu.get();
    int le = cu.geti();
    // the only circuit of a 1-tree: strip leaves
    std::set<std::pair<int, int>> want;
    for (auto &e : es) want.insert({std::min(e.first, e.second), std::max(e.first, e.second)});
    for (bool ch = true; ch;) {
        ch = false;
        std::vector<int> deg(n, 0);
        for (auto &e : want) { deg[e.first]++; deg[e.second]++; }
        for (auto it = want.begin(); it != want.end();)
            if (deg[it->first] == 1 || deg[it->second] == 1) { it = want.erase(it); ch = true; } else ++it;
    }
    std::string where = fmt("1-tree at %d:", cand);
    for (auto &e : es) where += fmt(" %d-%d", e.first, e.second);
    bool tour = (int) want.size() == n;
    if (verdict != tour) o.fail(fmt("judged %s, but its circuit has %zu of %d edges: ", verdict ? "a tour" : "no tour", want.size(), n) + where);
    if (dup || got != want) {
        where += "; circuit reported:";
        for (auto &e : got) where += fmt(" %d-%d", e.first, e.second);
        o.fail("wrong circuit: " + where);
    }
    if (le != n || std::fabs(lcost - cost) > 1e-9) o.fail(fmt("%d edges of total %.6f, expected %d and %.6f: ", le, lcost, n, cost) + where);
    if (std::fabs(lprob - (hyb ? prob : 0)) > 1e-5) o.fail(fmt("probability %.6f, mean %.6f: ", lprob, prob) + where);
    o.label(tour ? "tour" : want.size() == 3 ? "triangle" : "partial-circuit");
    o.nontrivial = true;
}
Registrar r16({"C16",
               "random 1-trees of 4..16, sometimes up to 60 or 300, nodes (random tree plus two edges at the candidate, edges in any order and orientation, often a tour); the only "
               "circuit by stripping leaves; non-trivial = every case",
               [](int) {
                   return rc::gen::mapcat(rc::gen::map(inr(0, 520), [](int64_t z) { return z == 520 ? 300 : z < 507 ? 4 + z % 13 : 17 + (z - 507) * 43 / 12; }), [](int64_t n) {
                       return rc::gen::map(rc::gen::tuple(vecOf(5 * n + 2, inr(0, 9999)), inr(0, 1), inr(0, 100), rc::gen::elementOf(std::vector<int64_t>{30, 70, 95, 100}), inr(0, 1)),
                                           [n](const std::tuple<Vec, int64_t, int64_t, int64_t, int64_t> &t) {
                                               Case c;
                                               c["n"] = {n};
                                               c["raw"] = std::get<0>(t);
                                               c["hyb"] = {std::get<1>(t)};
                                               c["cand"] = {std::get<2>(t)};
                                               c["path"] = {std::get<3>(t)};
                                               c["ends"] = {std::get<4>(t)};
                                               return c;
                                           });
                   });
               },
               c16, 16000, 120000});

} // namespace
} // namespace vf
