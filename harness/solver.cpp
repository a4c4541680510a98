#include "solver.hpp"
#include <algorithm>
#include <cfloat>
#include <regex>
#include <sstream>
#include <unistd.h>

namespace vf {

bool Instance::complete() const {
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!has(i, j)) return false;
    return true;
}
double Instance::scale() const {
    double s = 0;
    for (auto &r : w) for (double v : r) s = std::max(s, std::fabs(v));
    return s;
}
std::string Instance::csv() const {
    std::string s;
    for (int i = 0; i < n; i++) s += fmt("%s(%.17g, %.17g)", i ? ";" : "", x[i], y[i]);
    s += "\n";
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) s += fmt("(%.17g, %.17g);", i == j ? 0.0 : w[i][j], i == j ? 0.0 : p[i][j]);
        s += "\n";
    }
    return s;
}

const char *style_name(int s) {
    static const char *k[] = {"random-matrix", "grid-ties", "unit-square", "few-values", "clustered",
                              "near-eps", "integer-1..100", "two-clusters-bridge", "float-tokens",
                              "integer-1..100000", "euclidean-0..1000", "grid-0..8-integer",
                              "millions", "large-offset", "many-magnitudes", "planted-ring"};
    return s >= 0 && s < NSTYLES ? k[s] : "?";
}

// Weight families on which the search tree explodes are only generated at sizes where it stays small.
static std::vector<int64_t> styles_for(int n) {
    std::vector<int64_t> v = {0, 2, 6, 8, 9, 10};
    if (n <= 14) { v.push_back(1); v.push_back(3); v.push_back(11); }
    if (n <= 12) { v.push_back(12); v.push_back(14); }
    if (n <= 9) v.push_back(13);
    if (n <= 10) v.push_back(4);
    if (n <= 9) v.push_back(5);
    if (n <= 8) v.push_back(7);
    return v;
}
static rc::Gen<Case> body(int n, bool sparse) {
    int m = n * (n - 1) / 2;
    return rc::gen::map(
        rc::gen::tuple(rc::gen::elementOf(styles_for(n)), vecOf(std::max(m, 2 * n), inr(0, 999)), inr(0, NPSTYLES - 1),
                       vecOf(m, inr(0, 1000)), sparse ? inr(0, 60) : rc::gen::just<int64_t>(0),
                       sparse ? vecOf(m, inr(0, 99)) : rc::gen::just(Vec())),
        [n](const std::tuple<int64_t, Vec, int64_t, Vec, int64_t, Vec> &t) {
            Case c;
            c["n"] = {n};
            c["style"] = {std::get<0>(t)};
            c["wraw"] = std::get<1>(t);
            c["pstyle"] = {std::get<2>(t)};
            c["praw"] = std::get<3>(t);
            c["missing_pct"] = {std::get<4>(t)};
            c["miss"] = std::get<5>(t);
            return c;
        });
}
rc::Gen<Case> genInstanceN(int n, bool sparse) { return body(n, sparse); }
rc::Gen<Case> genPlanted(std::vector<int64_t> ns, bool sparse) {
    return rc::gen::mapcat(rc::gen::elementOf(std::move(ns)), [sparse](int64_t n) {
        return rc::gen::map(body((int) n, sparse), [](Case c) { c["style"] = {PLANTED}; return c; });
    });
}
rc::Gen<Case> genInstance(int nlo, int nhi, bool sparse) {
    return rc::gen::mapcat(inr(nlo, nhi), [sparse](int64_t n) { return body((int) n, sparse); });
}

Instance build(const Case &c) {
    Instance in;
    int n = in.n = (int) c.i("n");
    int style = (int) c.i("style");
    const Vec &W = c.at("wraw");
    in.x.assign(n, 0);
    in.y.assign(n, 0);
    in.w.assign(n, std::vector<double>(n, 0));
    in.p.assign(n, std::vector<double>(n, 0));
    auto raw = [&](size_t k) -> long { return W.empty() ? 0 : (long) W[k % W.size()]; };
    bool coords = style == 1 || style == 2 || style == 4 || style == 7 || style == 10 || style == 11;
    for (int i = 0; i < n; i++) {
        long a = raw(2 * i), b = raw(2 * i + 1);
        switch (style) {
        case 1: in.x[i] = (a % 5) / 4.0; in.y[i] = (b % 5) / 4.0; break;
        case 4: in.x[i] = 0.5 * (a % 2) + (a / 20) / 500.0; in.y[i] = 0.5 * (b % 2) + (b / 20) / 500.0; break;
        case 7: in.x[i] = 0.9 * (i % 2) + (a / 100) / 100.0; in.y[i] = (b / 10) / 1000.0; break;
        case 10: in.x[i] = a; in.y[i] = b; break;
        case 11: in.x[i] = a % 9; in.y[i] = b % 9; break;
        default: in.x[i] = a / 1000.0; in.y[i] = b / 1000.0;
        }
    }
    size_t k = 0;
    // planted-ring: along a random ring the base weights lie in [1,2], elsewhere they are at least 2, so replacing k ring
    // edges by k others never pays; a potential per node shifts every tour by the same amount and hides the ring
    std::vector<int> pos(n, 0);
    std::vector<double> pi(n, 0);
    auto on_ring = [&](int i, int j) { int d = std::abs(pos[i] - pos[j]); return d == 1 || d == n - 1; };
    if (style == PLANTED) {
        in.ring.resize(n);
        for (int i = 0; i < n; i++) in.ring[i] = i;
        std::stable_sort(in.ring.begin(), in.ring.end(), [&](int a, int b) { return raw(a) < raw(b); });
        for (int q = 0; q < n; q++) pos[in.ring[q]] = q;
        static const double amp[] = {0, 0.05, 0.2, 1};
        for (int i = 0; i < n; i++) pi[i] = raw(n + i) / 1000.0 * amp[raw(0) % 4];
    }
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, k++) {
            double v;
            if (coords) {
                v = std::hypot(in.x[i] - in.x[j], in.y[i] - in.y[j]);
                if (v <= 0) v = 0.001;                 // coincident points: still an edge
            } else {
                long r = raw(k);
                switch (style) {
                case 3: v = (1 + r % 4) / 10.0; break;
                case 5: v = 0.2 + (r % 12) * 0.0011; break;
                case 6: v = 1 + r % 100; break;
                case 9: v = 1 + (r * 7919) % 100000; break;
                case 8: v = (r + 1) * 1.0000001e-3 / 3; break;
                case 12: v = (1 + r) * 1e6; break;
                case 13: {
                    static const double base[] = {2e6, 2e6, 5e7, 1e8}, unit[] = {1000, 1000, 10, 1};
                    v = base[raw(0) % 4] + (1 + r % 100) * unit[raw(0) % 4];
                    break;
                }
                case PLANTED: {
                    static const double far[] = {0.2, 1, 4, 40};
                    v = (on_ring(i, j) ? 1 + r / 1000.0 : 2 + r / 1000.0 * far[raw(1) % 4]) + pi[i] + pi[j];
                    break;
                }
                case 14: v = (1 + r / 10 % 10) * std::pow(10.0, (double) (r % 10) - 4); break;
                default: v = (r + 1) / 1000.0;
                }
            }
            in.w[i][j] = in.w[j][i] = v;
        }
    const Vec &P = c.at("praw");
    int ps = (int) c.i("pstyle");
    std::vector<int> opt;
    if (ps == 8 && n <= 12) held_karp(in, &opt);
    auto on_opt = [&](int i, int j) {
        for (int q = 0; q < (int) opt.size(); q++) {
            int a = opt[q], b = opt[(q + 1) % opt.size()];
            if ((a == i && b == j) || (a == j && b == i)) return true;
        }
        return false;
    };
    k = 0;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, k++) {
            double r = (P.empty() ? 0 : P[k % P.size()]) / 1000.0, v;
            switch (ps) {
            case 0: v = 0; break;
            case 1: v = r; break;
            case 2: v = r < 0.5 ? 0 : 1; break;
            case 3: v = 1; break;
            case 4: v = r * r * r * 9e-5; break;
            case 5: v = (j == i + 1 || (i == 0 && j == n - 1)) ? 0.97 : 0.02; break;   // a confident, arbitrary tour
            case 8: v = on_opt(i, j) ? 0.95 : 0.1 * r; break;                           // knows an optimal tour
            case 6: v = 1 / (1 + 20 * in.w[i][j]); break;                               // prefers short edges
            default: v = 1 - 1 / (1 + 20 * in.w[i][j]); break;                          // prefers long edges
            }
            in.p[i][j] = in.p[j][i] = v;
        }
    const Vec &M = c.at("miss");
    if (!M.empty() && c.i("missing_pct") > 0) {
        k = 0;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++, k++)
                if (M[k % M.size()] < c.i("missing_pct") && !(style == PLANTED && on_ring(i, j))) in.w[i][j] = in.w[j][i] = 0;
    }
    if (style == PLANTED) {
        in.planted = 0;
        for (int q = 0; q < n; q++) in.planted += in.w[in.ring[q]][in.ring[(q + 1) % n]];
    }
    return in;
}

std::optional<double> held_karp(const Instance &in, std::vector<int> *order) {
    int n = in.n;
    if (n < 3) return std::nullopt;
    int m = n - 1;                    // node n-1 is the start
    const double INF = DBL_MAX / 4;
    std::vector<double> d((size_t) (1 << m) * m, INF);
    auto W = [&](int i, int j) { return in.has(i, j) ? in.w[i][j] : INF; };
    for (int i = 0; i < m; i++) d[(size_t) (1 << i) * m + i] = W(n - 1, i);
    for (int s = 1; s < (1 << m); s++)
        for (int i = 0; i < m; i++) {
            if (!(s >> i & 1)) continue;
            double cur = d[(size_t) s * m + i];
            if (cur >= INF) continue;
            for (int j = 0; j < m; j++) {
                if (s >> j & 1) continue;
                double nv = cur + W(i, j);
                double &t = d[(size_t) (s | 1 << j) * m + j];
                if (nv < t) t = nv;
            }
        }
    double best = INF;
    int last = -1, full = (1 << m) - 1;
    for (int i = 0; i < m; i++) {
        double v = d[(size_t) full * m + i] + W(i, n - 1);
        if (v < best) { best = v; last = i; }
    }
    if (best >= INF) return std::nullopt;
    if (order) {
        order->assign(1, n - 1);
        int s = full, c = last;
        while (true) {
            order->push_back(c);
            int ps = s & ~(1 << c);
            if (!ps) break;
            int bj = -1;
            double bv = INF;
            for (int j = 0; j < m; j++)
                if (ps >> j & 1) {
                    double v = d[(size_t) ps * m + j] + W(j, c);
                    if (v < bv) { bv = v; bj = j; }
                }
            s = ps;
            c = bj;
        }
    }
    return best;
}

static std::string after(const std::string &t, const std::string &label, bool *ok, size_t from = 0) {
    size_t p = t.find(label, from);
    if (p == std::string::npos) { *ok = false; return ""; }
    p += label.size();
    while (p < t.size() && (t[p] == ' ' || t[p] == '=')) p++;
    size_t e = p;
    while (e < t.size() && t[e] != ',' && t[e] != '\n' && t[e] != ' ') e++;
    return t.substr(p, e - p);
}

Report parse_report(const std::string &t) {
    Report r;
    bool ok = true;
    std::string missing;
    auto grab = [&](const char *label) {
        bool k = true;
        std::string v = after(t, label, &k);
        if (!k) { ok = false; missing += std::string(" '") + label + "'"; }
        return v;
    };
    auto num = [&](const char *label) {
        std::string v = grab(label);
        char *e = nullptr;
        double d = strtod(v.c_str(), &e);
        if (v.empty() || e == v.c_str()) { ok = false; missing += std::string(" number after '") + label + "'"; }
        return d;
    };
    r.candidate = (int) num("candidate node =");
    r.elapsed = num("elapsed time =");
    r.interrupted = grab("interrupted =");
    r.mst = grab("MST solved with:");
    r.ghosh = num("GHOSH_UB =");
    r.sub_ub = num("SUBPROBLEM_UB =");
    r.generated = (long) num("generated BBNodes =");
    r.explored = (long) num("explored BBNodes =");
    r.levels = (long) num("max tree level =");
    r.fixed = (long) num("Number of fixed edges =");
    r.cost = num("SUBPROBLEM with cost =");
    r.type = grab("type =");
    r.level = (long) num("level of the BB tree =");
    r.prob = num("prob_tour =");
    r.bbnode = (long) num("BBNode number =");
    r.time_to = num("time to obtain =");
    r.edge_to_branch = (long) num("edge to branch =");
    r.num_cycle = (long) num("Cycle with");
    {
        std::smatch m;
        static const std::regex mand("(\\d+) Mandatory edges"), forb("(\\d+) Forbidden edges");
        if (std::regex_search(t, m, mand)) r.mandatory = atol(m[1].str().c_str()); else { ok = false; missing += " mandatory"; }
        if (std::regex_search(t, m, forb)) r.forbidden = atol(m[1].str().c_str()); else { ok = false; missing += " forbidden"; }
    }
    size_t p = t.find("Cycle with");
    if (p != std::string::npos) {
        size_t e = t.find("Mandatory edges", p);
        std::string seg = t.substr(p, e == std::string::npos ? std::string::npos : e - p);
        static const std::regex arc("(\\d+) <-> (\\d+)");
        for (auto it = std::sregex_iterator(seg.begin(), seg.end(), arc); it != std::sregex_iterator(); ++it)
            r.cycle.push_back({atoi((*it)[1].str().c_str()), atoi((*it)[2].str().c_str())});
    }
    {
        static const std::regex up("Updated best value: ([-0-9.einfa]+), at time: ([-0-9.]+)");
        for (auto it = std::sregex_iterator(t.begin(), t.end(), up); it != std::sregex_iterator(); ++it) {
            r.updates++;
            r.update_values.push_back(atof((*it)[1].str().c_str()));
            r.update_times.push_back(atof((*it)[2].str().c_str()));
        }
    }
    r.parsed = ok;
    r.why = missing;
    return r;
}

Run run_solver(const std::string &libname, const std::string &csv, long step_us, long clock0, int cpu_s) {
    const Lib &L = lib(libname);
    auto vmain = (int (*)(int, char **)) L.sym("vf_main");
    auto vclock = (void (*)(long, long)) L.sym("vf_clock_set");
    auto vcalls = (long (*)()) L.sym("vf_clock_calls");
    auto vlive = (void (*)(long *, long *)) L.sym("vf_live");
    MemFile in(csv), out;
    Run r;
    r.iso = isolated(
        [&](Sink &s) {
            vclock(clock0, step_us);
            std::string a = in.path(), b = out.path();
            char prog[] = "BranchAndBound1Tree";
            char *av[] = {prog, &a[0], &b[0], nullptr};
            int rc = vmain(3, av);
            long v[3] = {vcalls(), 0, 0};
            vlive(&v[1], &v[2]);
            s.put(&rc, sizeof rc);
            s.put(v, sizeof v);
            s.finish();
        },
        cpu_s);
    if (r.iso.done() && r.iso.payload.size() >= sizeof(int) + 3 * sizeof(long)) {
        long v[3];
        memcpy(&r.rc, r.iso.payload.data(), sizeof r.rc);
        memcpy(v, r.iso.payload.data() + sizeof r.rc, sizeof v);
        r.clock_calls = v[0];
        r.live = v[1];
        r.live_bytes = v[2];
    }
    r.text = out.read();
    return r;
}

bool valid_tour(const Instance &in, const Report &r, double *cost, std::string *why) {
    int n = in.n;
    *cost = 0;
    if ((int) r.cycle.size() != n || r.num_cycle != n) {
        *why = fmt("the report's cycle has %zu edges (header says %ld), the instance %d nodes", r.cycle.size(), r.num_cycle, n);
        return false;
    }
    std::vector<int> seen(n, 0);
    for (int k = 0; k < n; k++) {
        auto [a, b] = r.cycle[k];
        if (a < 0 || a >= n || b < 0 || b >= n) { *why = fmt("edge %d <-> %d names an unknown node", a, b); return false; }
        if (!in.has(a, b)) { *why = fmt("edge %d <-> %d is not in the instance", a, b); return false; }
        if (b != r.cycle[(k + 1) % n].first) {
            *why = fmt("edge %d <-> %d is not followed by an edge out of %d", a, b, b);
            return false;
        }
        if (seen[a]++) { *why = fmt("node %d is visited twice", a); return false; }
        *cost += in.w[a][b];
    }
    return true;
}
void (*c08_steps)(const Case &, Outcome &) = nullptr;
rc::Gen<Case> (*c08_steps_gen)() = nullptr;
} // namespace vf
