// Whole-program properties of the branch-and-bound solver (CSV file in, report out).
#include "solver.hpp"
#include <random>
#include <set>
#include <algorithm>
#include <cstdlib>
#include <numeric>

namespace vf {

static std::string variant(int cap, int hyb, int prim, const char *fl = "") { return fmt("m_n%d_h%d_p%d%s", cap, hyb, prim, fl); }
static const char *NN1 = "CLOSED_NEAREST_NEIGHBOR", *NN2 = "CLOSED_NEAREST_NEIGHBOR_HYBRID";

static void classify(const Case &c, Outcome &o) {
    o.label(std::string("weights:") + style_name((int) c.i("style")));
    o.label(fmt("n:%02ld", (long) c.i("n")));
    if (c.f.count("hyb")) o.label(c.i("hyb") ? "mode:hybrid" : "mode:classic");
    if (c.f.count("prim")) o.label(c.i("prim") ? "mst:prim" : "mst:kruskal");
}

static bool finished(const Run &r, Outcome &o, const char *what) {
    if (!r.iso.done() || r.rc != 0) {
        o.fail(std::string(what) + ": the solver " + (r.iso.done() ? fmt("returned %d", r.rc) : r.iso.describe()));
        return false;
    }
    return true;
}
static bool readable(const Report &rep, Outcome &o, const char *what) {
    if (!rep.parsed) { o.fail(std::string(what) + ": unreadable report, missing" + rep.why); return false; }
    return true;
}
static double num_tol(const Instance &in) { return 2e-6 + 1e-9 * in.scale() * in.n; }

static rc::Gen<Case> with(rc::Gen<Case> g, std::vector<std::pair<std::string, rc::Gen<int64_t>>> extra) {
    for (auto &e : extra) {
        std::string k = e.first;
        g = rc::gen::map(rc::gen::pair(std::move(g), std::move(e.second)), [k](std::pair<Case, int64_t> p) {
            p.first[k] = {p.second};
            return p.first;
        });
    }
    return g;
}
static rc::Gen<int64_t> oneOf(std::vector<int64_t> v) { return rc::gen::elementOf(std::move(v)); }
// rare: the size of about one instance in 40
static rc::Gen<Case> sized(std::vector<int64_t> ns, bool sparse, std::vector<int64_t> rare = {}) {
    std::vector<int64_t> all;
    for (size_t k = 0; k < 39 * std::max<size_t>(rare.size(), 1); k++) all.push_back(ns[k % ns.size()]);
    all.insert(all.end(), rare.begin(), rare.end());
    return rc::gen::mapcat(rc::gen::elementOf(std::move(all)), [sparse](int64_t n) { return genInstanceN((int) n, sparse); });
}

// ---- C01 optimality on complete graphs ------------------------------------------------------------
static void c01(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    int cap = c.i("slack") && n < 8 ? 8 : n;             // built for exactly n nodes, or for up to 8
    classify(c, o);
    if (cap > n) o.label("fewer-nodes-than-maximum");
    bool big = std::isfinite(in.planted);
    std::optional<double> opt = big ? in.planted : held_karp(in);
    // a planted instance has any size: its search may end at the (virtual) time limit, and then claims no optimum
    Run r = run_solver(variant(cap, hyb, prim), in.csv(), big ? c.i("step_us") : 0, 1000000, big ? 200 : 30);
    if (!finished(r, o, "C01")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C01")) return;
    double tol = num_tol(in);
    if (big && rep.interrupted == "TRUE") {
        o.label("planted-not-finished");
        if (!(rep.cost >= *opt - tol)) o.fail(fmt("reported cost %.9f is below the optimum %.9f", rep.cost, *opt));
        return;
    }
    if (rep.interrupted != "FALSE") { o.fail("interrupted although no time passed"); return; }
    if (!(rep.cost <= *opt + eps_of(cap) + tol))
        o.fail(fmt("reported cost %.9f, optimum %.9f, tolerance %.9f", rep.cost, *opt, eps_of(cap)));
    if (!(rep.cost >= *opt - tol)) o.fail(fmt("reported cost %.9f is below the optimum %.9f", rep.cost, *opt));
    double cost;
    std::string why;
    if (!valid_tour(in, rep, &cost, &why)) o.fail(why);
    else if (!(cost <= *opt + eps_of(cap) + tol))
        o.fail(fmt("the reported tour costs %.9f, optimum %.9f, tolerance %.9f", cost, *opt, eps_of(cap)));
    o.nontrivial = rep.explored >= 2;
    if (rep.explored >= 2) o.label(big ? "planted-branched" : "branched");
    if (big && rep.generated > 2) o.label(n > 128 ? "planted-over-128-nodes" : "planted-solved");
    if (rep.fixed > 0) o.label("edges-fixed");
    if (rep.type != NN1 && rep.type != NN2) o.label("improved-on-NN");
}
static rc::Gen<Case> planted(std::vector<int64_t> ns, bool sparse) {
    // virtual microseconds per clock() call: the more nodes, the fewer subproblems fit into the 600 s
    return rc::gen::map(with(genPlanted(std::move(ns), sparse), {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"slack", oneOf({0})}}), [](Case c) {
        int64_t n = c.i("n");
        c["step_us"] = {n <= 20 ? 50000 : n <= 30 ? 200000 : n <= 50 ? 1000000 : n <= 100 ? 4000000 : 8000000};
        return c;
    });
}
static Registrar r01({"C01",
                      "complete instances of 3..12, sometimes 14 or 16, nodes in fifteen weight families, and of 20..150 nodes with a planted optimal tour, classic/hybrid x Prim/Kruskal, built for exactly n or for more "
                      "nodes; exact optimum by the Held-Karp dynamic programme; non-trivial = the search explored at least two subproblems",
                      [](int) {
                          return rc::gen::weightedOneOf<Case>({{40, with(sized({3, 4, 5, 6, 7, 7, 8, 8, 8, 9, 9, 10, 10, 12}, false, {14, 16}),
                                      {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"slack", oneOf({0, 0, 1})}})},
                                      {1, planted({20, 20, 20, 20, 30, 30, 30, 50, 50, 75, 100, 150}, false)}});
                      },
                      c01, 12000, 200000});

// ---- C02 the reported tour ------------------------------------------------------------------------
static void c02(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    classify(c, o);
    // virtual seconds per clock() call: small = the search completes or runs for thousands of subproblems
    static const long steps[] = {150000, 1000000, 10000000, 100000000, 700000000};
    Run r = run_solver(variant(n, hyb, prim), in.csv(), n >= 60 ? steps[2 + c.i("step") % 3] : steps[c.i("step") % 5], 1000000, n >= 60 ? 120 : 30);
    if (!finished(r, o, "C02")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C02")) return;
    double cost;
    std::string why;
    if (!valid_tour(in, rep, &cost, &why)) { o.fail(why); return; }
    double tol = num_tol(in);
    if (!(std::fabs(cost - rep.cost) <= tol)) o.fail(fmt("stated cost %.9f, but the tour's edges add up to %.9f", rep.cost, cost));
    if (rep.updates && !(std::fabs(rep.update_values.back() - rep.cost) <= tol))
        o.fail(fmt("last announced best value %.9f, reported cost %.9f", rep.update_values.back(), rep.cost));
    if (rep.interrupted == "TRUE") o.label("interrupted");
    if (rep.explored >= 2) o.label("branched");
    if (rep.updates) o.label("improved-on-NN");
    else o.label(rep.type == NN2 ? "from-prob-NN" : "from-NN");
    o.nontrivial = rep.explored >= 2 || rep.updates;
}
static Registrar r02({"C02",
                      "complete instances of 3..40, sometimes 60 or 100 (thorough: 150) nodes, classic/hybrid x Prim/Kruskal, run to completion or cut by a virtual clock; the cycle "
                      "printed in the report is walked against the input; non-trivial = at least two subproblems, or an improved incumbent",
                      [](int t) {
                          std::vector<int64_t> ns;
                          for (int k = 0; k < 7; k++) for (int64_t n : {3, 4, 5, 6, 7, 8, 8, 10, 12, 15, 20, 30, 40}) ns.push_back(n);
                          ns.push_back(60);
                          ns.push_back(100);
                          if (t) ns.push_back(150);
                          return with(sized(ns, false), {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"step", inr(0, 4)}});
                      },
                      c02, 2500, 40000});

// ---- C03 probabilities never change the optimum ---------------------------------------------------
static std::string strip_times(std::string t) {
    static const char *keys[] = {"elapsed time =", "time to obtain =", "at time:"};
    for (auto k : keys) {
        size_t p = 0;
        while ((p = t.find(k, p)) != std::string::npos) {
            p += strlen(k);
            size_t e = t.find_first_of(",\n", p), e2 = t.find(" and", p);
            e = std::min(e, e2);
            if (e == std::string::npos) e = t.size();
            t.erase(p, e - p);
        }
    }
    return t;
}
static void c03(const Case &c, Outcome &o) {
    Instance a = build(c);
    Case c2 = c;
    c2["pstyle"] = {c.i("pstyle2")};
    c2["praw"] = c.at("praw2");
    Instance b = build(c2);
    int n = a.n, prim = (int) c.i("prim");
    classify(c, o);
    Run ra = run_solver(variant(n, 1, prim), a.csv()), rb = run_solver(variant(n, 1, prim), b.csv());
    Run ca = run_solver(variant(n, 0, prim), a.csv()), cb = run_solver(variant(n, 0, prim), b.csv());
    const Run *runs[] = {&ra, &rb, &ca, &cb};
    const char *names[] = {"hybrid, first probabilities", "hybrid, second probabilities", "classic", "classic, second probabilities"};
    Report reps[4];
    double costs[4];
    for (int k = 0; k < 4; k++) {
        if (!finished(*runs[k], o, names[k])) return;
        reps[k] = parse_report(runs[k]->text);
        if (!readable(reps[k], o, names[k])) return;
        std::string why;
        if (!valid_tour(a, reps[k], &costs[k], &why)) { o.fail(std::string(names[k]) + ": " + why); return; }
    }
    double tol = num_tol(a);
    for (int k = 0; k < 3; k++)
        for (int l = 0; l < k; l++)
            if (!(std::fabs(costs[k] - costs[l]) <= eps_of(n) + tol))
                o.fail(fmt("%s finds %.9f, %s finds %.9f: more than %.9f apart", names[k], costs[k], names[l], costs[l], eps_of(n)));
    if (strip_times(ca.text) != strip_times(cb.text)) o.fail("the classic solver's report depends on the probabilities");
    o.nontrivial = reps[0].explored >= 2 && (reps[0].explored != reps[1].explored || reps[0].cycle != reps[1].cycle || reps[0].generated != reps[2].generated || reps[0].candidate != reps[2].candidate);
    if (reps[0].explored != reps[1].explored) o.label("probabilities-changed-the-search");
    if (reps[0].candidate != reps[1].candidate) o.label("probabilities-changed-the-candidate");
}
static Registrar r03({"C03",
                      "one weight matrix with two unrelated probability matrices (random, 0/1, misleading tour, tiny, weight-correlated), hybrid "
                      "twice and classic twice; non-trivial = the search branched and the probabilities changed its course",
                      [](int) {
                          return rc::gen::mapcat(oneOf({4, 5, 6, 7, 8, 8, 9, 10, 12, 4, 5, 6, 7, 8, 8, 9, 10, 12, 4, 5, 6, 7, 8, 8, 9, 10, 12, 14, 16}), [](int64_t n) {
                              return rc::gen::map(rc::gen::pair(with(genInstanceN((int) n, false), {{"prim", oneOf({1, 1, 0})}, {"pstyle2", inr(0, NPSTYLES - 1)}}),
                                                                vecOf(n * (n - 1) / 2, inr(0, 1000))),
                                                  [](std::pair<Case, Vec> p) { p.first["praw2"] = p.second; return p.first; });
                          });
                      },
                      c03, 3500, 60000});

// ---- C04 incomplete graphs --------------------------------------------------------------------------
static void c04(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    classify(c, o);
    bool big = std::isfinite(in.planted);
    std::optional<double> opt = big ? in.planted : held_karp(in);
    Run r = run_solver(variant(n, hyb, prim), in.csv(), big ? c.i("step_us") : 0, 1000000, big ? 200 : 30);
    if (!finished(r, o, "C04")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C04")) return;
    if (big && rep.interrupted == "TRUE") {              // no claim of an optimum; a tour, if any, is one of the graph
        double cost;
        std::string why;
        o.label("planted-not-finished");
        if (!rep.cycle.empty() && !valid_tour(in, rep, &cost, &why)) o.fail(why);
        return;
    }
    if (big) o.label(rep.generated > 2 ? "planted-branched" : "planted-solved");
    o.label(opt ? "has-a-tour" : "has-no-tour");
    if (in.complete()) o.label("complete");
    double tol = num_tol(in);
    if (!opt) {
        if (!rep.cycle.empty()) o.fail(fmt("a tour of %zu edges is reported, but the graph has no Hamiltonian cycle", rep.cycle.size()));
        int deg2 = 1;
        for (int i = 0; i < n; i++) {
            int d = 0;
            for (int j = 0; j < n; j++) d += in.has(i, j);
            if (d < 2) deg2 = 0;
        }
        o.nontrivial = deg2;
        if (deg2) o.label("no-tour-but-all-degrees>=2");
        return;
    }
    double cost;
    std::string why;
    if (!valid_tour(in, rep, &cost, &why)) { o.fail(why); return; }
    if (!(std::fabs(cost - rep.cost) <= tol)) o.fail(fmt("stated cost %.9f, but the tour's edges add up to %.9f", rep.cost, cost));
    if (!(cost <= *opt + eps_of(n) + tol)) o.fail(fmt("reported tour costs %.9f, optimum %.9f, tolerance %.9f", cost, *opt, eps_of(n)));
    o.nontrivial = !in.complete();
    if (rep.explored >= 2) o.label("branched");
}
static Registrar r04({"C04",
                      "graphs of 4..10, sometimes up to 50, nodes with 0-60 % of the edges absent (weight 0), classic/hybrid x Prim/Kruskal; existence and cost of a "
                      "Hamiltonian cycle by dynamic programme, or by construction for the large ones; non-trivial = an edge is absent and all degrees are at least 2",
                      [](int) {
                          return rc::gen::weightedOneOf<Case>({{60, with(sized({4, 5, 6, 6, 7, 7, 8, 8, 9, 10}, true), {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}})},
                                                               {1, planted({12, 15, 20, 20, 30, 50}, true)}});
                      },
                      c04, 12000, 200000});

// ---- C05 the time limit -----------------------------------------------------------------------------
static void c05(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb");
    classify(c, o);
    long step = c.i("step_us"), clock0 = c.i("clock0");
    auto opt = held_karp(in);
    Run r = run_solver(variant(n, hyb, 1), in.csv(), step, clock0);
    if (!finished(r, o, "C05")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C05")) return;
    double s = step / 1e6, cost, tol = num_tol(in);
    std::string why;
    // the run's virtual duration, seen from outside: every call advances the clock by s
    double total = r.clock_calls * s;
    bool tr = rep.interrupted == "TRUE";
    if (tr && !(total > 600)) o.fail(fmt("reported as interrupted after only %.3f s", total));
    if (!tr && !(rep.elapsed <= 601.5 + 4 * s)) o.fail(fmt("not reported as interrupted although the search took %.3f s", rep.elapsed));
    if (!(rep.elapsed <= total + 1e-3) || !(rep.elapsed >= 0)) o.fail(fmt("elapsed time %.6f s, but the clock only advanced by %.6f s", rep.elapsed, total));
    if (!(rep.elapsed <= 601.5 + (2 * n + 16) * s)) o.fail(fmt("the search went on until %.3f s, the limit is 600 s (clock step %.3f s)", rep.elapsed, s));
    if (!valid_tour(in, rep, &cost, &why)) { o.fail((tr ? "interrupted: " : "") + why); return; }
    if (!(std::fabs(cost - rep.cost) <= tol)) o.fail(fmt("stated cost %.9f, tour %.9f", rep.cost, cost));
    if (!tr && !(cost <= *opt + eps_of(n) + tol)) o.fail(fmt("not interrupted, yet the tour costs %.9f and the optimum is %.9f", cost, *opt));
    // the incumbent is never worse than the best nearest-neighbour tour
    double nn = 1e300;
    bool ties = false;
    for (int st = 0; st < n; st++) {
        std::vector<int> seen(n, 0);
        int cur = st;
        double len = 0;
        for (int k = 1; k < n; k++) {
            seen[cur] = 1;
            int b = -1;
            for (int j = 0; j < n; j++)
                if (!seen[j] && j != cur) {
                    if (b >= 0 && in.w[cur][j] == in.w[cur][b]) ties = true;
                    if (b < 0 || in.w[cur][j] < in.w[cur][b]) b = j;
                }
            len += in.w[cur][b];
            cur = b;
        }
        nn = std::min(nn, len + in.w[cur][st]);
    }
    if (!ties && !(cost <= nn + tol)) o.fail(fmt("the tour (%.9f) is worse than the nearest-neighbour tour (%.9f)", cost, nn));
    o.label(tr ? "interrupted" : "completed");
    if (tr && rep.explored > 1) o.label("interrupted-mid-search");
    if (tr && rep.explored == 0) o.label("interrupted-before-search");
    if (tr && cost > *opt + eps_of(n) + tol) o.label("interrupted-with-suboptimal-tour");
    o.nontrivial = tr || total > 300;
}
static Registrar r05({"C05",
                      "hard small instances (two clusters, near-equal weights) under a virtual clock whose step makes the 600 s limit fall before, "
                      "inside or after the search; non-trivial = interrupted, or finished in the second half of the limit",
                      [](int) {
                          auto hard = rc::gen::map(rc::gen::pair(sized({5, 6, 7, 8, 8, 8, 9}, false), oneOf({7, 7, 5, 4, 1, 0, 2})), [](std::pair<Case, int64_t> p) {
                              int n = (int) p.first.i("n");
                              if (!(p.second == 7 && n > 8)) p.first["style"] = {p.second};
                              return p.first;
                          });
                          auto st = rc::gen::mapcat(inr(0, 4), [](int64_t k) {
                              static const int64_t lo[] = {20000, 200000, 1000000, 5000000, 60000000}, hi[] = {200000, 1000000, 5000000, 60000000, 900000000};
                              return inr(lo[k], hi[k]);
                          });
                          return with(std::move(hard), {{"hyb", inr(0, 1)}, {"step_us", st}, {"clock0", oneOf({0, 1000, 1000000, 5000000000ll})}});
                      },
                      c05, 6000, 100000});

// ---- C06 determinism ----------------------------------------------------------------------------------
static void c06(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb");
    int cap = c.i("slack") && n < 8 ? 8 : n;
    classify(c, o);
    long step = c.i("timed") ? 1000 : 0;
    Run z = run_solver(variant(cap, hyb, 1, "_zero"), in.csv(), step), p = run_solver(variant(cap, hyb, 1, "_pattern"), in.csv(), step);
    Run z2 = run_solver(variant(cap, hyb, 1, "_zero"), in.csv(), step);
    if (!finished(z, o, "C06") || !finished(p, o, "C06") || !finished(z2, o, "C06")) return;
    auto diff = [&](const std::string &a, const std::string &b, const char *what) {
        if (a == b) return;
        size_t k = 0;
        while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
        size_t s = k > 60 ? k - 60 : 0;
        o.fail(fmt("%s: the reports differ: \"%s\" / \"%s\"", what, a.substr(s, 120).c_str(), b.substr(s, 120).c_str()));
    };
    diff(z.text, p.text, "different initial contents of the stack");
    diff(z.text, z2.text, "the same run twice");
    Report rep = parse_report(z.text);
    if (rep.parsed) {
        o.nontrivial = rep.num_cycle > 0;
        if (rep.explored >= 2) o.label("branched");
        if (rep.type == NN1) o.label("NN-incumbent");
        if (rep.type == NN2) o.label("prob-NN-incumbent");
        if (rep.num_cycle == 0) o.label("no-tour");
    }
}
static Registrar r06({"C06",
                      "the same file solved by two builds that differ only in the initial contents of automatic variables (zeros / a pattern), and "
                      "twice by the same build, under a fixed virtual clock; non-trivial = a tour is reported",
                      [](int) {
                          return with(rc::gen::weightedOneOf<Case>({{39, sized({3, 4, 5, 6, 7, 8, 9, 10, 12}, true)}, {1, sized({14, 16}, false)}}), {{"hyb", inr(0, 1)}, {"slack", oneOf({0, 0, 1})}, {"timed", inr(0, 1)}});
                      },
                      c06, 5000, 80000});

// ---- C07 memory ----------------------------------------------------------------------------------------
static void c07(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    int cap = c.i("slack") && n < 8 ? 8 : n;
    classify(c, o);
    Run r = run_solver(variant(cap, hyb, prim, "_asan"), in.csv(), c.i("cut") ? 9000000 : 0, 1000000, 120);
    if (r.iso.kind == Iso::EXITED || r.iso.kind == Iso::SIGNALLED) { o.fail("sanitized solver " + r.iso.describe()); return; }
    if (!finished(r, o, "C07")) return;
    if (r.iso.err.find("runtime error") != std::string::npos || r.iso.err.find("Sanitizer") != std::string::npos) o.fail("sanitizer: " + r.iso.err.substr(0, 1500));
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C07")) return;
    if (r.live > 8)
        o.fail(fmt("%ld blocks (%ld bytes) allocated during the run were never freed; %ld subproblems were explored", r.live, r.live_bytes, rep.explored));
    if (rep.explored >= 2) o.label("branched");
    if (rep.interrupted == "TRUE") o.label("interrupted");
    if (!in.complete()) o.label("incomplete");
    o.nontrivial = rep.explored >= 2;
}
static Registrar r07({"C07",
                      "complete and incomplete instances of 3..12, sometimes 16 or 20, nodes, built for exactly n or more nodes, AddressSanitizer and UBSan over the whole "
                      "program plus a balance of every allocation; non-trivial = the search explored at least two subproblems",
                      [](int) {
                          return with(rc::gen::oneOf(sized({3, 4, 5, 6, 7, 8, 8, 8, 9, 12}, true), sized({5, 6, 7, 8, 8, 9}, false, {16, 20})),
                                      {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"slack", oneOf({0, 0, 1})}, {"cut", oneOf({0, 0, 0, 1})}});
                      },
                      c07, 2500, 40000});

struct OneTree { double cost; double prob; bool exists, unique; };
static OneTree one_tree_at(const Instance &in, int c) {
    int n = in.n;
    OneTree t{0, 0, true, true};
    std::vector<std::tuple<double, int, int>> es;
    std::vector<std::pair<double, int>> ce;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            if (!in.has(i, j)) continue;
            if (i == c || j == c) ce.push_back({in.w[i][j], i == c ? j : i});
            else es.push_back({in.w[i][j], i, j});
        }
    std::sort(es.begin(), es.end());
    std::sort(ce.begin(), ce.end());
    std::vector<int> comp(n);
    std::iota(comp.begin(), comp.end(), 0);
    int k = 0;
    for (size_t a = 0; a < es.size();) {
        // edges of one weight: the tree is unique iff every one of them that joins two components (before the group) ends up in it
        size_t b = a;
        std::vector<int> before = comp;
        int joined = 0, useful = 0;
        for (; b < es.size() && std::get<0>(es[b]) == std::get<0>(es[a]); b++) {
            auto [w, i, j] = es[b];
            if (before[i] != before[j]) useful++;
            if (comp[i] != comp[j]) {
                int x = comp[i], y = comp[j];
                for (int &v : comp) if (v == y) v = x;
                t.cost += w;
                t.prob += in.p[i][j] / n;
                k++;
                joined++;
            }
        }
        if (joined != useful) t.unique = false;
        a = b;
    }
    if (k != n - 2 || ce.size() < 2) { t.exists = false; return t; }
    for (int q = 0; q < 2; q++) { t.cost += ce[q].first; t.prob += in.p[c][ce[q].second] / n; }
    if (ce.size() > 2 && ce[2].first == ce[1].first) t.unique = false;
    return t;
}
// ---- C08 the report's statistics --------------------------------------------------------------------------
static void c08(const Case &c, Outcome &o) {
    if (c.f.count("ckind")) { c08_steps(c, o); return; }
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    classify(c, o);
    long step = c.i("step_us");
    Run r = run_solver(variant(n, hyb, prim), in.csv(), step);
    if (!finished(r, o, "C08")) return;
    Report p = parse_report(r.text);
    if (!readable(p, o, "C08")) return;
    double tol = num_tol(in), s = step / 1e6;
    if (p.candidate < 0 || p.candidate >= n) o.fail(fmt("candidate node %d", p.candidate));
    if (p.interrupted != "TRUE" && p.interrupted != "FALSE") o.fail("interrupted = " + p.interrupted);
    if (p.mst != (prim ? "Prim" : "Kruskal")) o.fail("MST solved with " + p.mst);
    if (!(std::fabs(p.ghosh - std::sqrt((double) n) * 1.27) < 1e-4)) o.fail(fmt("GHOSH_UB %.6f", p.ghosh));
    if (!(std::fabs(p.sub_ub - std::sqrt((double) n) * 1.27 / 1000) < 1e-5)) o.fail(fmt("SUBPROBLEM_UB %.6f", p.sub_ub));
    if (p.generated < 1 || p.generated % 2 != 1) o.fail(fmt("%ld generated subproblems: not the root plus two per branching", p.generated));
    if (p.explored > p.generated) o.fail(fmt("%ld explored but only %ld generated", p.explored, p.generated));
    if (p.interrupted == "FALSE" && p.explored < 1) o.fail("nothing explored, not even the root");
    if (2 * p.explored + 1 < p.generated) o.fail(fmt("%ld generated by at most %ld branchings", p.generated, p.explored));
    if (p.levels < 1 || 2 * (p.levels - 1) + 1 > p.generated) o.fail(fmt("%ld levels with %ld generated subproblems", p.levels, p.generated));
    if (p.fixed < 0) o.fail(fmt("%ld fixed edges", p.fixed));
    if (!(p.elapsed >= 0 && p.elapsed <= r.clock_calls * s + 1e-3)) o.fail(fmt("elapsed %.6f, clock advanced %.6f", p.elapsed, r.clock_calls * s));
    if (!(p.time_to >= -1e-3 && p.time_to <= p.elapsed + 1e-3 + 1e-5 * p.elapsed))
        o.fail(fmt("the best tour was obtained after %.6f s of a search of %.6f s", p.time_to, p.elapsed));
    bool nn = p.type == NN1 || p.type == NN2;
    if (p.type == NN2 && !hyb) o.fail("type " + p.type + " in classic mode");
    if (nn != (p.updates == 0)) o.fail(fmt("type %s after %d announced improvements", p.type.c_str(), p.updates));
    if (!nn && p.type != "CLOSED_SUBGRADIENT" && p.type != "CLOSED_1TREE") o.fail("the best solution has type " + p.type);
    if (!nn && p.level == 1 && p.candidate >= 0 && p.candidate < n) {     // found at the root: by its minimum 1-tree, or by the subgradient
        OneTree t = one_tree_at(in, p.candidate);
        bool integral = true;
        for (auto &row : in.w) for (double v : row) integral &= v == std::floor(v);
        if (p.type == "CLOSED_1TREE" && !(std::fabs(p.cost - t.cost) <= tol))
            o.fail(fmt("type CLOSED_1TREE, but the tour costs %.9f and the minimum 1-tree %.9f", p.cost, t.cost));
        if (p.type == "CLOSED_SUBGRADIENT" && integral && t.unique && !(p.cost > t.cost + 0.5))
            o.fail(fmt("type CLOSED_SUBGRADIENT, but the tour is the minimum 1-tree, of cost %.9f", t.cost));
    }
    if (nn && (p.level != 0 || p.bbnode != 0)) o.fail(fmt("an initial tour at level %ld, node %ld", p.level, p.bbnode));
    if (!nn && (p.level < 1 || p.level > p.levels || p.bbnode < 1 || p.bbnode > p.generated))
        o.fail(fmt("best solution at level %ld of %ld, node %ld of %ld", p.level, p.levels, p.bbnode, p.generated));
    for (size_t k = 0; k + 1 < p.update_values.size(); k++) {
        if (!(p.update_values[k + 1] < p.update_values[k] + 1e-6)) o.fail(fmt("announced best value rises from %.6f to %.6f", p.update_values[k], p.update_values[k + 1]));
        if (!(p.update_times[k + 1] >= p.update_times[k] - 1e-3)) o.fail("announced times decrease");
    }
    double cost, prob = 0;
    std::string why;
    if (!valid_tour(in, p, &cost, &why)) { o.fail(why); return; }
    if (p.updates && !(std::fabs(p.update_values.back() - p.cost) <= tol)) o.fail("the last announced best value is not the reported cost");
    if (hyb)
        for (auto &e : p.cycle) prob += in.p[e.first][e.second] / n;
    if (!(std::fabs(p.prob - prob) <= 2e-6)) o.fail(fmt("prob_tour %.6f, mean probability of the tour's edges %.9f", p.prob, prob));
    if (p.mandatory < 0 || p.forbidden < 0 || p.forbidden > n * (n + 1) / 2 + 1) o.fail(fmt("%ld mandatory, %ld forbidden edges", p.mandatory, p.forbidden));
    o.nontrivial = p.explored >= 2;
    if (p.updates) o.label("improved-on-NN");
    if (p.updates >= 2) o.label("improved-twice");
    if (p.level >= 2) o.label("best-found-below-the-root");
    if (p.interrupted == "TRUE") o.label("interrupted");
    o.label("type:" + p.type + (nn ? "" : p.level == 1 ? " at the root" : " below the root"));
}
static Registrar r08({"C08",
                      "complete instances of 3..12 nodes, classic/hybrid x Prim/Kruskal, under a virtual clock; every number of the report is checked "
                      "against the input, the clock and the other numbers; a third of the cases instead run the search on 4..8 nodes, complete or not, and again step by step, "
                      "and compare its counts with what the steps did; non-trivial = at least two subproblems explored",
                      [](int) {
                          rc::Gen<Case> whole = with(sized({3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 12}, false), {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"step_us", oneOf({0, 100, 1000, 40000, 3000000})}});
                          return rc::gen::mapcat(inr(0, 2), [whole](int64_t k) { return k == 0 ? c08_steps_gen() : whole; });
                      },
                      c08, 10000, 150000});

// ---- C09 relabelling and scaling, sizes beyond the oracle ----------------------------------------------------
static void c09(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb");
    classify(c, o);
    std::vector<int> perm(n);
    std::iota(perm.begin(), perm.end(), 0);
    const Vec &sh = c.at("perm");
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[sh[i % sh.size()] % (i + 1)]);
    Instance q = in;
    for (int i = 0; i < n; i++) {
        q.x[perm[i]] = in.x[i];
        q.y[perm[i]] = in.y[i];
        for (int j = 0; j < n; j++) { q.w[perm[i]][perm[j]] = in.w[i][j]; q.p[perm[i]][perm[j]] = in.p[i][j]; }
    }
    // adding the same amount to every edge adds n times that amount to every tour
    Instance t = in;
    double shift = 0.25 * in.scale();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) t.w[i][j] += shift;
    struct { const char *name; const Instance *in; int hyb, prim; double off; } runs[] = {
        {"as given", &in, hyb, 1, 0}, {"renumbered", &q, hyb, 1, 0}, {"shifted", &t, hyb, 1, n * shift},
        {"other mode", &in, 1 - hyb, 1, 0}, {"Kruskal", &in, hyb, 0, 0}};
    double best[5];
    bool any = false;
    int done = 0;
    for (int k = 0; k < 5; k++) {
        // the virtual clock stops runaway searches; an interrupted run claims no optimum
        Run r = run_solver(variant(n, runs[k].hyb, runs[k].prim), runs[k].in->csv(), 400000);
        if (!finished(r, o, runs[k].name)) return;
        Report rep = parse_report(r.text);
        if (!readable(rep, o, runs[k].name)) return;
        std::string why;
        if (!valid_tour(*runs[k].in, rep, &best[k], &why)) { o.fail(std::string(runs[k].name) + ": " + why); return; }
        best[k] -= runs[k].off;
        if (rep.interrupted == "TRUE") { best[k] = NAN; o.label("interrupted"); }
        else done++;
        any |= rep.explored >= 2;
    }
    double tol = 4 * num_tol(in);
    for (int k = 0; k < 5; k++)
        for (int l = 0; l < k; l++)
            if (!std::isnan(best[k]) && !std::isnan(best[l]) && !(std::fabs(best[k] - best[l]) <= eps_of(n) + tol))
                o.fail(fmt("optimum %.9f %s, %.9f %s", best[k], runs[k].name, best[l], runs[l].name));
    o.nontrivial = any && done >= 2;
}
static Registrar r09({"C09",
                      "instances of 8..40 (thorough: 60) nodes solved as given, renumbered, with a constant added to every edge, in the other mode and with the other "
                      "MST algorithm; non-trivial = at least two runs completed and one of them branched",
                      [](int t) {
                          std::vector<int64_t> ns{8, 10, 12, 15, 15, 20, 25, 8, 10, 12, 15, 15, 20, 25, 8, 10, 12, 15, 15, 20, 25, 8, 10, 12, 15, 15, 20, 25, 40};
                          if (t) ns.push_back(60);
                          return rc::gen::map(rc::gen::pair(with(sized(ns, false), {{"hyb", inr(0, 1)}}), vecOf(60, inr(0, 1000))),
                                              [](std::pair<Case, Vec> p) { p.first["perm"] = p.second; return p.first; });
                      },
                      c09, 600, 10000});

// ---- C14 the starting vertex ----------------------------------------------------------------------------------
static void c14(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb"), prim = (int) c.i("prim");
    if (c.i("small_int")) {                     // few integer values: exact ties between starting vertices
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++) in.w[i][j] = in.w[j][i] = 1 + c.at("wraw")[(size_t) (i * n + j) % c.at("wraw").size()] % (n <= 5 ? 6 : 12);
        o.label("weights:small-integers");
        if (c.i("small_int") == 2) {            // all different: the trees are unique, their integer sums still tie; of some permutations the one with most such ties
            uint64_t h = 1469598103934665603ull;
            for (auto v : c.at("wraw")) h = (h ^ (uint64_t) v) * 1099511628211ull;
            std::mt19937_64 rng(h);
            Instance best = in;
            size_t most = 0;
            for (int k = 0; k < (n <= 8 ? 30 : 1); k++) {
                std::vector<int> w(n * (n - 1) / 2);
                std::iota(w.begin(), w.end(), 1);
                for (size_t i = w.size() - 1; i > 0; i--) std::swap(w[i], w[rng() % (i + 1)]);
                static const double values[] = {0.01, 0.99, 0.5, 0.01, 0.99, 0.25, 0.75};
                for (int i = 0, e = 0; i < n; i++)
                    for (int j = i + 1; j < n; j++, e++) {
                        in.w[i][j] = in.w[j][i] = w[e];
                        in.p[i][j] = in.p[j][i] = values[rng() % 7];
                    }
                double top = 0;
                std::vector<OneTree> t;
                for (int i = 0; i < n; i++) { t.push_back(one_tree_at(in, i)); top = std::max(top, t.back().cost); }
                std::set<int> probs;
                for (auto &x : t) if (x.cost == top) probs.insert((int) (x.prob / 0.05));
                if (probs.size() > most) { most = probs.size(); best = in; }
            }
            in = best;
            if (most > 2) o.label("three-trees-tie");
            o.label("weights:different-integers");
        }
    } else classify(c, o);
    std::vector<OneTree> t;
    double top = 0;
    for (int i = 0; i < n; i++) {
        t.push_back(one_tree_at(in, i));
        if (!t.back().exists) { o.label("no-1-tree-at-some-vertex"); return; }
        top = std::max(top, t.back().cost);
    }
    Run r = run_solver(variant(n, hyb, prim), in.csv(), 700000000);
    if (!finished(r, o, "C14")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C14")) return;
    if (rep.candidate < 0 || rep.candidate >= n) { o.fail(fmt("starting vertex %d of %d", rep.candidate, n)); return; }
    const OneTree &k = t[rep.candidate];
    double tol = num_tol(in), eps = eps_of(n);
    if (k.cost < top - eps - tol) o.fail(fmt("starting vertex %d gives the bound %.9f, another one gives %.9f", rep.candidate, k.cost, top));
    int ties = 0;
    bool integral = true;                        // sums of integers are exact: an exact tie is one for the solver too
    for (auto &row : in.w) for (double v : row) integral &= v == std::floor(v);
    for (int i = 0; i < n && integral; i++) {
        if (i == rep.candidate || t[i].cost != k.cost) continue;
        ties++;
        if (hyb && t[i].unique && k.unique && std::fabs(t[i].prob - k.prob) >= 0.05) o.label("ties-decided-by-probability");
        if (hyb && t[i].unique && k.unique && t[i].prob >= k.prob + 0.05 + 1e-5)
            o.fail(fmt("starting vertices %d and %d give the same bound %.9f, but %d has probability %.6f and the chosen %d only %.6f", rep.candidate, i,
                       k.cost, i, t[i].prob, rep.candidate, k.prob));
    }
    if (ties) o.label("exact-ties");
    int near = 0;
    for (int i = 0; i < n; i++) if (i != rep.candidate && std::fabs(t[i].cost - k.cost) <= eps) near++;
    if (near) o.label("near-ties");
    o.nontrivial = rep.candidate != 0 || ties > 0;
}
static Registrar r14({"C14",
                      "complete and 2-connected graphs of 3..12, sometimes 20 or 30, nodes, often with integer weights so that bounds tie exactly; the bound of every starting "
                      "vertex from an independent minimum 1-tree; non-trivial = another vertex than the first is chosen, or bounds tie",
                      [](int) {
                          return with(rc::gen::oneOf(sized({3, 4, 5, 6, 7, 8, 10, 12}, true), sized({4, 5, 5, 6, 6, 8}, false, {20, 30})),
                                      {{"hyb", inr(0, 1)}, {"prim", oneOf({1, 1, 0})}, {"small_int", oneOf({0, 0, 1, 2, 2})}});
                      },
                      c14, 9000, 120000});

// ---- C15 the initial tour ---------------------------------------------------------------------------------------
struct Span { double lo = 1e300, hi = 1e300; bool tie = false, capped = false; };
// cheapest and most expensive greedy walk from s over all ways to break ties; 1e300 stands for a dead end
static void greedy(const Instance &in, bool by_prob, int cur, int start, int left, uint64_t seen, double len, double &lo, double &hi, bool &tie, int &budget) {
    if (--budget < 0) return;
    int n = in.n;
    if (left == 0) {
        double v = in.has(cur, start) ? len + in.w[cur][start] : 1e300;
        lo = std::min(lo, v);
        hi = std::max(hi, v);
        return;
    }
    double best = by_prob ? -1 : 1e300;
    std::vector<int> at;
    for (int j = 0; j < n; j++) {
        if (j == cur || (seen >> j & 1) || !in.has(cur, j)) continue;
        double v = by_prob ? in.p[cur][j] : in.w[cur][j];
        if (by_prob ? v > best : v < best) { best = v; at.clear(); }
        if (v == best) at.push_back(j);
    }
    if (at.empty()) { hi = 1e300; lo = std::min(lo, 1e300); return; }
    if (at.size() > 1) tie = true;
    for (int j : at) greedy(in, by_prob, j, start, left - 1, seen | (uint64_t) 1 << j, len + in.w[cur][j], lo, hi, tie, budget);
}
static Span greedy_all(const Instance &in, bool by_prob) {
    Span s;
    for (int st = 0; st < in.n; st++) {
        double lo = 1e300, hi = -1;
        int budget = 4000;
        greedy(in, by_prob, st, st, in.n - 1, (uint64_t) 1 << st, 0, lo, hi, s.tie, budget);
        if (budget < 0) s.capped = true;
        s.lo = std::min(s.lo, lo);
        s.hi = std::min(s.hi, hi);
    }
    return s;
}
static void c15(const Case &c, Outcome &o) {
    Instance in = build(c);
    int n = in.n, hyb = (int) c.i("hyb");
    classify(c, o);
    for (int i = 0; i < n; i++) {
        int d = 0;
        for (int j = 0; j < n; j++) d += in.has(i, j);
        if (d < 2) { o.label("rejected-by-degree"); return; }
    }
    Span nn = greedy_all(in, false), pn = greedy_all(in, true);
    if (nn.capped || pn.capped) { o.label("too-many-ties"); return; }
    Run r = run_solver(variant(n, hyb, 1), in.csv(), 700000000);      // the clock ends the search before it starts
    if (!finished(r, o, "C15")) return;
    Report rep = parse_report(r.text);
    if (!readable(rep, o, "C15")) return;
    if (rep.explored != 0) { o.fail(fmt("%ld subproblems explored after the limit had passed", rep.explored)); return; }
    double lo = hyb ? std::min(nn.lo, pn.lo) : nn.lo, hi = hyb ? std::min(nn.hi, pn.hi) : nn.hi, tol = num_tol(in), cost;
    std::string why;
    if (rep.cycle.empty()) {
        if (hi < 1e299) o.fail(fmt("no initial tour, but the %s closes one of cost at most %.9f", hyb ? "greedy walks" : "nearest-neighbour walk", hi));
        o.label("no-initial-tour");
        o.nontrivial = true;
        return;
    }
    if (!valid_tour(in, rep, &cost, &why)) { o.fail(why); return; }
    if (cost > hi + tol || cost < lo - tol)
        o.fail(fmt("initial tour of cost %.9f; best nearest-neighbour tour over all starts %.9f..%.9f, best by probability %.9f..%.9f", cost, nn.lo, nn.hi, pn.lo, pn.hi));
    if (std::fabs(cost - rep.cost) > tol) o.fail(fmt("stated cost %.9f, tour %.9f", rep.cost, cost));
    bool pwins = hyb && pn.hi < nn.lo - tol, nwins = !hyb || nn.hi < pn.lo - tol;
    if (pwins && rep.type != NN2) o.fail(fmt("the tour by probability (%.9f) beats nearest neighbour (%.9f), but the type is %s", pn.hi, nn.lo, rep.type.c_str()));
    if (nwins && rep.type != NN1) o.fail(fmt("nearest neighbour (%.9f) is best, but the type is %s", nn.hi, rep.type.c_str()));
    if (pwins) o.label("won-by-probability");
    if (nn.tie) o.label("ties");
    o.nontrivial = nn.lo == nn.hi && (!hyb || pn.lo == pn.hi);
}
static Registrar r15({"C15",
                      "complete and incomplete graphs of 3..12, sometimes up to 40, nodes whose search is cut by the clock before the first subproblem; reference greedy walks "
                      "from every start, over all ways to break ties; non-trivial = the walks are unambiguous, or none closes a tour",
                      [](int) {
                          return with(rc::gen::oneOf(sized({3, 4, 5, 6, 7, 8, 9, 10, 12}, true, {20, 30}), sized({3, 5, 6, 8, 9, 10, 12}, false, {20, 40})), {{"hyb", inr(0, 1)}});
                      },
                      c15, 9000, 120000});
} // namespace vf
