// Black-box view of the solver: instances -> CSV files -> the program's own main() -> parsed report, plus oracles.
#pragma once
#include "core.hpp"
#include <cmath>
#include <optional>

namespace vf {

struct Instance {
    int n = 0;
    std::vector<double> x, y;
    std::vector<std::vector<double>> w, p;   // w<=0: no edge
    double planted = NAN;                    // the optimum, where it is known by construction
    std::vector<int> ring;                   // an optimal tour, likewise
    bool has(int i, int j) const { return i != j && w[i][j] > 0; }
    bool complete() const;
    double scale() const;                    // largest absolute weight
    std::string csv() const;
};

inline double eps_of(int max_vertex) { return std::sqrt((double) max_vertex) * 1.27 / 1000; }

// The generator's raw material; build() turns it into an instance deterministically.
//   n, style, wraw (weights or coordinates), pstyle, praw, miss (missing edges as percentages)
rc::Gen<Case> genInstance(int nlo, int nhi, bool sparse);
rc::Gen<Case> genInstanceN(int n, bool sparse);
rc::Gen<Case> genPlanted(std::vector<int64_t> ns, bool sparse);   // any size: style 15, the optimum is built in
Instance build(const Case &c);
const char *style_name(int s);
const int NSTYLES = 16, PLANTED = 15;
const int NPSTYLES = 9;

// Held-Karp dynamic programme; nullopt when there is no Hamiltonian cycle. order: an optimal tour
std::optional<double> held_karp(const Instance &in, std::vector<int> *order = nullptr);

struct Report {
    int candidate = -1;
    std::string interrupted, mst, type;
    double elapsed = -1, ghosh = -1, sub_ub = -1;
    long generated = -1, explored = -1, levels = -1, fixed = -1;
    double cost = NAN, prob = NAN, time_to = NAN;
    long level = -1, bbnode = -1, edge_to_branch = -2, num_cycle = -1, mandatory = -1, forbidden = -1;
    std::vector<std::pair<int, int>> cycle;
    int updates = 0;
    std::vector<double> update_values;
    std::vector<double> update_times;
    bool parsed = false;
    std::string why;
};
Report parse_report(const std::string &text);

struct Run {
    Iso iso;
    std::string text;     // report file
    int rc = -1;          // value returned by main
    long clock_calls = 0;
    long live = 0, live_bytes = 0;   // blocks still allocated when main returned
};
// clock: seconds = clock0 + step_us/1e6 * calls (clock() of the code under test is virtual)
Run run_solver(const std::string &libname, const std::string &csv, long step_us = 0, long clock0 = 1000000, int cpu_s = 30);

// validates that the report holds a Hamiltonian cycle of the instance with the stated cost; sets *cost
bool valid_tour(const Instance &in, const Report &r, double *cost, std::string *why);

// the step-by-step part of a check that also looks at whole runs; set by check_bb.cpp when it is linked in
extern void (*c08_steps)(const Case &, Outcome &);
extern rc::Gen<Case> (*c08_steps_gen)();
} // namespace vf
