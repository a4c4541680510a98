// Core of the property-based harness: cases, isolated execution of the code under test, rapidcheck glue.
#pragma once
#include <rapidcheck.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

using Vec = std::vector<int64_t>;

// A generated case: named integer vectors only, so that it can be printed, hashed, replayed without rapidcheck.
struct Case {
    std::map<std::string, Vec> f;
    Vec &operator[](const std::string &k) { return f[k]; }
    const Vec &at(const std::string &k) const {
        static const Vec empty;
        auto it = f.find(k);
        return it == f.end() ? empty : it->second;
    }
    int64_t i(const std::string &k, int64_t dflt = 0) const {
        const Vec &v = at(k);
        return v.empty() ? dflt : v[0];
    }
    std::string text() const;
    static Case parse(const std::string &s);
    uint64_t hash() const;
};
std::ostream &operator<<(std::ostream &os, const Case &c);

struct Outcome {
    bool ok = true;
    bool nontrivial = false;
    std::string msg;                    // why it failed
    std::vector<std::string> labels;    // classification
    uint64_t key = 0;                   // identity for distinctness, 0: hash of the case
    void fail(const std::string &m) { if (ok) { ok = false; msg = m; } }
    void label(const std::string &l) { labels.push_back(l); }
};

struct Check {
    const char *id;
    const char *rule;
    std::function<rc::Gen<Case>(int tier)> gen;
    std::function<void(const Case &, Outcome &)> eval;
    int quick_cases;      // per worker
    int thorough_cases;   // per worker
    // optional: called in a worker to demand a case whatever its index (enumeration); unused by default
};
void register_check(const Check &c);
struct Registrar { explicit Registrar(const Check &c) { register_check(c); } };

// ---- isolated execution -------------------------------------------------------------------------
struct Iso {
    enum Kind { DONE, EXITED, SIGNALLED, TIMEOUT } kind = DONE;
    int code = 0;            // exit code or signal
    std::string payload;     // what the child wrote with Sink::put
    std::string out, err;    // captured stdout / stderr (bounded)
    bool done() const { return kind == DONE; }
    std::string describe() const;
};
struct Sink {
    void put(const std::string &s);
    void put(const void *p, size_t n);
    [[noreturn]] void finish();     // as if fn returned, without touching stdio again
};
// Runs fn in a forked child. DONE: fn returned. EXITED: the code under test called exit(). cpu_s: CPU limit.
Iso isolated(const std::function<void(Sink &)> &fn, int cpu_s = 20, bool capture = true);

// a memfd with this content; path usable by any child forked afterwards
struct MemFile {
    int fd = -1;
    explicit MemFile(const std::string &content = "");
    ~MemFile();
    MemFile(const MemFile &) = delete;
    std::string path() const;
    std::string read() const;
};

// ---- variants of the code under test -------------------------------------------------------------
struct Lib { void *h = nullptr; std::string name; void *sym(const char *s) const; };
const Lib &lib(const std::string &name);       // <libdir>/<name>.so
bool have_lib(const std::string &name);
std::string libdir();
int tier();                                     // 0 quick, 1 thorough

// ---- generators -----------------------------------------------------------------------------------
// uniform in [lo,hi], independent of rapidcheck's size (inRange collapses at small sizes)
inline rc::Gen<int64_t> inr(int64_t lo, int64_t hi) {
    return rc::gen::resize(100, rc::gen::inRange<int64_t>(lo, hi + 1));
}
inline rc::Gen<Vec> vecOf(size_t n, rc::Gen<int64_t> g) { return rc::gen::container<Vec>(n, std::move(g)); }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace vf
