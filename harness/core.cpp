#include "core.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <rapidcheck/detail/Property.h>

namespace vf {

std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

std::string Case::text() const {
    std::string s;
    for (auto &kv : f) {
        s += kv.first + " =";
        for (auto v : kv.second) s += " " + std::to_string(v);
        s += "\n";
    }
    return s;
}
Case Case::parse(const std::string &s) {
    Case c;
    std::istringstream is(s);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto p = line.find(" =");
        if (p == std::string::npos) continue;
        Vec v;
        std::istringstream ls(line.substr(p + 2));
        int64_t x;
        while (ls >> x) v.push_back(x);
        c.f[line.substr(0, p)] = v;
    }
    return c;
}
uint64_t Case::hash() const {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : text()) { h ^= ch; h *= 1099511628211ull; }
    return h ? h : 1;
}
std::ostream &operator<<(std::ostream &os, const Case &c) { return os << c.text(); }

// ---- isolated -------------------------------------------------------------------------------------
namespace {
struct Shared { volatile uint32_t done; volatile uint32_t len; char data[32 << 20]; };
Shared *shm = nullptr;
int out_fd = -1, err_fd = -1;
void ensure() {
    if (!shm) {
        shm = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        out_fd = memfd_create("out", 0);
        err_fd = memfd_create("err", 0);
        if (shm == MAP_FAILED || out_fd < 0 || err_fd < 0) { perror("isolated setup"); _exit(70); }
    }
}
std::string slurp(int fd, size_t max = 8 << 20) {
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n;
    while (s.size() < max && (n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
    return s;
}
} // namespace

void Sink::put(const void *p, size_t n) {
    if (shm->len + n > sizeof shm->data) { fprintf(stderr, "sink overflow\n"); _exit(71); }
    memcpy(shm->data + shm->len, p, n);
    shm->len = shm->len + n;
}
void Sink::put(const std::string &s) { put(s.data(), s.size()); }
void Sink::finish() { shm->done = 1; _exit(0); }

Iso isolated(const std::function<void(Sink &)> &fn, int cpu_s, bool capture) {
    ensure();
    shm->done = 0;
    shm->len = 0;
    if (capture) {
        if (ftruncate(out_fd, 0) || ftruncate(err_fd, 0)) abort();
        lseek(out_fd, 0, SEEK_SET);
        lseek(err_fd, 0, SEEK_SET);
    }
    pid_t pid = -1;
    for (int k = 0; k < 200 && (pid = fork()) < 0; k++) usleep(50000);
    if (pid < 0) { perror("fork"); _exit(70); }
    if (pid == 0) {
        struct rlimit rl;
        rl.rlim_cur = cpu_s; rl.rlim_max = cpu_s + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 64u << 20;
        setrlimit(RLIMIT_FSIZE, &rl);
        if (!getenv("VF_ASAN")) {
            rl.rlim_cur = rl.rlim_max = 3ull << 30;
            setrlimit(RLIMIT_AS, &rl);
        }
        alarm(cpu_s * 20);
        if (capture) {
            dup2(out_fd, 1);
            dup2(err_fd, 2);
        }
        Sink s;
        fn(s);
        fflush(stdout);
        shm->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Iso r;
    r.payload.assign(shm->data, shm->len);
    if (capture) {
        r.out = slurp(out_fd);
        r.err = slurp(err_fd, 1 << 16);
    }
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        r.code = sg;
        r.kind = (sg == SIGXCPU || sg == SIGALRM) ? Iso::TIMEOUT : Iso::SIGNALLED;
        if (sg == SIGKILL) {
            // RLIMIT_CPU's hard limit, or the sandbox ran out of memory: cannot tell, so treat as a timeout
            r.kind = Iso::TIMEOUT;
        }
    } else if (shm->done) {
        r.kind = Iso::DONE;
        r.code = WEXITSTATUS(st);
    } else {
        r.kind = Iso::EXITED;
        r.code = WEXITSTATUS(st);
    }
    return r;
}

std::string Iso::describe() const {
    std::string e = err.substr(0, 1500);
    switch (kind) {
    case DONE: return "returned";
    case EXITED: return fmt("exited with status %d; stderr: ", code) + e;
    case SIGNALLED: return fmt("killed by signal %d (%s); stderr: ", code, strsignal(code)) + e;
    default: return "did not return within its CPU limit";
    }
}

MemFile::MemFile(const std::string &content) {
    fd = memfd_create("case", 0);
    if (fd < 0) { perror("memfd_create"); _exit(70); }
    size_t off = 0;
    while (off < content.size()) {
        ssize_t n = write(fd, content.data() + off, content.size() - off);
        if (n <= 0) { perror("write"); _exit(70); }
        off += n;
    }
}
MemFile::~MemFile() { if (fd >= 0) close(fd); }
std::string MemFile::path() const { return fmt("/proc/self/fd/%d", fd); }
std::string MemFile::read() const { return slurp(fd, 4 << 20); }

// ---- libs -----------------------------------------------------------------------------------------
static std::string g_libdir;
static int g_tier = 0;
std::string libdir() { return g_libdir; }
int tier() { return g_tier; }
void *Lib::sym(const char *s) const {
    void *p = dlsym(h, s);
    if (!p) { fprintf(stderr, "harness error: no symbol %s in %s\n", s, name.c_str()); _exit(70); }
    return p;
}
bool have_lib(const std::string &name) { return access((g_libdir + "/" + name + ".so").c_str(), R_OK) == 0; }
const Lib &lib(const std::string &name) {
    static std::map<std::string, Lib> m;
    auto it = m.find(name);
    if (it != m.end()) return it->second;
    Lib l;
    l.name = name;
    l.h = dlopen((g_libdir + "/" + name + ".so").c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!l.h) { fprintf(stderr, "harness error: %s\n", dlerror()); _exit(70); }
    return m[name] = l;
}

// ---- driver ---------------------------------------------------------------------------------------
static std::vector<Check> &checks() { static std::vector<Check> v; return v; }
void register_check(const Check &c) { checks().push_back(c); }

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Stats {
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> keys;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool failed = false;
    Case fail_case;
    std::string fail_msg;
    bool counting = true;
};

static int worker(const Check &ck, uint64_t seed, int wk, int cases, double budget, const std::string &out) {
    Stats st;
    double t0 = now();
    bool cut = false;
    const int round = 50;
    auto gen = ck.gen(g_tier);
    for (int done = 0, r = 0; done < cases && !st.failed; done += round, r++) {
        if (now() - t0 > budget) { cut = true; break; }
        rc::detail::TestParams p;
        p.seed = seed * 1000003ull + (uint64_t) wk * 7919ull + (uint64_t) r * 104729ull * 8 + 17;
        p.maxSuccess = std::min(round, cases - done);
        p.maxSize = 100;
        p.maxDiscardRatio = 20;
        rc::detail::TestMetadata md;
        md.id = ck.id;
        st.counting = true;
        double shrink_deadline = 0;
        auto res = rc::detail::checkTestable(
            [&] {
                Case c = *gen;
                if (st.failed && now() > shrink_deadline) return;   // stop shrinking: keep what we have
                Outcome o;
                ck.eval(c, o);
                if (!st.failed) {
                    st.evaluations++;
                    for (auto &l : o.labels) st.labels[l]++;
                    if (o.nontrivial) {
                        bool fresh = st.keys.insert(o.key ? o.key : c.hash()).second;
                        if (fresh && st.samples.size() < 3 && (st.keys.size() % 37 == 1)) st.samples.push_back(c.text());
                    }
                }
                if (!o.ok) {
                    if (!st.failed) shrink_deadline = now() + 90;
                    st.failed = true;
                    st.fail_case = c;
                    st.fail_msg = o.msg;
                    RC_FAIL(o.msg);
                }
            },
            md, p);
        if (!res.is<rc::detail::SuccessResult>() && !st.failed) {
            std::ostringstream os;
            rc::detail::printResultMessage(res, os);
            fprintf(stderr, "harness error: %s\n", os.str().c_str());
            return 70;
        }
    }
    std::ofstream os(out);
    os << "{\"evaluations\": " << st.evaluations << ", \"cut\": " << (cut ? "true" : "false") << ", \"labels\": {";
    bool first = true;
    for (auto &kv : st.labels) { os << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
    os << "}, \"samples\": [";
    first = true;
    for (auto &s : st.samples) { os << (first ? "" : ", ") << jstr(s); first = false; }
    os << "], \"failed\": " << (st.failed ? "true" : "false");
    if (st.failed) os << ", \"msg\": " << jstr(st.fail_msg) << ", \"case\": " << jstr(st.fail_case.text());
    os << ", \"keys\": [";
    first = true;
    for (auto k : st.keys) { os << (first ? "" : ",") << k; first = false; }
    os << "]}\n";
    os.flush();
    return os.good() ? 0 : 70;
}

} // namespace vf

int main(int argc, char **argv) {
    using namespace vf;
    setenv("RC_PARAMS", "seed=1", 1);   // only silences rapidcheck's banner: seeds are passed explicitly
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    g_libdir = a["--libs"];
    g_tier = atoi(a["--tier"].c_str());
    const Check *ck = nullptr;
    for (auto &c : checks()) if (a["--check"] == c.id) ck = &c;
    if (a.count("--list")) {
        for (auto &c : checks()) printf("%s\n", c.id);
        return 0;
    }
    if (!ck) { fprintf(stderr, "no such check\n"); return 70; }
    if (a.count("--info")) {
        printf("%s\n", ck->rule);
        return 0;
    }
    if (a.count("--replay")) {
        std::ifstream is(a["--replay"]);
        std::stringstream ss;
        ss << is.rdbuf();
        Case c = Case::parse(ss.str());
        Outcome o;
        ck->eval(c, o);
        for (auto &l : o.labels) printf("label: %s\n", l.c_str());
        if (o.ok) { printf("OK\n"); return 0; }
        printf("FAIL %s\n", o.msg.c_str());
        return 1;
    }
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1;
    int cases = (int) ((g_tier ? ck->thorough_cases : ck->quick_cases) * scale);
    return worker(*ck, strtoull(a["--seed"].c_str(), nullptr, 10), atoi(a["--worker"].c_str()), cases,
                  a.count("--budget") ? atof(a["--budget"].c_str()) : 600, a["--out"]);
}
