// A small property-based testing engine.
//
// A case is a function of a finite sequence of integer choices.  While searching, the choices come from a
// generator seeded by (VERIF_SEED, property, case number); they are recorded, so the same case can be replayed
// and shrunk.  Cases run in worker processes: a crash, a sanitizer report or a hang is an observable outcome of
// a case like a failed comparison is.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard {};
struct Known {
    std::string key, msg;
};

inline std::string vfmt(const char *f, va_list ap) {
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

class Gen {
public:
    std::vector<uint64_t> rec;
    // Shared copy of the choices, which survives a crash of this process.
    uint64_t *mirror = nullptr;
    volatile long *mirrorCount = nullptr;

    explicit Gen(uint64_t seed) : state_(seed) {}
    explicit Gen(const std::vector<uint64_t> &c) : replay_(&c) {}

    // Uniform choice in [0, max]; zero is the simplest value.
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (replay_) {
            v = rec.size() < replay_->size() ? (*replay_)[rec.size()] : 0;
            if (v > max) v = max;
        } else {
            v = next();
            if (max != UINT64_MAX) {
                v = (uint64_t)(((unsigned __int128)v * ((unsigned __int128)max + 1)) >> 64);
            }
        }
        rec.push_back(v);
        if (rec.size() > 200000) throw Discard();
        if (mirror) {
            mirror[rec.size() - 1] = v;
            *mirrorCount = (long)rec.size();
        }
        return v;
    }
    // Integer in [lo, hi]; lo is the simplest value.
    int64_t integer(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    int pick(int n) { return (int)draw((uint64_t)(n - 1)); }
    // True with the given probability; false is the simplest value.
    bool chance(double p) {
        const uint64_t n = 1u << 16;
        return draw(n - 1) >= (uint64_t)((1.0 - p) * (double)n);
    }
    // Index chosen with integer weights.
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int r = (int)draw((uint64_t)(total - 1)), i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // Real number in [lo, hi]; the value nearest zero is the simplest.
    double real(double lo, double hi) {
        const uint64_t n = 1u << 26;
        const double c = lo > 0 ? lo : (hi < 0 ? hi : 0.0);
        uint64_t k = draw(2 * n - 1);
        if (c == lo) return lo + (hi - lo) * ((double)k / (double)(2 * n - 1));
        if (c == hi) return hi - (hi - lo) * ((double)k / (double)(2 * n - 1));
        const bool neg = (k & 1) != 0;
        const double t = (double)(k >> 1) / (double)(n - 1);
        return neg ? lo * t : hi * t;
    }
    // Log-uniform positive number.
    double logReal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    template <typename T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) {
            const size_t j = i - 1 - (size_t)draw(i - 1);
            std::swap(v[i - 1], v[j]);
        }
    }
    // An independent stream derived from one choice: for bulk noise that need not shrink piecewise.
    uint64_t seedChoice() { return draw((1ull << 32) - 1); }

private:
    uint64_t next() {
        state_ += 0x9E3779B97F4A7C15ull;
        return mix64(state_);
    }
    uint64_t state_ = 0;
    const std::vector<uint64_t> *replay_ = nullptr;
};

// Plain generator for bulk noise.
struct Noise {
    uint64_t s;
    explicit Noise(uint64_t seed) : s(mix64(seed ^ 0xABCDEF)) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        return mix64(s);
    }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    double sym() { return 2.0 * unit() - 1.0; }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    double gauss() {
        double a = 0;
        for (int i = 0; i < 12; i++) a += unit();
        return a - 6.0;
    }
};

struct Case {
    Gen &g;
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::string desc;
    bool thorough = false;
    char *mirror = nullptr;  // shared copy of the description
    size_t mirrorSize = 0;

    explicit Case(Gen &gen) : g(gen) {}
    void label(const std::string &s) {
        if (std::find(labels.begin(), labels.end(), s) == labels.end()) labels.push_back(s);
    }
    void describe(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        desc += vfmt(f, ap);
        va_end(ap);
        if (mirror) snprintf(mirror, mirrorSize, "%s", desc.c_str());
    }
    // A defect recorded in KNOWN_FINDINGS under this key; an ordinary failure if it is not recorded there.
    [[noreturn]] void known(const char *key, const char *f, ...) __attribute__((format(printf, 3, 4))) {
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Known{ key, s };
    }
    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Failure(s);
    }
    void require(bool cond, const char *f, ...) __attribute__((format(printf, 3, 4))) {
        if (cond) return;
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Failure(s);
    }
};

struct Config {
    const char *id;
    const char *rule;
    std::function<void(Case &)> prop;
    long quickCases = 1000;
    long thoroughCases = 20000;
    double caseTimeout = 25.0;  // seconds; ordinary cases take milliseconds
    double quickSeconds = 400.0;
    double thoroughSeconds = 560.0;
    bool schedule = false;  // failures may depend on thread interleaving
    int workers = 0;
    bool isolate = false;  // every case in a process of its own
    std::vector<std::string> assumptions;
};

namespace detail {

enum Status { NONE = 0, PASS = 1, FAIL = 2, DISCARD = 3, KNOWN = 4 };

struct Slot {
    volatile long index;
    volatile double start;
    volatile long evaluations, nontrivial, discards, known;
    volatile int failed, caseDone;
    volatile long failIndex;
    char msg[2048];
    int nLabels;
    char labels[48][56];
    long labelCount[48];
    int nSamples;
    char samples[3][700];
};

struct Single {
    volatile int status;
    char msg[2048];
    char desc[8192];
    volatile long nChoices;
    uint64_t choices[200001];
};

inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

inline void *shared(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return p;
}

inline std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c > 0x7e) {
            o += fmt("\\u%04x", c);
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}

inline void quietOutput(const std::string &errFile) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = errFile.empty() ? n : open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
}

struct Runner {
    Config cfg;
    uint64_t seed = 1;
    bool thorough = false;
    Single *single = nullptr;
    std::map<std::string, std::string> knownKeys;

    // Lines "finding: property=P07 key=<key> <text>"
    void readKnown() {
        std::ifstream in("KNOWN_FINDINGS");
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string a, b, k, rest;
            ls >> a >> b >> k;
            if (a != "finding:" || b != std::string("property=") + cfg.id || k.compare(0, 4, "key=") != 0) continue;
            std::getline(ls, rest);
            knownKeys[k.substr(4)] = rest;
        }
    }

    uint64_t caseSeed(long i) const {
        uint64_t h = mix64(seed * 0x100000001B3ull + 17);
        for (const char *p = cfg.id; *p; p++) h = mix64(h ^ (uint64_t)(unsigned char)*p);
        return mix64(h ^ ((uint64_t)i * 0x9E3779B97F4A7C15ull));
    }

    // Runs one case in this process.
    Status runHere(Gen &g, Case &c, std::string &msg) {
        try {
            cfg.prop(c);
            return PASS;
        } catch (const Discard &) {
            return DISCARD;
        } catch (const Failure &f) {
            msg = f.msg;
            return FAIL;
        } catch (const Known &k) {
            msg = k.key + ": " + k.msg;
            if (knownKeys.count(k.key)) return KNOWN;
            return FAIL;
        } catch (const std::exception &e) {
            msg = std::string("unexpected exception: ") + e.what();
            return FAIL;
        } catch (...) {
            msg = "unexpected exception of unknown type";
            return FAIL;
        }
    }

    // Runs one case given by its choices in a child process.
    Status runSingle(const std::vector<uint64_t> &choices, std::vector<uint64_t> &used, std::string &msg,
                     std::string &desc, double timeout, const std::string &errFile = "") {
        single->status = NONE;
        single->msg[0] = 0;
        single->desc[0] = 0;
        single->nChoices = 0;
        pid_t pid = fork();
        if (pid == 0) {
            quietOutput(errFile);
            Gen g(choices);
            oneInChild(g);
        }
        Status s = await(pid, timeout, msg);
        desc = single->desc;
        used.assign(single->choices, single->choices + single->nChoices);
        return s;
    }

    [[noreturn]] void oneInChild(Gen &g) {
        g.mirror = single->choices;
        g.mirrorCount = &single->nChoices;
        Case c(g);
        c.thorough = thorough;
        c.mirror = single->desc;
        c.mirrorSize = sizeof single->desc;
        std::string m;
        Status s = runHere(g, c, m);
        snprintf(single->msg, sizeof single->msg, "%s", m.c_str());
        single->status = s;
        _exit(0);
    }

    static long rssMB(pid_t pid) {
        FILE *f = fopen(fmt("/proc/%d/statm", (int)pid).c_str(), "r");
        if (!f) return 0;
        long a = 0, b = 0;
        if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
        fclose(f);
        return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
    }
    static constexpr long maxMB = 3000;

    static std::string howEnded(int st) {
        if (WIFSIGNALED(st)) return fmt("process ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return fmt("process ended with status %d", WEXITSTATUS(st));
    }

    // Waits for a child that reports through *single.
    Status await(pid_t pid, double timeout, std::string &msg) {
        const double t0 = now();
        int st = 0;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            const bool late = now() - t0 > timeout, fat = now() - t0 > 0.3 && rssMB(pid) > maxMB;
            if (late || fat) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                msg = late ? fmt("case did not finish within %.0f s", timeout) : fmt("case used more than %ld MB", maxMB);
                return FAIL;
            }
            usleep(now() - t0 < 0.05 ? 200 : 2000);
        }
        if (single->status == NONE) {
            msg = howEnded(st);
            return FAIL;
        }
        msg = single->msg;
        return (Status)single->status;
    }

    static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }

    std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget, double timeout, long &tries) {
        const double end = now() + budget;
        std::string m, d;
        auto attempt = [&](const std::vector<uint64_t> &c) {
            if (now() > end) return false;
            tries++;
            std::vector<uint64_t> used;
            if (runSingle(c, used, m, d, timeout) != FAIL) return false;
            while (!used.empty() && used.back() == 0 && used.size() > c.size()) used.pop_back();
            const std::vector<uint64_t> &cand = simpler(used, c) ? used : c;
            if (!simpler(cand, best)) return false;
            best = cand;
            return true;
        };
        bool improved = true;
        while (improved && now() < end) {
            improved = false;
            // Cut the tail
            for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
                while (best.size() > cut) {
                    std::vector<uint64_t> c(best.begin(), best.end() - (long)cut);
                    if (!attempt(c)) break;
                    improved = true;
                }
            }
            // Delete blocks
            for (size_t len : { 64, 32, 16, 8, 5, 4, 3, 2, 1 }) {
                for (size_t i = best.size(); i-- > 0 && now() < end;) {
                    if (i + len > best.size()) continue;
                    std::vector<uint64_t> c = best;
                    c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                    if (attempt(c)) improved = true;
                }
            }
            // Lower values
            for (size_t i = 0; i < best.size() && now() < end; i++) {
                if (best[i] == 0) continue;
                std::vector<uint64_t> c = best;
                c[i] = 0;
                if (attempt(c)) {
                    improved = true;
                    continue;
                }
                uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
                while (hi - lo > 1 && now() < end) {
                    const uint64_t mid = lo + (hi - lo) / 2;
                    c = best;
                    if (i >= c.size()) break;
                    c[i] = mid;
                    if (attempt(c)) {
                        improved = true;
                        hi = i < best.size() ? best[i] : 0;
                    } else {
                        lo = mid;
                    }
                }
            }
        }
        return best;
    }

    // Runs one case of a worker and records its outcome in the slot.
    void workerCase(Slot *s, uint64_t *hashes, long i) {
        Gen g(caseSeed(i));
        Case c(g);
        c.thorough = thorough;
        std::string m;
        Status st = runHere(g, c, m);
        s->caseDone = 1;
        if (st == FAIL) {
            snprintf(s->msg, sizeof s->msg, "%s", m.c_str());
            s->failIndex = i;
            s->failed = 1;
            s->evaluations = s->evaluations + 1;
            return;
        }
        if (st == DISCARD) {
            s->discards = s->discards + 1;
            return;
        }
        s->evaluations = s->evaluations + 1;
        if (st == KNOWN) {
            s->known = s->known + 1;
            c.label("known finding: " + m.substr(0, m.find(':')));
        }
        if (c.nontrivial) {
            s->nontrivial = s->nontrivial + 1;
            uint64_t h = 1469598103934665603ull;
            for (uint64_t v : g.rec) h = mix64(h ^ v);
            hashes[i] = h | 1;
            if (s->nSamples < 3 && !c.desc.empty() && (s->nontrivial % 5) == 1) {
                snprintf(s->samples[s->nSamples], sizeof s->samples[0], "case %ld: %s", i, c.desc.c_str());
                s->nSamples++;
            }
        }
        for (const auto &l : c.labels) {
            int k = 0;
            while (k < s->nLabels && l.compare(0, 55, s->labels[k]) != 0) k++;
            if (k == s->nLabels) {
                if (k == 48) continue;
                snprintf(s->labels[k], sizeof s->labels[k], "%s", l.c_str());
                s->labelCount[k] = 0;
                s->nLabels = k + 1;
            }
            s->labelCount[k]++;
        }
    }

    void worker(Slot *s, uint64_t *hashes, long first, long step, long total, double deadline) {
        quietOutput("");
        for (long i = first; i < total; i += step) {
            if (now() > deadline) break;
            s->index = i;
            s->start = now();
            s->caseDone = 0;
            if (cfg.isolate) {
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    workerCase(s, hashes, i);
                    _exit(0);
                }
                int st = 0;
                waitpid(p, &st, 0);
                if (!s->caseDone) {
                    snprintf(s->msg, sizeof s->msg, "%s", howEnded(st).c_str());
                    s->failIndex = i;
                    s->failed = 1;
                    s->evaluations = s->evaluations + 1;
                }
            } else {
                workerCase(s, hashes, i);
            }
            if (s->failed) _exit(0);
        }
        s->index = -1;
        _exit(0);
    }

    std::string writeReplay(const std::vector<uint64_t> &c, const std::string &msg, const std::string &desc,
                            const std::string &err) {
        mkdir("replays", 0755);
        const std::string path = std::string("replays/") + cfg.id + "-" + fmt("%016lx", (unsigned long)hashOf(c)) + ".txt";
        std::ofstream o(path);
        o << "property " << cfg.id << "\n";
        o << "tier " << (thorough ? "thorough" : "quick") << "\n";
        o << "choices " << c.size();
        for (uint64_t v : c) o << " " << v;
        o << "\nfailure " << msg << "\n";
        o << "case " << desc << "\n";
        o << "replay with: ./check.sh " << cfg.id << " --replay " << path << "\n";
        if (!err.empty()) o << "output of the failing process:\n" << err << "\n";
        return path;
    }
    static uint64_t hashOf(const std::vector<uint64_t> &c) {
        uint64_t h = 7;
        for (uint64_t v : c) h = mix64(h ^ v);
        return h;
    }

    static std::string slurp(const std::string &f, size_t max) {
        std::ifstream i(f);
        std::stringstream ss;
        ss << i.rdbuf();
        std::string s = ss.str();
        return s.size() > max ? s.substr(0, max) : s;
    }

    int replay(const std::string &path) {
        std::ifstream in(path);
        std::string line;
        std::vector<uint64_t> c;
        long seqCase = -1, seqBefore = 0, seqStep = 1;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string w;
            ls >> w;
            if (w == "choices") {
                size_t n;
                ls >> n;
                uint64_t v;
                while (ls >> v) c.push_back(v);
            } else if (w == "sequence") {
                ls >> seed >> seqCase >> seqBefore >> seqStep;
            } else if (w == "tier") {
                ls >> w;
                thorough = w == "thorough";
            }
        }
        std::vector<uint64_t> used;
        std::string m, d;
        const std::string err = fmt("/tmp/pbt-%s-%d.err", cfg.id, (int)getpid());
        Status s = seqCase >= 0 ? runSeeded(seqCase, seqBefore, seqStep, 600, used, m, d)
                                : runSingle(c, used, m, d, cfg.caseTimeout, err);
        for (int k = 0; cfg.schedule && s != FAIL && k < 30; k++) s = runSingle(c, used, m, d, cfg.caseTimeout, err);
        std::string text = slurp(err, 6000);
        unlink(err.c_str());
        printf("case: %s\n", d.c_str());
        if (s == FAIL) {
            printf("%s\nfailure: %s\nVIOLATION property=%s replay=%s\n", text.c_str(), m.c_str(), cfg.id, path.c_str());
            return 1;
        }
        printf("%s\n", s == PASS ? "the property holds on this case" : "the case is not valid");
        return 0;
    }

    int main(int argc, char **argv) {
        if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
            setenv("PBT_REEXEC", "1", 1);
            if (personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
                execv("/proc/self/exe", argv);
            }
        }
        readKnown();
        const char *e = getenv("VERIF_SEED");
        if (e && *e) seed = (uint64_t)strtoull(e, nullptr, 10);
        e = getenv("VERIF_TIER");
        thorough = e && std::string(e) == "thorough";
        single = (Single *)shared(sizeof(Single));
        long total = thorough ? cfg.thoroughCases : cfg.quickCases;
        long onlyCase = -1;
        for (int i = 1; i < argc; i++) {
            if (!strcmp(argv[i], "--replay") && i + 1 < argc) return replay(argv[i + 1]);
            if (!strcmp(argv[i], "--cases") && i + 1 < argc) total = atol(argv[++i]);
            if (!strcmp(argv[i], "--case") && i + 1 < argc) onlyCase = atol(argv[++i]);
        }
        if (onlyCase >= 0) {
            Gen g(caseSeed(onlyCase));
            Case c(g);
            c.thorough = thorough;
            std::string m;
            Status s = runHere(g, c, m);
            printf("status %d %s\n%s\n", (int)s, m.c_str(), c.desc.c_str());
            return 0;
        }

        const double t0 = now();
        const double deadline = t0 + (thorough ? cfg.thoroughSeconds : cfg.quickSeconds);
        int W = cfg.workers > 0 ? cfg.workers : (int)std::max(1l, std::min(8l, sysconf(_SC_NPROCESSORS_ONLN)));
        Slot *slots = (Slot *)shared(sizeof(Slot) * (size_t)W);
        memset((void *)slots, 0, sizeof(Slot) * (size_t)W);
        uint64_t *hashes = (uint64_t *)shared(sizeof(uint64_t) * (size_t)std::max(1l, total));
        std::vector<pid_t> pids((size_t)W);
        long unconfirmed = 0;
        auto launch = [&](int w, long first) {
            slots[w].index = first;
            slots[w].start = now();
            slots[w].failed = 0;
            pid_t p = fork();
            if (p == 0) worker(&slots[w], hashes, first, W, total, deadline);
            pids[(size_t)w] = p;
        };
        for (int w = 0; w < W; w++) launch(w, w);

        int violation = 0;
        std::string replayPath, finalMsg, finalDesc;
        long shrinkTries = 0;
        int alive = W;
        while (alive > 0 && !violation) {
            bool any = false;
            for (int w = 0; w < W && !violation; w++) {
                if (pids[(size_t)w] <= 0) continue;
                int st = 0;
                pid_t r = waitpid(pids[(size_t)w], &st, WNOHANG);
                long bad = -1;
                double limit = cfg.caseTimeout;
                if (r == pids[(size_t)w]) {
                    any = true;
                    if (slots[w].failed) {
                        bad = slots[w].failIndex;
                    } else if (slots[w].index >= 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        bad = slots[w].index;
                    }
                    if (bad < 0) {
                        pids[(size_t)w] = 0;
                        alive--;
                        continue;
                    }
                } else if (slots[w].index >= 0 && (now() - slots[w].start > cfg.caseTimeout ||
                                                   (now() - slots[w].start > 1.0 && rssMB(pids[(size_t)w]) > maxMB))) {
                    bad = slots[w].index;
                    kill(pids[(size_t)w], SIGKILL);
                    waitpid(pids[(size_t)w], &st, 0);
                    limit = 1.5 * cfg.caseTimeout;
                } else {
                    continue;
                }
                // Candidate failure: stop the others, confirm, shrink.
                fprintf(stderr, "[%s] case %ld failed, confirming: %s\n", cfg.id, bad, slots[w].failed ? slots[w].msg : "crash or hang");
                for (int v = 0; v < W; v++) {
                    if (v != w && pids[(size_t)v] > 0) kill(pids[(size_t)v], SIGSTOP);
                }
                std::vector<uint64_t> choices;
                std::string m, d;
                if (confirm(bad, limit, choices, m, d)) {
                    double per = std::min(cfg.caseTimeout, 20.0);
                    std::vector<uint64_t> best =
                        m.find("did not finish") != std::string::npos ? choices : shrink(choices, thorough ? 120.0 : 45.0, per, shrinkTries);
                    if (!reproduces(best, limit)) best = choices;
                    const std::string err = fmt("/tmp/pbt-%s-%d.err", cfg.id, (int)getpid());
                    std::vector<uint64_t> used;
                    for (int k = 0; k < 30; k++) {
                        if (runSingle(best, used, m, d, limit, err) == FAIL) break;
                    }
                    std::string text = slurp(err, 6000);
                    unlink(err.c_str());
                    replayPath = writeReplay(best, m, d, text);
                    finalMsg = m;
                    finalDesc = d;
                    violation = 1;
                } else if (long before = needsHistory(bad, W, limit, m, d)) {
                    replayPath = writeSequence(bad, before, W, m, d);
                    finalMsg = m + fmt(" (after %ld earlier cases in the same process)", before);
                    finalDesc = d;
                    violation = 1;
                } else {
                    unconfirmed++;
                    fprintf(stderr, "[%s] case %ld did not fail again\n", cfg.id, bad);
                    for (int v = 0; v < W; v++) {
                        if (v != w && pids[(size_t)v] > 0) kill(pids[(size_t)v], SIGCONT);
                        slots[v].start = now();
                    }
                    if (bad + W < total) {
                        launch(w, bad + W);
                    } else {
                        pids[(size_t)w] = 0;
                        alive--;
                    }
                }
            }
            if (!any) usleep(2000);
        }
        for (int w = 0; w < W; w++) {
            if (pids[(size_t)w] > 0) {
                kill(pids[(size_t)w], SIGKILL);
                waitpid(pids[(size_t)w], nullptr, 0);
            }
        }

        long ev = 0, nt = 0, dis = 0, kn = 0;
        std::map<std::string, long> labels;
        std::vector<std::string> samples;
        for (int w = 0; w < W; w++) {
            ev += slots[w].evaluations;
            nt += slots[w].nontrivial;
            dis += slots[w].discards;
            kn += slots[w].known;
            for (int k = 0; k < slots[w].nLabels; k++) labels[slots[w].labels[k]] += slots[w].labelCount[k];
            for (int k = 0; k < slots[w].nSamples; k++) samples.push_back(slots[w].samples[k]);
        }
        std::set<uint64_t> distinct;
        for (long i = 0; i < total; i++) {
            if (hashes[i]) distinct.insert(hashes[i]);
        }
        if (samples.size() > 10) samples.resize(10);
        if (violation) samples.insert(samples.begin(), "FAILING: " + finalDesc + " -> " + finalMsg);
        mkdir("evidence", 0755);
        std::ofstream o(std::string("evidence/") + cfg.id + ".json");
        o << "{\n \"property\": \"" << cfg.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
          << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nt
          << ",\n  \"discarded\": " << dis << ",\n  \"known_finding_cases\": " << kn << ",\n  \"unconfirmed\": " << unconfirmed << ",\n  \"planned\": " << total
          << ",\n  \"shrink_executions\": " << shrinkTries << ",\n  \"rule\": " << jsonStr(cfg.rule)
          << ",\n  \"distribution\": {";
        bool firstL = true;
        for (const auto &l : labels) {
            o << (firstL ? "" : ",") << "\n   " << jsonStr(l.first) << ": " << l.second;
            firstL = false;
        }
        o << "\n  },\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\n   " << jsonStr(samples[i]);
        o << "\n  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < cfg.assumptions.size(); i++) o << (i ? "," : "") << "\n  " << jsonStr(cfg.assumptions[i]);
        o << "\n ],\n \"wall_s\": " << fmt("%.2f", now() - t0) << ",\n \"violations\": " << violation << "\n}\n";
        o.close();
        printf("%s: %ld cases, %zu distinct non-trivial, %ld discarded, %.1f s\n", cfg.id, ev, distinct.size(), dis, now() - t0);
        for (const auto &l : labels) printf("  %-40s %ld\n", l.first.c_str(), l.second);
        for (const auto &k : knownKeys) printf("KNOWN-FINDING: property=%s%s\n", cfg.id, k.second.c_str());
        if (violation) {
            printf("failure: %s\ncase: %s\nVIOLATION property=%s replay=%s\n", finalMsg.c_str(), finalDesc.c_str(), cfg.id,
                   replayPath.c_str());
            return 1;
        }
        if (ev == 0) {
            fprintf(stderr, "no case was evaluated\n");
            return 3;
        }
        return 0;
    }

    // A failure that needs earlier cases in the same process: state that outlives a mesh.
    // Returns the number of earlier cases needed, or 0.
    long needsHistory(long i, long step, double limit, std::string &m, std::string &d) {
        if (cfg.isolate || cfg.schedule) return 0;
        const double end = now() + 150;
        for (long before = 1; now() < end; before *= 4) {
            const long b = std::min(before, i / step);
            if (b == 0) return 0;
            std::vector<uint64_t> c;
            bool all = true;
            for (int k = 0; k < 3 && all; k++) all = runSeeded(i, b, step, limit + 120, c, m, d) == FAIL;
            if (all) return b;
            if (b < before) break;
        }
        return 0;
    }
    std::string writeSequence(long i, long before, long step, const std::string &msg, const std::string &desc) {
        mkdir("replays", 0755);
        const std::string path = std::string("replays/") + cfg.id + fmt("-seed%lu-case%ld.txt", (unsigned long)seed, i);
        std::ofstream o(path);
        o << "property " << cfg.id << "\ntier " << (thorough ? "thorough" : "quick") << "\nsequence " << seed << " " << i << " "
          << before << " " << step << "\nfailure " << msg << "\ncase " << desc << "\nreplay with: ./check.sh " << cfg.id
          << " --replay " << path << "\n";
        return path;
    }

    bool reproduces(const std::vector<uint64_t> &c, double limit) {
        std::vector<uint64_t> used;
        std::string m, d;
        int hits = 0;
        const int n = cfg.schedule ? 20 : limit > cfg.caseTimeout ? 2 : 3;  // fewer for hangs
        for (int k = 0; k < n; k++) {
            if (runSingle(c, used, m, d, limit) == FAIL) hits++;
            if (!cfg.schedule && hits <= k) return false;
            if (cfg.schedule && hits >= 3) return true;
        }
        return !cfg.schedule || hits >= 3;
    }

    // Re-runs case number i from its seed; recovers its choices even when it crashes.
    bool confirm(long i, double limit, std::vector<uint64_t> &choices, std::string &m, std::string &d) {
        const int n = cfg.schedule ? 20 : 1;
        bool hit = false;
        for (int k = 0; k < n && !hit; k++) hit = runSeeded(i, 0, 1, limit, choices, m, d) == FAIL;
        if (!hit) return false;
        return reproduces(choices, limit);
    }

    // Runs `before` earlier cases of the same worker (numbers i - step*before, ..., i - step) and then case i,
    // all in one process.
    Status runSeeded(long i, long before, long step, double limit, std::vector<uint64_t> &choices, std::string &m, std::string &d) {
        single->status = NONE;
        single->nChoices = 0;
        single->msg[0] = single->desc[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            quietOutput("");
            for (long k = i - before * step; k < i; k += step) {
                Gen g(caseSeed(k));
                Case c(g);
                c.thorough = thorough;
                std::string mm;
                runHere(g, c, mm);
            }
            Gen g(caseSeed(i));
            oneInChild(g);
        }
        Status s = await(pid, limit, m);
        choices.assign(single->choices, single->choices + single->nChoices);
        d = single->desc;
        return s;
    }
};

}  // namespace detail

inline int run(Config cfg, int argc, char **argv) {
    detail::Runner r;
    r.cfg = std::move(cfg);
    return r.main(argc, argv);
}

}  // namespace pbt
