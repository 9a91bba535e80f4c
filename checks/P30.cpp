// P30: messages, progress bars and reported errors come out as given.
#include <sys/syscall.h>

#include <iostream>

#include "core/progress.h"
#include "pbt.h"
using pbt::Case;
using pbt::Gen;

// The clock that progress bars read, while one is being tested
static bool gFake = false;
static int64_t gMsec = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (gFake) {
        t->tv_sec = 1000000000 + gMsec / 1000;
        t->tv_nsec = gMsec % 1000 * 1000000;
        return 0;
    }
    // The real clock, without the function that is replaced here
    return (int)syscall(SYS_clock_gettime, id, t);
}

// What is written to a file descriptor while a function runs
struct Capture {
    int fd, saved, file;
    explicit Capture(int fd) : fd(fd) {
        fflush(stdout);
        std::cout.flush();
        saved = dup(fd);
        file = memfd_create("output", 0);
        dup2(file, fd);
    }
    std::string text() {
        fflush(stdout);
        return raw();
    }
    // Without flushing anything first
    std::string raw() {
        const off_t n = lseek(file, 0, SEEK_END);
        std::string s((size_t)n, 0);
        if (pread(file, &s[0], (size_t)n, 0) != n) s.clear();
        return s;
    }
    ~Capture() {
        fflush(stdout);
        dup2(saved, fd);
        close(saved);
        close(file);
    }
};

static std::string word(Gen &g, int longest) {
    std::string s;
    const int n = g.chance(0.2) ? g.integer(100, longest) : g.integer(0, 12);
    for (int i = 0; i < n; i++) s += i < 40 ? "abc XYZ.,-%\\\"0189[]"[g.pick(18)] : "qwerty "[i % 7];
    return s;
}
static std::string percents(const std::string &s) {
    std::string o;
    for (char ch : s) o += ch == '%' ? std::string("%%") : std::string(1, ch);
    return o;
}
static std::string padded(const std::string &s, int width) {
    return (int)s.size() < width ? std::string(width - s.size(), ' ') + s : s;
}
static std::string number(long long v) {
    const bool minus = v < 0;
    unsigned long long u = minus ? 0ull - (unsigned long long)v : (unsigned long long)v;
    std::string s;
    do s.insert(s.begin(), (char)('0' + u % 10));
    while (u /= 10);
    return minus ? "-" + s : s;
}

// A format, its text, and a function applied to the format and the values
template <typename F>
static std::string formatted(Gen &g, F &&apply, int longest) {
    const std::string a = word(g, longest), b = word(g, longest), s = word(g, longest);
    const int width = g.integer(0, 14), i = g.integer(-100000, 100000);
    const long long big = (long long)g.integer(-2000000000, 2000000000) * 2000000011ll;
    // Sixteenths, which four decimals write exactly
    const int sixteenths = g.integer(-4000, 4000);
    const double x = sixteenths / 16.0;
    const int abs16 = std::abs(sixteenths);
    const std::string frac = number(10000 + abs16 % 16 * 625).substr(1);
    const std::string xs = (sixteenths < 0 ? "-" : "") + number(abs16 / 16) + "." + frac;
    const std::string w = width > 0 ? number(width) : "";
    const std::string A = percents(a), B = percents(b);
    switch (g.pick(6)) {
    case 0:
        apply((A + B).c_str());
        return a + b;
    case 1:
        apply((A + "%" + w + "d" + B).c_str(), i);
        return a + padded(number(i), width) + b;
    case 2:
        apply((A + "%" + w + "s" + B).c_str(), s.c_str());
        return a + padded(s, width) + b;
    case 3:
        apply((A + "%" + w + ".4f" + B).c_str(), x);
        return a + padded(xs, width) + b;
    case 4:
        apply((A + "%lld%%%" + w + "d" + B).c_str(), big, i);
        return a + number(big) + "%" + padded(number(i), width) + b;
    default:
        apply((A + "%s%.4f%c" + B).c_str(), s.c_str(), x, (char)('a' + i % 10 + (i < 0 ? 10 : 0)));
        return a + s + xs + (char)('a' + i % 10 + (i < 0 ? 10 : 0)) + b;
    }
}

static std::string uncoloured(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') {
            while (i < s.size() && s[i] != 'm') i++;
        } else {
            o += s[i];
        }
    }
    return o;
}
static void equal(Case &c, const std::string &got, const std::string &want, const char *what) {
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    c.require(got == want, "%s: %zu characters instead of %zu, first difference at %zu: \"%s\" instead of \"%s\"", what,
              got.size(), want.size(), k, got.substr(k, 40).c_str(), want.substr(k, 40).c_str());
}

static void messages(Case &c) {
    Gen &g = c.g;
    {
        std::string got;
        const std::string want = formatted(g, [&](const char *f, auto... a) { got = STR_FMT(f, a...); }, 3000);
        c.describe("text \"%s\"", want.c_str());
        equal(c, got, want, "formatted text");
    }
    const int kind = g.pick(4);
    static const char *const head[4] = { "", "[INFO] ", "[DEBUG] ", "[WARNING] " };
    std::string want, got;
    {
        Capture out(1);
        const int n = g.integer(1, 3);
        for (int i = 0; i < n; i++) {
            want += head[kind];
            want += formatted(g, [&](const char *f, auto... a) {
                if (kind == 0) Print(f, a...);
                if (kind == 1) Info(f, a...);
                if (kind == 2) Debug(f, a...);
                if (kind == 3) Warn(f, a...);
            }, 1000);
            if (kind) want += "\n";
        }
        got = out.text();
    }
    c.label(kind == 0 ? "plain message" : "labelled message");
    c.nontrivial = !want.empty();
    equal(c, uncoloured(got), want, "message");
}

static void streams(Case &c) {
    Gen &g = c.g;
    std::string want, got, early;
    const int n = g.integer(0, 12);
    {
        Capture out(1);
        {
            PrintStream s;
            for (int i = 0; i < n; i++) {
                switch (g.pick(4)) {
                case 0: {
                    const std::string w = word(g, 400);
                    s << w;
                    want += w;
                    break;
                }
                case 1: {
                    const int v = g.integer(-1000, 1000);
                    s << v;
                    want += number(v);
                    break;
                }
                case 2:
                    s << 'x' << 0.5 << "y";
                    want += "x0.5y";
                    break;
                default:
                    if (g.chance(0.5)) {
                        s << std::endl;
                        want += "\n";
                    } else {
                        s.flush();
                    }
                    // All that was given up to here is out
                    early = out.raw();
                    equal(c, early, want, "stream after a flush");
                    c.label("flushed stream");
                }
            }
        }
        got = out.text();
    }
    c.describe("stream of %d items, %zu characters", n, want.size());
    if (want.size() >= 128) c.label("longer than the buffer");
    c.nontrivial = !want.empty();
    equal(c, got, want, "stream");
}

static void progress(Case &c) {
    Gen &g = c.g;
    const int total = g.chance(0.2) ? (int)g.logReal(1e4, 2.1e9) : g.chance(0.5) ? g.integer(1, 30) : g.integer(1, 5000);
    const bool described = g.chance(0.5);
    // How long a step takes
    const double pace = g.chance(0.2) ? 0.0 : g.logReal(1e-4, 1e5);
    std::string title, got;
    struct Shown {
        int64_t step, msec;
    };
    std::vector<Shown> shown;
    const int every = std::max(1, total / 1000);
    int64_t at = 0;
    bool finished = false;
    {
        Capture out(1);
        gMsec = g.integer(0, 999);
        const int64_t begin = gMsec;
        gFake = true;
        double clock = (double)begin;
        ProgressBar bar(total);
        if (described) formatted(g, [&](const char *f, auto... a) { bar.set_description(f, a...), title = STR_FMT(f, a...); }, 200);
        const int steps = g.integer(0, 40);
        auto tick = [&](int64_t n) {
            at += n;
            clock += pace * (double)std::min<int64_t>(n, 1000) * (g.chance(0.3) ? 2 : 1);
            gMsec = (int64_t)clock;
            if (at == total || at % every == 0) shown.push_back({ at, gMsec - begin });
        };
        for (int i = 0; i < steps && at < total; i++) {
            int64_t n = 1;
            if (g.chance(0.5)) n = std::min<int64_t>(total - at, g.chance(0.5) ? every : g.integer(1, std::max(1, total / 8)));
            tick(n);
            if (n == 1 && g.chance(0.5)) {
                bar.step();
            } else {
                bar.step((int)n);
            }
        }
        if (g.chance(0.5)) {
            if (at < total) tick(total - at);
            bar.finish();
            finished = true;
        }
        gFake = false;
        got = out.text();
    }
    c.describe("%d steps of %d in %lld ms%s", (int)at, total, (long long)(gMsec), finished ? ", finished" : "");
    if (at == total) c.label("completed");
    if (total > 50000000) c.label("many steps");
    c.nontrivial = !shown.empty();
    size_t pos = 0;
    auto eat = [&](const std::string &s, const char *what) {
        c.require(got.compare(pos, s.size(), s) == 0, "progress bar at %zu: \"%s\" instead of %s \"%s\"", pos, got.substr(pos, 60).c_str(), what, s.c_str());
        pos += s.size();
    };
    auto integer = [&](const char *what) {
        size_t e = pos;
        long long v = 0;
        while (e < got.size() && isdigit((unsigned char)got[e])) v = v * 10 + (got[e++] - '0');
        c.require(e > pos, "progress bar at %zu: \"%s\" instead of %s", pos, got.substr(pos, 60).c_str(), what);
        pos = e;
        return v;
    };
    // Minutes and seconds of a time in seconds
    auto timed = [&](double lo, double hi, const char *what) {
        const size_t from = pos;
        const long long m = integer(what);
        c.require(pos - from >= 2, "%s is not written with two digits", what);
        eat(":", "a colon");
        const size_t mid = pos;
        const long long s = integer(what);
        c.require(pos - mid == 2 && s < 60, "%s has %lld seconds", what, s);
        const double t = (double)(60 * m + s);
        c.require(t >= lo && t <= hi, "%s %02lld:%02lld is not within %.3f to %.3f seconds", what, m, s, lo, hi);
    };
    for (const Shown &s : shown) {
        eat("\r", "a return to the line start");
        if (!title.empty()) eat(title + " ", "the description");
        const int percent = (int)(100 * s.step / total), ticks = (int)(40 * s.step / total);
        eat("[" + padded(number(percent), 3) + "%]|", "the percentage");
        eat(std::string(ticks, '=') + (ticks < 40 ? ">" + std::string(39 - ticks, ' ') : "") + "| ", "the bar");
        eat(number(s.step) + "/" + number(total) + " [", "the count");
        timed((double)(s.msec / 1000), (double)(s.msec / 1000), "elapsed time");
        eat("<", "a separator");
        const double rest = (double)s.msec / (double)s.step * (double)(total - s.step) / 1000.0;
        // Beyond this the number of seconds is of no use to anyone
        if (rest < 1e9) {
            timed(std::floor(rest * (1 - 1e-9) - 1e-9), std::floor(rest * (1 + 1e-9) + 1e-9), "remaining time");
        } else {
            c.label("endless");
            while (pos < got.size() && got[pos] != ',') pos++;
        }
        eat(", ", "a comma");
        // Steps in a second, or seconds for a step
        const double per = s.msec > 0 ? 1000.0 * (double)s.step / (double)s.msec : HUGE_VAL;
        if (per >= 1000 * (1 + 1e-9)) {
            eat("1000+it/s", "the rate");
            c.label("fast");
        } else if (per >= 1 + 1e-9) {
            const long long r = per > 1000 * (1 - 1e-9) && got.compare(pos, 5, "1000+") == 0 ? (pos += 5, 1000) : integer("the rate");
            c.require(r >= std::floor(per * (1 - 1e-9)) && r <= std::floor(per * (1 + 1e-9)), "%lld steps in a second are shown where there are %.6f", r, per);
            eat("it/s", "the unit");
            c.label("steps in a second");
        } else {
            char *end = nullptr;
            const double v = strtod(got.c_str() + pos, &end);
            pos = (size_t)(end - got.c_str());
            if (per <= 1 - 1e-9) {
                c.require(std::fabs(v - 1 / per) <= 0.0501 / per, "%.6f seconds for a step are shown where it takes %.6f", v, 1 / per);
                eat("s/it", "the unit");
                c.label("seconds for a step");
            } else {
                c.require(v == 1, "%.6f is shown where a step takes a second", v);
                eat(got.compare(pos, 2, "it") == 0 ? "it/s" : "s/it", "the unit");
            }
        }
        eat("]", "the end");
        if (s.step == total) eat("\n", "the end of the line");
    }
    c.require(pos == got.size(), "%zu characters follow the progress bar: \"%s\"", got.size() - pos, got.substr(pos, 60).c_str());
}

static int gAsked = 0;
static bool ask(bool answer) {
    gAsked++;
    return answer;
}
static void errors(Case &c) {
    Gen &g = c.g;
    const int kind = g.pick(3);
    c.nontrivial = true;
    gAsked = 0;
    if (kind == 0) {
        std::string out, err;
        {
            Capture a(1), b(2);
            Assertion(ask(true), "never");
            out = a.text(), err = b.text();
        }
        c.require(out.empty() && err.empty(), "an assertion that holds writes \"%s\"", (out + err).c_str());
        c.require(gAsked == 1, "the condition of an assertion is evaluated %d times", gAsked);
        c.describe("assertion that holds");
        c.label("assertion holds");
        return;
    }
    std::string want, out, err;
    int status = 0;
    const int line = __LINE__ + 12;
    {
        Capture a(1), b(2);
        const pid_t pid = fork();
        if (pid == 0) {
            const struct rlimit none = { 0, 0 };
            setrlimit(RLIMIT_CORE, &none);
            signal(SIGABRT, SIG_DFL);
            std::set_terminate([] { abort(); });
            if (kind == 1) {
                formatted(g, [&](const char *f, auto... x) { Error(f, x...); }, 1000);
            } else {
                Assertion(ask(false), "always");
            }
            _exit(0);
        }
        waitpid(pid, &status, 0);
        out = a.raw(), err = b.raw();
    }
    if (kind == 1) want = formatted(g, [](const char *, auto...) {}, 1000);
    c.require(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "%s leaves the program running (status %d)", kind == 1 ? "a reported error" : "a failed assertion", status);
    if (kind == 1) {
        c.describe("error \"%s\"", want.c_str());
        c.label("error");
        equal(c, uncoloured(out), "[ERROR] " + want + "\n", "reported error");
    } else {
        c.describe("assertion that fails");
        c.label("assertion fails");
        c.require(err.find("ask(false)") != std::string::npos && err.find("P30.cpp") != std::string::npos && err.find("errors") != std::string::npos && err.find(number(line)) != std::string::npos,
                  "a failed assertion does not say what and where: \"%s\"", err.c_str());
    }
}

static void prop(Case &c) {
    switch (c.g.weighted({ 5, 3, 8, 1 })) {
    case 0: return messages(c);
    case 1: return streams(c);
    case 2: return progress(c);
    default: return errors(c);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P30";
    cfg.prop = prop;
    cfg.rule = "formats with integers, reals and strings of up to thousands of characters; streams of several items; progress bars of 1 to 2e9 steps with a "
               "clock of their own; errors and assertions in a process of their own; non-trivial: something had to be written, or an assertion evaluated";
    cfg.quickCases = 150000;
    cfg.thoroughCases = 3000000;
    return pbt::run(cfg, argc, argv);
}
