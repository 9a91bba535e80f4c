// P31: the example programs do to a mesh file what they announce.
#include <dirent.h>
#include <sys/wait.h>

#include "bridge.h"
#include "discrete.h"
#include "files.h"
#include "filters/filters.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
using namespace ref;

// A directory of its own, removed with everything in it
struct ScratchDir {
    std::string path;
    ScratchDir() {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) throw Discard();
        mkdir("build", 0777);
        mkdir("build/tmp-P31", 0777);
        path = std::string(cwd) + "/build/tmp-P31/" + std::to_string(getpid());
        clear();
        mkdir(path.c_str(), 0777);
    }
    ~ScratchDir() { clear(); }
    std::set<std::string> list() const {
        std::set<std::string> r;
        if (DIR *d = opendir(path.c_str())) {
            while (dirent *e = readdir(d))
                if (e->d_name[0] != '.') r.insert(e->d_name);
            closedir(d);
        }
        return r;
    }
    void clear() {
        for (const std::string &f : list()) unlink((path + "/" + f).c_str());
        rmdir(path.c_str());
    }
};

static std::string slurp(const std::string &path) {
    std::ifstream f(path, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

// Runs a program in a directory; its output goes to the given text
static int runProgram(const std::string &program, const std::vector<std::string> &args, const std::string &dir, std::string &out) {
    const std::string log = dir + "/.log";
    const pid_t pid = fork();
    if (pid == 0) {
        const struct rlimit none = { 0, 0 };
        setrlimit(RLIMIT_CORE, &none);
        const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        if (chdir(dir.c_str()) != 0) _exit(99);
        setenv("ASAN_OPTIONS", "exitcode=77:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=0", 1);
        setenv("OMP_NUM_THREADS", "1", 1);
        std::vector<char *> a = { (char *)program.c_str() };
        for (const std::string &s : args) a.push_back((char *)s.c_str());
        a.push_back(nullptr);
        execv(program.c_str(), a.data());
        _exit(98);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    out = slurp(log);
    unlink(log.c_str());
    return status;
}

// The surface in a file as the library reads it
static Surf fromFile(const std::string &path) { return viewOf(tm::Mesh(path)).s; }

// Does an OBJ file list the same position twice?
static bool coinciding(const std::string &path) {
    std::istringstream in(slurp(path));
    std::string line;
    std::set<std::array<float, 3>> seen;
    while (std::getline(in, line)) {
        std::array<float, 3> p;
        if (sscanf(line.c_str(), "v %f %f %f", &p[0], &p[1], &p[2]) == 3 && !seen.insert(p).second) return true;
    }
    return false;
}

// Files hold single precision, so a difference in the last digits can be that large
static void same(Case &c, const std::string &got, const std::string &want, const char *what) {
    if (slurp(got) == slurp(want)) return;
    const Surf a = fromFile(got), b = fromFile(want);
    c.require(a.P.size() == b.P.size() && a.F == b.F, "%s: another surface was written (%zu vertices and %zu triangles instead of %zu and %zu)", what,
              a.P.size(), a.F.size(), b.P.size(), b.F.size());
    const double tol = 1e-5 * b.diameter();
    for (size_t i = 0; i < a.P.size(); i++)
        c.require(norm(a.P[i] - b.P[i]) <= tol, "%s: vertex %zu was written %.3g away from its place (size %.3g)", what, i, norm(a.P[i] - b.P[i]), b.diameter());
}

// The smallest angle between the two triangles at an edge of a vertex
static double sharpest(const Surf &s, const Adjacency &ad, int v) {
    double m = 10;
    for (int j : ad.nb[(size_t)v]) {
        const Tri &f = s.F[(size_t)ad.face.at(Edge(v, j))], &g = s.F[(size_t)ad.face.at(Edge(j, v))];
        const V3 p = s.P[(size_t)v], e = unit(s.P[(size_t)j] - p);
        V3 x = s.P[(size_t)other(f, v, j)] - p, y = s.P[(size_t)other(g, v, j)] - p;
        x = x - e * dot(x, e);
        y = y - e * dot(y, e);
        m = std::min(m, std::atan2(norm(cross(x, y)), dot(x, y)));
    }
    return m;
}

struct Step {
    const char *suffix;
    std::function<void(tm::Mesh &)> act;
};

static std::string gPrograms;

static void prop(Case &c) {
    Gen &g = c.g;
    static const char *const names[] = { "read_write", "smooth", "denoise", "remesh", "simplify", "hole_fill" };
    const int which = g.weighted({ 2, 3, 3, 3, 3, 3 });
    const std::string name = names[which], program = gPrograms + "/example_" + name;
    if (access(program.c_str(), X_OK) != 0) throw Discard();
    c.label(name);
    Options o;
    o.nice = true;
    o.minAngleDeg = 2;
    o.maxFaces = which == 5 ? 60 : 120;
    o.minFaces = 4;
    // Only a larger surface is completed by the third method, which takes half a minute
    const bool large = which == 5 && c.thorough && g.chance(0.005);
    if (large) c.label("completed by context");
    Surf s = large ? puncturedTorus(c) : randomSurface(c, o).s;
    for (V3 &p : s.P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    if (!distinctPositions(s)) throw Discard();

    ScratchDir dir;
    // Where the result is not known beforehand, it must be readable here
    const bool ply = g.chance(0.5) && which != 3 && which != 4;
    static const char *const stems[] = { "mesh", "a b", "x.y", "m_copy", "UPPER", "7" };
    const std::string stem = stems[g.pick(6)], ext = ply ? ".ply" : ".obj", input = dir.path + "/" + stem + ext;
    // Relative and absolute names of the file
    const std::string given = g.chance(0.5) ? stem + ext : input;
    std::string out;
    if (g.chance(0.06)) {
        // Nothing given, or nothing there
        const bool any = g.chance(0.5);
        const int status = runProgram(program, any ? std::vector<std::string>{ given } : std::vector<std::string>{}, dir.path, out);
        c.describe(", %s %s", name.c_str(), any ? "with a missing file" : "without arguments");
        c.label("misused");
        c.nontrivial = true;
        c.require(!(WIFEXITED(status) && WEXITSTATUS(status) == 0), "%s ends as if all was well", name.c_str());
        c.require(!(WIFEXITED(status) && WEXITSTATUS(status) == 77), "%s: %s", name.c_str(), out.substr(0, 400).c_str());
        c.require(!WIFSIGNALED(status) || WTERMSIG(status) == SIGABRT, "%s is killed by signal %d", name.c_str(), WTERMSIG(status));
        if (!any) c.require(WIFEXITED(status) && WEXITSTATUS(status) == 1 && out.find("usage") != std::string::npos, "%s does not explain its use: %s", name.c_str(), out.substr(0, 200).c_str());
        c.require(dir.list().empty(), "%s writes %s without an input", name.c_str(), dir.list().empty() ? "" : dir.list().begin()->c_str());
        return;
    }
    {
        toMesh(s).save(input);
        tm::Mesh m(input);
        // Filled holes may double an edge or a triangle, which a file cannot hold
        try {
            if (which != 0) m.fillHoles();
        } catch (const std::runtime_error &) {
        }
        if (!structureError(m).empty()) throw Discard();
        std::set<std::set<int>> corners;
        for (const Tri &f : viewOf(m).s.F)
            if (!corners.insert({ f[0], f[1], f[2] }).second) throw Discard();
    }
    const std::string before = slurp(input);
    std::vector<std::string> args = { given };
    const bool hasOption = (which == 2 || which == 3 || which == 4) && g.chance(0.6);
    double option = 0;
    if (which == 2) option = hasOption ? g.integer(2, 40) / 100.0 : 0.2;
    if (which == 3) option = hasOption ? (double)g.integer(0, 180) : 0.0;
    if (which == 4) option = hasOption ? g.integer(5, 100) / 100.0 : 0.1;
    if (hasOption) args.push_back(pbt::fmt("%g", option));
    const int status = runProgram(program, args, dir.path, out);
    c.describe(", %s %s %s", name.c_str(), ext.c_str(), hasOption ? args[1].c_str() : "");
    c.nontrivial = true;
    c.require(!(WIFEXITED(status) && (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) >= 98)), "%s: %s", name.c_str(), out.substr(0, 1000).c_str());
    c.require(!WIFSIGNALED(status) || WTERMSIG(status) == SIGABRT, "%s is killed by signal %d", name.c_str(), WTERMSIG(status));
    const bool well = WIFEXITED(status) && WEXITSTATUS(status) == 0;
    c.require(slurp(input) == before, "%s changes its input", name.c_str());

    // What it should do, in order; the first step that reports an error ends it
    std::vector<Step> steps;
    std::string source = input;
    if (which == 0) steps = { { "_copy", [](tm::Mesh &) {} } };
    if (which == 1)
        steps = { { "_laplace_smooth", [](tm::Mesh &m) { m.fillHoles(), tm::smoothLaplacian(m, 0.5, true, 100); } },
                  { "_taubin_smooth", [](tm::Mesh &m) { m.fillHoles(), tm::smoothTaubin(m, 0.5, 0.53, 100); } },
                  { "_implicit_fair", [](tm::Mesh &m) { m.fillHoles(), tm::implicitFairing(m, 1.0e-2, 1); } } };
    if (which == 2)
        steps = { { "_denoise_Gaussian", [&](tm::Mesh &m) { m.fillHoles(), tm::denoiseNormalGaussian(m, option, 10); } },
                  { "_denoise_bilateral", [&](tm::Mesh &m) { m.fillHoles(), tm::denoiseNormalBilateral(m, option, 0.1, 10); } },
                  { "_denoise_l0", [](tm::Mesh &m) { m.fillHoles(), tm::denoiseL0Smooth(m); } } };
    if (which == 5)
        steps = { { "_fill_minDA",
                    [](tm::Mesh &m) {
                        for (int i = 0; i < (int)m.numFaces(); i++)
                            if (m.face(i)->isHole()) tm::holeFillMinDihedral(m, m.face(i), 3.14159265358979323846 / 6.0);
                    } },
                  { "_fill_adv_front",
                    [](tm::Mesh &m) {
                        for (int i = 0; i < (int)m.numFaces(); i++)
                            if (m.face(i)->isHole()) tm::holeFillAdvancingFront(m, m.face(i));
                    } },
                  { "_fill_context_coherent", [](tm::Mesh &m) { tm::holeFillContextCoherent(m, 300); } } };
    std::set<std::string> expected = { stem + ext };
    auto written = [&](const std::string &suffix) {
        const std::string f = stem + suffix + ext;
        expected.insert(f);
        c.require(access((dir.path + "/" + f).c_str(), R_OK) == 0, "%s does not write %s: %s", name.c_str(), f.c_str(), out.substr(0, 300).c_str());
        c.require(out.find(dir.path + "/" + f) != std::string::npos || suffix == "_noise" || !well, "%s does not say that it wrote %s: %s", name.c_str(), f.c_str(), out.substr(0, 300).c_str());
        return dir.path + "/" + f;
    };
    bool failed = false;
    const std::string mine = dir.path + "/.mine" + ext;
    if (which == 2) {
        // The noise is random, but no larger than half a mean edge length in each direction
        bool fill = true;
        tm::Mesh m(input);
        try {
            m.fillHoles();
        } catch (const std::runtime_error &) {
            fill = false;
        }
        if (fill) {
            source = written("_noise");
            const Surf noisy = fromFile(source), plain = viewOf(m).s;
            c.require(noisy.F.size() == plain.F.size() && noisy.P.size() == plain.P.size(), "the noisy mesh has %zu vertices and %zu triangles instead of %zu and %zu",
                      noisy.P.size(), noisy.F.size(), plain.P.size(), plain.F.size());
            const double bound = 0.5 * m.getMeanEdgeLength() * (1 + 1e-5) + 1e-6 * plain.diameter();
            m.save(mine);
            const Surf again = fromFile(mine);
            unlink(mine.c_str());
            bool moved = false;
            for (size_t i = 0; i < noisy.P.size(); i++) {
                const V3 d = noisy.P[i] - again.P[i];
                moved = moved || norm(d) > 1e-6 * plain.diameter();
                c.require(std::fabs(d.x) <= bound && std::fabs(d.y) <= bound && std::fabs(d.z) <= bound, "noise moves vertex %zu by %.3g (bound %.3g)", i, norm(d), bound);
            }
            c.require(moved, "no noise was added");
        } else {
            failed = true;
        }
    }
    for (const Step &st : steps) {
        if (failed) break;
        try {
            tm::Mesh m(source);
            st.act(m);
            m.save(mine);
        } catch (const std::runtime_error &) {
            failed = true;
        }
        if (failed) break;
        same(c, written(st.suffix), mine, st.suffix + 1);
        unlink(mine.c_str());
    }
    if (which == 3 || which == 4) {
        // Which edges are treated first is random
        tm::Mesh m(input);
        const int faces = (int)m.numFaces();
        try {
            m.fillHoles();
        } catch (const std::runtime_error &) {
            failed = true;
        }
        if (!failed && !well) {
            // It may meet triangles that it cannot treat
            c.label("reported an error");
            return;
        }
        if (!failed) {
            const Surf start = viewOf(m).s;
            const std::string file = written(which == 3 ? "_remesh" : "_simplify");
            if (coinciding(file)) {
                // A few triangles that are smoothed into a point cannot be read back
                c.label("degenerate result");
                return;
            }
            tm::Mesh r(file);
            requireValid(c, r, "written mesh");
            const View v = viewOf(r);
            c.require(v.holes.empty(), "%s leaves %zu holes", name.c_str(), v.holes.size());
            c.require(topology(v.s).euler() == topology(start).euler(), "%s changes the Euler characteristic from %d to %d", name.c_str(), topology(start).euler(), topology(v.s).euler());
            if (which == 4) {
                const int target = (int)(option * faces), n = (int)v.s.F.size();
                c.require(n >= std::min(target - 1, (int)start.F.size()), "%d triangles are left of %zu, fewer than the %d asked for", n, start.F.size(), target);
                c.require(n <= (int)start.F.size(), "%d triangles are left of %zu", n, start.F.size());
                if (target + 1 < (int)start.F.size()) c.label("to be simplified");
                if (n <= target + 1) c.label("target met");
            } else {
                // Feature vertices stay
                const Adjacency ad(start);
                const std::set<V3> kept(v.s.P.begin(), v.s.P.end());
                int pinned = 0;
                for (size_t i = 0; i < start.P.size(); i++) {
                    if (!(sharpest(start, ad, (int)i) < option * 3.14159265358979323846 / 180.0 - 1e-6)) continue;
                    const V3 &p = start.P[i];
                    c.require(kept.count(V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z)) > 0, "vertex %zu on an edge sharper than %g degrees is gone", i, option);
                    pinned++;
                }
                // and others move
                if (pinned == 0 && start.F.size() >= 20) {
                    bool moved = false;
                    for (const V3 &p : start.P) moved = moved || !kept.count(V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z));
                    c.require(moved, "no vertex moves although none is on an edge sharper than %g degrees", option);
                    c.label("nothing pinned");
                }
                if (pinned) c.label("pinned vertices");
            }
        }
    }
    c.require(well == !failed, "%s %s: %s", name.c_str(), well ? "ends as if all was well where the library reports an error" : "ends with an error", out.substr(out.size() < 400 ? 0 : out.size() - 400).c_str());
    for (const std::string &f : dir.list()) c.require(expected.count(f) > 0, "%s also writes %s", name.c_str(), f.c_str());
    if (failed) c.label("reported an error");
}

int main(int argc, char **argv) {
    char self[4096];
    const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    gPrograms = std::string(self, (size_t)std::max<ssize_t>(0, n));
    gPrograms = gPrograms.substr(0, gPrograms.rfind('/')) + "/examples";
    pbt::Config cfg;
    cfg.id = "P31";
    cfg.rule = "a random manifold of up to 120 triangles saved as OBJ or PLY under various names, given to one of the example programs with or without "
               "its option, or a missing file or nothing; non-trivial: every run of a program";
    cfg.prop = prop;
    cfg.quickCases = 3000;
    cfg.thoroughCases = 30000;
    cfg.caseTimeout = 240;
    cfg.assumptions = { "no triangle angle below 2 degrees in the input" };
    return pbt::run(cfg, argc, argv);
}
