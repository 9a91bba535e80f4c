// P29: the Python module does what the library does.
#include <fcntl.h>
#include <unistd.h>

#include <random>

#include <pybind11/embed.h>
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>

#include "filters/filters.h"
#include "ops/ops.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
#include "discrete.h"
#include "edits.h"
#include "files.h"
#include "holes.h"
using namespace ref;
namespace py = pybind11;

extern "C" PyObject *PyInit_tinymesh();

// The library seeds its shuffles from std::random_device; here the numbers come from the case.
static uint64_t deviceState = 1;
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    deviceState = deviceState * 6364136223846793005ull + 1442695040888963407ull;
    return (result_type)(deviceState >> 32);
}
}  // namespace std

struct Quiet {
    int keep;
    Quiet() {
        fflush(stdout);
        std::cout.flush();
        keep = dup(1);
        const int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        close(null);
    }
    ~Quiet() {
        std::cout.flush();
        dup2(keep, 1);
        close(keep);
    }
};

static void startPython() {
    if (Py_IsInitialized()) return;
    PyImport_AppendInittab("tinymesh", &PyInit_tinymesh);
    PyConfig config;
    PyConfig_InitPythonConfig(&config);
    config.install_signal_handlers = 0;
    config.write_bytecode = 0;
    // The interpreter that has NumPy and SciPy
    PyConfig_SetBytesString(&config, &config.executable, "/opt/veriftools/pyvenv/bin/python");
    const PyStatus st = Py_InitializeFromConfig(&config);
    PyConfig_Clear(&config);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "Python does not start: %s\n", st.err_msg);
        exit(3);
    }
    try {
        py::module_::import("numpy");
        py::module_::import("scipy.sparse");
        py::module_::import("tinymesh");
    } catch (py::error_already_set &e) {
        fprintf(stderr, "%s\n", e.what());
        exit(3);
    }
}

static py::module_ tiny() { return py::module_::import("tinymesh"); }
static py::module_ numpy() { return py::module_::import("numpy"); }

struct Outcome {
    bool failed = false;
    std::string type, why;
    py::object value;
};
template <typename F>
static Outcome pyTry(F f) {
    Outcome o;
    Quiet quiet;
    try {
        o.value = f();
    } catch (py::error_already_set &e) {
        o.failed = true;
        o.type = py::str(e.type().attr("__name__"));
        o.why = e.what();
    }
    return o;
}
template <typename F>
static bool cppFails(F f) {
    Quiet quiet;
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}

// The ways of passing positions and indices
static py::object positions(Case &c, Surf &s) {
    const int how = (int)c.g.pick(7);
    py::list rows;
    if (how == 5)
        for (V3 &p : s.P) p = V3((float)p.x, (float)p.y, (float)p.z);
    if (how == 6)
        for (V3 &p : s.P) p = V3(std::round(p.x * 8) + 0.0, std::round(p.y * 8) + 0.0, std::round(p.z * 8) + 0.0);
    if (how >= 5 && (!distinctPositions(s) || s.minAngle() < 1e-3)) throw Discard();
    for (const V3 &p : s.P) {
        if (how == 0) rows.append(py::make_tuple(p.x, p.y, p.z));
        else if (how == 2) rows.append(numpy().attr("array")(py::make_tuple(p.x, p.y, p.z)));
        else {
            py::list r;
            r.append(p.x), r.append(p.y), r.append(p.z);
            rows.append(r);
        }
    }
    static const char *names[] = { "tuples", "lists", "list of arrays", "array", "strided array", "single precision array", "integer array" };
    c.label(names[how]);
    c.describe(" %s; ", names[how]);
    if (how <= 2) return rows;
    py::object a = numpy().attr("array")(rows, py::arg("dtype") = how == 5 ? "float32" : how == 6 ? "int64" : "float64");
    if (how == 4) {
        // Every second column of a wider array, stored by columns
        py::object wide = numpy().attr("full")(py::make_tuple(s.P.size(), 6), 77.0, py::arg("order") = "F");
        wide.attr("__setitem__")(py::make_tuple(py::slice(py::none(), py::none(), py::none()), py::slice(py::none(), py::none(), py::int_(2))), a);
        return wide.attr("__getitem__")(py::make_tuple(py::slice(py::none(), py::none(), py::none()), py::slice(py::none(), py::none(), py::int_(2))));
    }
    return a;
}
static py::list rowsOf(const Surf &s) {
    py::list rows;
    for (const V3 &p : s.P) rows.append(py::make_tuple(p.x, p.y, p.z));
    return rows;
}
static py::object indexList(Case &c, const Surf &s) {
    py::list l;
    for (const Tri &t : s.F)
        for (int k = 0; k < 3; k++) l.append(t[(size_t)k]);
    switch (c.g.pick(4)) {
        case 0: return l;
        case 1: return py::tuple(l);
        case 2: return numpy().attr("array")(l, py::arg("dtype") = "uint32");
        default: return numpy().attr("array")(l, py::arg("dtype") = "int64");
    }
}

static double sizeOf(const Surf &s) {
    double far = 0;
    for (const V3 &p : s.P) far = std::max(far, norm(p));
    return far;
}
static bool close(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol; }

static void sameMesh(Case &c, const py::object &m, const tm::Mesh &want, const char *what, double tol, bool positionsToo = true) {
    const View a = viewOf(m.cast<tm::Mesh &>()), b = viewOf(want);
    c.require(a.s.P.size() == b.s.P.size() && a.s.F == b.s.F && a.holes == b.holes, "%s: other triangles than from the library", what);
    for (size_t i = 0; i < a.s.P.size() && positionsToo; i++) {
        const V3 &p = a.s.P[i], &q = b.s.P[i];
        c.require(close(p.x, q.x, tol) && close(p.y, q.y, tol) && close(p.z, q.z, tol), "%s: vertex %zu is at %s, from the library %s", what, i, show(p).c_str(), show(q).c_str());
    }
}
static void sameMatrix(Case &c, const py::object &a, const EigenMatrix &want, const char *what, double tol) {
    const py::object arr = numpy().attr("asarray")(a);
    const size_t dims = py::len(arr.attr("shape"));
    const EigenMatrix got = dims == 1 ? EigenMatrix(arr.cast<EigenVector>()) : arr.cast<EigenMatrix>();
    c.require(got.rows() == want.rows() && got.cols() == want.cols(), "%s: %ld x %ld numbers instead of %ld x %ld", what, (long)got.rows(), (long)got.cols(), (long)want.rows(), (long)want.cols());
    for (long i = 0; i < got.rows(); i++)
        for (long j = 0; j < got.cols(); j++)
            c.require(close(got(i, j), want(i, j), tol * (1 + std::fabs(want(i, j)))), "%s: entry (%ld,%ld) is %.17g, from the library %.17g", what, i, j, got(i, j), want(i, j));
}

struct Param {
    const char *name;
    py::object value;
    bool given;
};
// Calls a function of the module, with arguments by position or by name, those not given left out.
static Outcome call(Case &c, const char *name, std::vector<Param> lead, std::vector<Param> rest) {
    py::list pos;
    py::dict kw;
    bool byName = false;
    const bool named = c.g.chance(0.2);
    for (Param &p : lead) {
        if (named) kw[p.name] = p.value;
        else pos.append(p.value);
    }
    byName = named;
    int left = 0;
    for (Param &p : rest) {
        if (!p.given) {
            byName = true;
            left++;
        } else {
            byName = byName || c.g.chance(0.4);
            if (byName) kw[p.name] = p.value;
            else pos.append(p.value);
        }
    }
    c.describe("%s: %d by position, %d by name, %d left out", name, (int)py::len(pos), (int)py::len(kw), left);
    if (left) c.label("defaults");
    return pyTry([&] { return tiny().attr(name)(*py::tuple(pos), **kw); });
}

// A parameter: the number is drawn, or its default is taken and it is left out.
template <typename T>
static Param param(Case &c, const char *name, T &v, T standard, T drawn) {
    const bool given = c.g.chance(0.6);
    v = given ? drawn : standard;
    return Param{ name, py::cast(v), given };
}

static void outcome(Case &c, const Outcome &o, bool fails, const char *name) {
    c.require(o.failed == fails, "%s: %s, the library call %s", name, o.failed ? o.why.c_str() : "succeeds", fails ? "reports an error" : "succeeds");
    if (o.failed) c.require(o.type == "RuntimeError", "%s: raises %s", name, o.type.c_str());
    if (o.failed) c.label("error");
}

static void filters(Case &c, py::object m, tm::Mesh &w, double tol) {
    double x, y, z;
    int n, k;
    bool b;
    const std::vector<Param> lead = { { "mesh", m, true } };
    switch (c.g.pick(8)) {
        case 0: {
            std::vector<Param> r = { param(c, "epsilon", x, 1.0, c.g.real(0, 1)), param(c, "cotangent_weight", b, false, c.g.chance(0.5)), param(c, "iterations", n, 3, (int)c.g.integer(0, 5)) };
            const Outcome o = call(c, "smooth_laplacian", lead, r);
            outcome(c, o, cppFails([&] { tm::smoothLaplacian(w, x, b, n); }), "smooth_laplacian");
            break;
        }
        case 1: {
            std::vector<Param> r = { param(c, "shrink", x, 0.5, c.g.real(0, 1)), param(c, "inflate", y, 0.53, c.g.real(0, 1)), param(c, "iterations", n, 3, (int)c.g.integer(0, 5)) };
            const Outcome o = call(c, "smooth_taubin", lead, r);
            outcome(c, o, cppFails([&] { tm::smoothTaubin(w, x, y, n); }), "smooth_taubin");
            break;
        }
        case 2: {
            std::vector<Param> r = { param(c, "epsilon", x, 1.0, c.g.real(0, 2)), param(c, "iterations", n, 1, (int)c.g.integer(0, 3)) };
            const Outcome o = call(c, "implicit_fairing", lead, r);
            outcome(c, o, cppFails([&] { tm::implicitFairing(w, x, n); }), "implicit_fairing");
            break;
        }
        case 3: {
            std::vector<Param> r = { param(c, "sigma", x, 0.2, c.g.real(0.05, 1)), param(c, "iterations", n, 3, (int)c.g.integer(0, 5)) };
            const Outcome o = call(c, "denoise_normal_gaussian", lead, r);
            outcome(c, o, cppFails([&] { tm::denoiseNormalGaussian(w, x, n); }), "denoise_normal_gaussian");
            break;
        }
        case 4: {
            std::vector<Param> r = { param(c, "sigma_c", x, 0.2, c.g.real(0.05, 1)), param(c, "sigma_s", y, 0.1, c.g.real(0.05, 1)), param(c, "iterations", n, 3, (int)c.g.integer(0, 5)) };
            const Outcome o = call(c, "denoise_normal_bilateral", lead, r);
            outcome(c, o, cppFails([&] { tm::denoiseNormalBilateral(w, x, y, n); }), "denoise_normal_bilateral");
            break;
        }
        case 5: {
            std::vector<Param> r = { param(c, "alpha", x, 0.1, c.g.real(0.01, 1)), param(c, "beta", y, 0.001, c.g.real(1e-4, 1e-1)) };
            const Outcome o = call(c, "denoise_l0_smooth", lead, r);
            outcome(c, o, cppFails([&] { tm::denoiseL0Smooth(w, x, y); }), "denoise_l0_smooth");
            break;
        }
        case 6: {
            const uint64_t device = (uint64_t)c.g.integer(0, 1 << 30);
            std::vector<Param> r = { param(c, "short_length", x, 0.8, c.g.real(0, 1)), param(c, "long_length", y, 1.333, c.g.real(1, 3)),
                                     param(c, "angle_keep_less_than", z, 0.0, c.g.real(0, 3)), param(c, "iterations", n, 5, (int)c.g.integer(0, 3)),
                                     param(c, "verbose", b, false, c.g.chance(0.5)) };
            deviceState = device;
            const Outcome o = call(c, "remesh_triangular", lead, r);
            deviceState = device;
            outcome(c, o, cppFails([&] { tm::remeshTriangular(w, x, y, z, n, b); }), "remesh_triangular");
            break;
        }
        default: {
            const int target = (int)c.g.integer(c.g.chance(0.1) ? -1 : 1, (long)w.numFaces() + 1);
            std::vector<Param> r = { { "n_triangles", py::cast(target), true }, param(c, "n_trials", k, 10, (int)c.g.integer(1, 20)), param(c, "verbose", b, false, c.g.chance(0.5)) };
            const Outcome o = call(c, "simplify_qem", lead, r);
            outcome(c, o, cppFails([&] { tm::simplifyQEM(w, target, k, b); }), "simplify_qem");
            if (o.failed) return;
            break;
        }
    }
    sameMesh(c, m, w, "after filtering", tol);
}

static void holes(Case &c, py::object m, tm::Mesh &w, const Surf &s) {
    std::vector<int> ids;
    for (int i = 0; i < (int)w.numFaces(); i++)
        if (w.face(i)->isHole()) ids.push_back(i);
    if (ids.empty()) throw Discard();
    c.label("hole filling");
    const auto em = edgeMap(s);
    for (const auto &l : viewOf(w).holes)
        if (hasChord(l, em)) throw Discard();
    const int f = ids[c.g.pick(ids.size())];
    const py::object face = m.attr("face")(f);
    c.require(face.attr("is_hole")().cast<bool>(), "face %d is no hole", f);
    double x;
    const std::vector<Param> lead = { { "mesh", m, true }, { "face", face, true } };
    switch (c.g.pick(4)) {
        case 0:
        case 1: {
            std::vector<Param> r = { param(c, "dihedral_bound", x, Pi, c.g.real(0, Pi)) };
            const Outcome o = call(c, "hole_fill_min_dihedral", lead, r);
            outcome(c, o, cppFails([&] { tm::holeFillMinDihedral(w, w.face(f), x); }), "hole_fill_min_dihedral");
            if (o.failed) return;
            sameMesh(c, m, w, "after hole filling", 0);
            break;
        }
        case 2: {
            const Outcome o = call(c, "hole_fill_advancing_front", lead, {});
            outcome(c, o, cppFails([&] { tm::holeFillAdvancingFront(w, w.face(f)); }), "hole_fill_advancing_front");
            if (o.failed) return;
            sameMesh(c, m, w, "after hole filling", 0, false);
            break;
        }
        default: {
            const Outcome o = pyTry([&] { return m.attr("fill_holes")(); });
            outcome(c, o, cppFails([&] { w.fillHoles(); }), "fill_holes");
            if (o.failed) return;
            sameMesh(c, m, w, "after filling all holes", 0);
            break;
        }
    }
}

static void measures(Case &c, py::object m, tm::Mesh &w, const Surf &s) {
    const std::vector<Param> lead = { { "mesh", m, true } };
    bool b = false;
    const int what = (int)c.g.pick(8);
    if (what >= 3 && what <= 6 && !topology(s).closed()) throw Discard();
    switch (what) {
        case 0:
        case 1: {
            Surf t = s;
            const double d = c.g.real(0, 1) * s.diameter();
            for (V3 &p : t.P) p = p + V3(c.g.real(-1, 1) * d, c.g.real(-1, 1) * d, c.g.real(-1, 1) * d);
            const tm::Mesh other = toMesh(t);
            const py::object mo = tiny().attr("Mesh")(rowsOf(t), indicesOf(t));
            const bool flip = c.g.chance(0.5);
            const tm::Mesh &a = flip ? other : w, &z = flip ? w : other;
            const py::object pa = flip ? mo : m, pz = flip ? m : mo;
            if (what == 0) {
                const Outcome o = call(c, "get_hausdorff_distance", { { "mesh0", pa, true }, { "mesh1", pz, true } }, {});
                outcome(c, o, false, "get_hausdorff_distance");
                c.require(close(o.value.cast<double>(), tm::getHausdorffDistance(a, z), 0), "get_hausdorff_distance: other result than from the library");
            } else {
                const Outcome o = call(c, "get_per_vertex_shortest_distances", { { "src", pa, true }, { "dst", pz, true } }, {});
                outcome(c, o, false, "get_per_vertex_shortest_distances");
                sameMatrix(c, o.value, tm::getPerVertexShortestDistances(a, z), "get_per_vertex_shortest_distances", 0);
            }
            break;
        }
        case 2:
        case 7: {
            static const char *names[] = { "ADJACENT", "COTANGENT", "BELKIN08" };
            static const tm::MeshLaplace kinds[] = { tm::MeshLaplace::Adjacent, tm::MeshLaplace::Cotangent, tm::MeshLaplace::Belkin08 };
            const int k = (int)c.g.pick(3);
            const Outcome o = call(c, "get_mesh_laplacian", { { "mesh", m, true }, { "type", tiny().attr("MeshLaplace").attr(names[k]), true } }, {});
            EigenSparseMatrix L;
            outcome(c, o, cppFails([&] { L = tm::getMeshLaplacian(w, kinds[k]); }), "get_mesh_laplacian");
            if (o.failed) return;
            sameMatrix(c, o.value.attr("toarray")(), EigenMatrix(L), "get_mesh_laplacian", 0);
            if (what == 7 && k < 2 && w.numVertices() > 3) {
                const int K = (int)c.g.integer(2, std::min(12L, (long)w.numVertices() - 1));
                const int times = (int)c.g.integer(1, 6);
                // In any of the sparse formats
                static const char *formats[] = { "csc_matrix", "csr_matrix", "coo_matrix" };
                const py::object in = py::module_::import("scipy.sparse").attr(formats[c.g.pick(3)])(o.value);
                const bool name = c.g.chance(0.5);
                const Outcome h = pyTry([&] {
                    return name ? tiny().attr("get_heat_kernel_signatures")(in, py::arg("K") = K, py::arg("n_times") = times)
                                : tiny().attr("get_heat_kernel_signatures")(in, K, times);
                });
                EigenMatrix want;
                outcome(c, h, cppFails([&] { want = tm::getHeatKernelSignatures(L, K, times); }), "get_heat_kernel_signatures");
                if (!h.failed) sameMatrix(c, h.value, want, "get_heat_kernel_signatures", 1e-9);
                c.label("heat kernel");
            }
            break;
        }
        case 3: {
            std::vector<Param> r = { param(c, "smooth_tensors", b, false, c.g.chance(0.7)) };
            const Outcome o = call(c, "get_principal_curvatures", lead, r);
            decltype(tm::getPrincipalCurvatures(w, b)) want;
            outcome(c, o, cppFails([&] { want = tm::getPrincipalCurvatures(w, b); }), "get_principal_curvatures");
            if (o.failed) return;
            const py::tuple t = o.value;
            c.require(t.size() == 4, "get_principal_curvatures: %zu results", t.size());
            sameMatrix(c, t[0], std::get<0>(want), "maximum curvature", 1e-12);
            sameMatrix(c, t[1], std::get<1>(want), "minimum curvature", 1e-12);
            sameMatrix(c, t[2], std::get<2>(want), "maximum direction", 1e-12);
            sameMatrix(c, t[3], std::get<3>(want), "minimum direction", 1e-12);
            break;
        }
        case 4: {
            std::vector<Param> r = { param(c, "smooth_tensors", b, false, c.g.chance(0.7)) };
            const Outcome o = call(c, "get_principal_curvatures_with_derivatives", lead, r);
            decltype(tm::getPrincipalCurvaturesWithDerivatives(w, b)) want;
            outcome(c, o, cppFails([&] { want = tm::getPrincipalCurvaturesWithDerivatives(w, b); }), "get_principal_curvatures_with_derivatives");
            if (o.failed) return;
            const py::tuple t = o.value;
            c.require(t.size() == 6, "get_principal_curvatures_with_derivatives: %zu results", t.size());
            sameMatrix(c, t[0], std::get<0>(want), "maximum curvature", 1e-12);
            sameMatrix(c, t[1], std::get<1>(want), "minimum curvature", 1e-12);
            sameMatrix(c, t[2], std::get<2>(want), "maximum derivative", 1e-12);
            sameMatrix(c, t[3], std::get<3>(want), "minimum derivative", 1e-12);
            sameMatrix(c, t[4], std::get<4>(want), "maximum direction", 1e-12);
            sameMatrix(c, t[5], std::get<5>(want), "minimum direction", 1e-12);
            break;
        }
        case 5: {
            std::vector<Param> r = { param(c, "smooth_tensors", b, false, c.g.chance(0.7)) };
            const Outcome o = call(c, "get_feature_line_field", lead, r);
            EigenMatrix want;
            outcome(c, o, cppFails([&] { want = tm::getFeatureLineField(w, b); }), "get_feature_line_field");
            if (o.failed) return;
            sameMatrix(c, o.value, want, "get_feature_line_field", 1e-9);
            break;
        }
        default: {
            std::vector<Param> r = { param(c, "smooth_tensors", b, false, c.g.chance(0.7)) };
            const Outcome o = call(c, "get_feature_line_field_with_flags", lead, r);
            decltype(tm::getFeatureLineFieldWithFlags(w, b)) want;
            outcome(c, o, cppFails([&] { want = tm::getFeatureLineFieldWithFlags(w, b); }), "get_feature_line_field_with_flags");
            if (o.failed) return;
            const py::tuple t = o.value;
            c.require(t.size() == 2, "get_feature_line_field_with_flags: %zu results", t.size());
            sameMatrix(c, t[0], std::get<0>(want), "feature line field", 1e-9);
            sameMatrix(c, t[1], std::get<1>(want), "feature line flags", 0);
            break;
        }
    }
    sameMesh(c, m, w, "after measuring", 0);
}

static V3 vec(const py::object &a) {
    const std::vector<double> v = a.cast<std::vector<double>>();
    if (v.size() != 3) throw pbt::Failure("a position does not have three components");
    return V3(v[0], v[1], v[2]);
}
static py::object row(Case &c, const V3 &p) {
    switch (c.g.pick(3)) {
        case 0: return py::make_tuple(p.x, p.y, p.z);
        case 1: return numpy().attr("array")(py::make_tuple(p.x, p.y, p.z));
        default: {
            py::list l;
            l.append(p.x), l.append(p.y), l.append(p.z);
            return l;
        }
    }
}

static void elements(Case &c, py::object m, tm::Mesh &w) {
    c.label("elements");
    const int n = (int)w.numVertices(), nf = (int)w.numFaces();
    for (int k = 0; k < 4; k++) {
        const int i = (int)c.g.pick((size_t)n);
        tm::Vertex *v = w.vertex(i);
        const py::object x = m.attr("vertex")(i);
        switch (c.g.pick(5)) {
            case 0: {
                v->lock();
                x.attr("lock")();
                break;
            }
            case 1: {
                v->unlock();
                x.attr("unlock")();
                break;
            }
            case 2: {
                const V3 p(c.g.real(-3, 3), c.g.real(-3, 3), c.g.real(-3, 3));
                const py::object before = x.attr("pos")();
                const V3 was = vec(before);
                v->setPos(tv(p));
                x.attr("set_pos")(row(c, p));
                c.require(vec(before) == was, "an array handed out before changed with the vertex");
                c.require(vec(x.attr("pos")()) == p, "the position set is not the one read");
                break;
            }
            case 3: {
                // What is handed out is a copy
                const py::object a = x.attr("pos")();
                a.attr("__setitem__")(0, 1e9);
                break;
            }
            default: break;
        }
        const py::object again = m.attr("vertex")(i);
        c.require(vec(again.attr("pos")()) == rv(v->pos()), "vertex %d: position differs from the library", i);
        // Vertices whose surroundings cancel have no normal and no curvature
        V3 normal;
        double K = 0, H = 0;
        Outcome q = pyTry([&] { return again.attr("normal")(); });
        outcome(c, q, cppFails([&] { normal = rv(v->normal()); }), "normal");
        if (!q.failed) {
            const V3 a = vec(q.value);
            c.require(close(a.x, normal.x, 0) && close(a.y, normal.y, 0) && close(a.z, normal.z, 0), "vertex %d: normal differs from the library", i);
        }
        q = pyTry([&] { return again.attr("K")(); });
        outcome(c, q, cppFails([&] { K = v->K(); }), "Gaussian curvature");
        c.require(q.failed || close(q.value.cast<double>(), K, 0), "vertex %d: Gaussian curvature differs from the library", i);
        q = pyTry([&] { return again.attr("H")(); });
        outcome(c, q, cppFails([&] { H = v->H(); }), "mean curvature");
        c.require(q.failed || close(q.value.cast<double>(), H, 0), "vertex %d: mean curvature differs from the library", i);
        c.require(again.attr("is_boundary")().cast<bool>() == v->isBoundary(), "vertex %d: boundary answer differs from the library", i);
        c.require(again.attr("is_locked")().cast<bool>() == v->isLocked(), "vertex %d: lock differs from the library", i);
        const int f = (int)c.g.pick((size_t)nf);
        const py::object y = m.attr("face")(f);
        tm::Face *g = w.face(f);
        c.require(close(y.attr("area")().cast<double>(), g->area(), 0), "face %d: area differs from the library", f);
        c.require(y.attr("is_boundary")().cast<bool>() == g->isBoundary() && y.attr("is_hole")().cast<bool>() == g->isHole() &&
                      y.attr("is_locked")().cast<bool>() == g->isLocked(),
                  "face %d: answers differ from the library", f);
    }
    // Elements out of range
    const int bad = c.g.chance(0.5) ? -1 - (int)c.g.pick(3) : (int)c.g.pick(3);
    const Outcome o = pyTry([&] { return m.attr("vertex")(bad < 0 ? bad : n + bad); });
    c.require(o.failed && o.type == "RuntimeError", "vertex %d of %d was handed out, or raises %s", bad < 0 ? bad : n + bad, n, o.type.c_str());
    const Outcome q = pyTry([&] { return m.attr("face")(bad < 0 ? bad : nf + bad); });
    c.require(q.failed && q.type == "RuntimeError", "face %d of %d was handed out, or raises %s", bad < 0 ? bad : nf + bad, nf, q.type.c_str());
    sameMesh(c, m, w, "after reading elements", 0);
}

static void lifetime(Case &c, py::object m, tm::Mesh &w) {
    c.label("lifetime");
    const int what = (int)c.g.pick(3);
    if (what == 2) {
        // A clone has a life of its own
        py::object k = m.attr("clone")();
        const tm::Mesh want = w.clone();
        const V3 p(c.g.real(-3, 3), c.g.real(-3, 3), c.g.real(-3, 3));
        m.attr("vertex")(0).attr("set_pos")(row(c, p));
        m = py::none();
        sameMesh(c, k, want, "clone", 0);
        return;
    }
    const int i = (int)c.g.pick(what ? w.numFaces() : w.numVertices());
    c.describe("%s %d kept longer than the mesh", what ? "face" : "vertex", i);
    py::object e = m.attr(what ? "face" : "vertex")(i);
    m = py::none();
    py::module_::import("gc").attr("collect")();
    if (what) {
        c.require(close(e.attr("area")().cast<double>(), w.face(i)->area(), 0), "the area of a face kept longer than its mesh changed");
    } else {
        c.require(vec(e.attr("pos")()) == rv(w.vertex(i)->pos()), "the position of a vertex kept longer than its mesh changed");
        c.require(e.attr("is_boundary")().cast<bool>() == w.vertex(i)->isBoundary(), "the boundary answer of a vertex kept longer than its mesh changed");
    }
}

static void refused(Case &c, const Surf &s, py::object m) {
    c.label("refused");
    Outcome o;
    const char *type = "TypeError";
    switch (c.g.pick(9)) {
        case 0: {  // positions of other length
            py::list rows;
            const int bad = (int)c.g.pick(s.P.size()), len = (int)c.g.pick(4) + (c.g.chance(0.5) ? 4 : 0);
            for (int i = 0; i < (int)s.P.size(); i++) {
                py::list r;
                const int l = i == bad ? (len == 3 ? 4 : len) : 3;
                for (int k = 0; k < l; k++) r.append(k < 3 ? s.P[(size_t)i][k] : 0.0);
                rows.append(r);
            }
            o = pyTry([&] { return tiny().attr("Mesh")(rows, indexList(c, s)); });
            break;
        }
        case 1: {  // indices that are none
            py::list l;
            for (const Tri &t : s.F)
                for (int k = 0; k < 3; k++) l.append(t[(size_t)k]);
            const size_t at = c.g.pick(s.F.size() * 3);
            switch (c.g.pick(4)) {
                case 0: l[at] = py::int_(-1); break;
                case 1: l[at] = py::str("0"); break;
                case 2: l[at] = py::none(); break;
                default: l[at] = py::float_(0.5);
            }
            o = pyTry([&] { return tiny().attr("Mesh")(rowsOf(s), l); });
            break;
        }
        case 2: {  // beyond the end
            std::vector<uint32_t> idx = indicesOf(s);
            idx[c.g.pick(idx.size())] = (uint32_t)s.P.size() + (uint32_t)c.g.pick(3);
            o = pyTry([&] { return tiny().attr("Mesh")(rowsOf(s), idx); });
            type = "RuntimeError";
            break;
        }
        case 3: {
            o = pyTry([&] { return m.attr("vertex")(0).attr("set_pos")(c.g.chance(0.5) ? py::object(py::make_tuple(1.0, 2.0)) : py::object(py::str("abc"))); });
            if (o.failed && o.type == "ValueError") type = "ValueError";
            break;
        }
        case 4: {
            o = pyTry([&] { return tiny().attr("smooth_taubin")(py::none()); });
            break;
        }
        case 5: {
            o = pyTry([&] { return tiny().attr(c.g.chance(0.5) ? "hole_fill_min_dihedral" : "hole_fill_advancing_front")(m, py::none()); });
            break;
        }
        case 6: {
            const char *ext[] = { "obj", "ply", "xyz" };
            const std::string path = std::string("build/no-such-folder/mesh.") + ext[c.g.pick(3)];
            const bool save = c.g.chance(0.5);
            o = pyTry([&] { return save ? m.attr("save")(path) : tiny().attr("Mesh")(path); });
            type = "RuntimeError";
            break;
        }
        case 7: {
            o = pyTry([&] { return tiny().attr("get_mesh_laplacian")(m, c.g.chance(0.5) ? py::object(py::str("COTANGENT")) : py::object(py::none())); });
            break;
        }
        default: {
            o = pyTry([&] { return tiny().attr("simplify_qem")(m); });
            break;
        }
    }
    c.require(o.failed, "a call with an unusable argument succeeded");
    c.require(o.type == type, "a call with an unusable argument raises %s instead of %s: %s", o.type.c_str(), type, o.why.c_str());
}

static void files(Case &c, py::object m, tm::Mesh &w) {
    c.label("files");
    const char *ext = c.g.chance(0.5) ? ".obj" : ".ply";
    const ScratchFile a("P29", ext);
    Outcome o = pyTry([&] { return m.attr("save")(a.path); });
    c.require(!o.failed, "saving failed: %s", o.why.c_str());
    // Numbers that are none may have either sign
    const auto plain = [](std::string t) {
        for (size_t at; (at = t.find("-nan")) != std::string::npos;) t.erase(at, 1);
        return t;
    };
    const std::string text = plain(a.read());
    w.save(a.path);
    c.require(text == plain(a.read()), "the file saved differs from the library's");
    const bool fresh = c.g.chance(0.5);
    o = pyTry([&]() -> py::object {
        if (fresh) return tiny().attr("Mesh")(a.path);
        py::object e = tiny().attr("Mesh")();
        e.attr("load")(a.path);
        return e;
    });
    tm::Mesh back;
    outcome(c, o, cppFails([&] { back.load(a.path); }), "load");
    if (!o.failed) sameMesh(c, o.value, back, "loaded", 0);
}

static void prop(Case &c) {
    startPython();
    Options o;
    o.maxFaces = c.thorough ? 160 : 80;
    const int kind = (int)c.g.weighted({ 8, 3, 5, 3, 2, 2, 2, 1 });
    if (kind == 1) o.forceOpen = true;
    if (kind == 2 && c.g.chance(0.7)) o.closedOnly = true;
    Surf s = randomSurface(c, o).s;
    const py::object pos = positions(c, s), idx = indexList(c, s);
    tm::Mesh w = toMesh(s);
    Outcome made = pyTry([&] { return tiny().attr("Mesh")(pos, idx); });
    c.require(!made.failed, "building a mesh failed: %s", made.why.c_str());
    py::object m = std::move(made.value);
    sameMesh(c, m, w, "built", 0);
    s = viewOf(w).s;
    c.nontrivial = s.F.size() >= 4;
    switch (kind) {
        case 0: filters(c, std::move(m), w, 1e-9 * (1e-3 + sizeOf(s))); break;
        case 1: holes(c, std::move(m), w, s); break;
        case 2: measures(c, std::move(m), w, s); break;
        case 3: elements(c, std::move(m), w); break;
        case 4: lifetime(c, std::move(m), w); break;
        case 5: refused(c, s, std::move(m)); break;
        case 6: files(c, std::move(m), w); break;
        default: {
            // What the mesh tells about itself
            const std::vector<py::object> v = m.attr("get_vertices")().cast<std::vector<py::object>>();
            c.require(v.size() == s.P.size(), "%zu vertices instead of %zu", v.size(), s.P.size());
            for (size_t i = 0; i < v.size(); i++) c.require(vec(v[i]) == s.P[i], "vertex %zu: position differs from the library", i);
            c.require(m.attr("get_vertex_indices")().cast<std::vector<uint32_t>>() == w.getVertexIndices(), "indices differ from the library");
            c.require(m.attr("num_vertices")().cast<size_t>() == w.numVertices() && m.attr("num_faces")().cast<size_t>() == w.numFaces() &&
                          m.attr("num_edges")().cast<size_t>() == w.numEdges() && m.attr("num_halfedges")().cast<size_t>() == w.numHalfedges(),
                      "counts differ from the library");
            c.require(m.attr("verify")().cast<bool>() == w.verify(), "the self-test differs from the library");
        }
    }
}

int main(int argc, char **argv) {
    setenv("PYTHONMALLOC", "malloc", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    if (getenv("PBT_REEXEC")) startPython();
    pbt::Config cfg;
    cfg.id = "P29";
    cfg.rule = "random manifolds passed to the Python module as lists, tuples and arrays; one function with arguments by position, by name or left "
               "out, compared with the library call; non-trivial: at least 4 faces";
    cfg.prop = prop;
    cfg.quickCases = 20000;
    cfg.thoroughCases = 200000;
    cfg.assumptions = { "pybind11 and Python of the sandbox; stand-ins for the two file libraries" };
    return pbt::run(cfg, argc, argv);
}
