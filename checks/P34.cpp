// P34: the viewer of the Python examples draws every triangle where the camera sees it, the farthest first.
#include <fcntl.h>
#include <unistd.h>

#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>

#define ASAN_EXTRA ":quarantine_size_mb=1"
#include "bridge.h"
using namespace ref;
namespace py = pybind11;

extern "C" PyObject *PyInit_tinymesh();

// Stand-in for the plotting library: takes down what it is asked to draw.
static const char *const RECORDER = R"(
import sys, types

asked = []
log = []

class Anything(object):
    def __init__(self, name):
        self._name = name
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything(self._name + '.' + name)
    def __call__(self, *args, **kwargs):
        asked.append((self._name.split('.')[-1], args, kwargs))
        return Anything('result')
    def __getitem__(self, key):
        return Anything('item')
    def __iter__(self):
        return iter((Anything('first'), Anything('second')))
    def __enter__(self):
        return self
    def __exit__(self, *args):
        return False

plt = Anything('plt')

class PolyCollection(object):
    def __init__(self, verts, *args, **kwargs):
        self.verts, self.kwargs = verts, kwargs
        log.append(self)

m = types.ModuleType('matplotlib')
p = types.ModuleType('matplotlib.pyplot')
p.__getattr__ = lambda name: getattr(plt, name)
q = types.ModuleType('matplotlib.collections')
q.PolyCollection = PolyCollection
m.pyplot, m.collections = p, q
sys.modules.update({'matplotlib': m, 'matplotlib.pyplot': p, 'matplotlib.collections': q})

import importlib.util
import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

def load(path):
    spec = importlib.util.spec_from_file_location('viewer', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod

def reset():
    del asked[:]
    del log[:]

def calls(suffix):
    return [(c[1], c[2]) for c in asked if c[0] == suffix]

def colours(c, n):
    a = c.kwargs.get('facecolor', c.kwargs.get('facecolors', c.kwargs.get('fc')))
    return np.asarray(a, dtype=float)

def edges(c):
    return c.kwargs.get('edgecolor', c.kwargs.get('edgecolors', c.kwargs.get('ec', 'face')))

def follows_faces(c):
    e = edges(c)
    if isinstance(e, str):
        return e == 'face'
    a, b = np.asarray(e, dtype=float), colours(c, 0)
    return a.shape == b.shape and np.allclose(a, b, equal_nan=True)

def added(c):
    return any(len(a) and a[0] is c for a, _ in calls('add_collection'))
)";

static py::object *scope;
static py::object *viewerModule;

static void startPython() {
    PyImport_AppendInittab("tinymesh", &PyInit_tinymesh);
    PyConfig config;
    PyConfig_InitPythonConfig(&config);
    config.install_signal_handlers = 0;
    config.write_bytecode = 0;
    // The interpreter that has NumPy
    PyConfig_SetBytesString(&config, &config.executable, "/opt/veriftools/pyvenv/bin/python");
    const PyStatus st = Py_InitializeFromConfig(&config);
    PyConfig_Clear(&config);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "Python does not start: %s\n", st.err_msg);
        exit(3);
    }
    try {
        py::dict d;
        d["__builtins__"] = py::module_::import("builtins");
        py::exec(RECORDER, d);
        scope = new py::object(d);
        const char *repo = getenv("TINYMESH_REPO");
        viewerModule = new py::object(d["load"](std::string(repo ? repo : "/repo") + "/examples/python/viewer.py"));
    } catch (py::error_already_set &e) {
        fprintf(stderr, "%s\n", e.what());
        exit(3);
    }
}
static py::object get(const char *name) { return (*scope)[name]; }

// 4x4 matrices
struct M4 {
    double a[4][4] = { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } };
};
static M4 operator*(const M4 &x, const M4 &y) {
    M4 r;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) {
            r.a[i][j] = 0;
            for (int k = 0; k < 4; k++) r.a[i][j] += x.a[i][k] * y.a[k][j];
        }
    return r;
}
static std::array<double, 4> apply(const M4 &m, const V3 &p) {
    std::array<double, 4> r;
    for (int i = 0; i < 4; i++) r[(size_t)i] = m.a[i][0] * p.x + m.a[i][1] * p.y + m.a[i][2] * p.z + m.a[i][3];
    return r;
}
static V3 xyz(const std::array<double, 4> &v) { return V3(v[0], v[1], v[2]); }
// The linear map given by the images of the axes
static M4 columns(const V3 &x, const V3 &y, const V3 &z) {
    M4 m;
    const V3 *c[3] = { &x, &y, &z };
    for (int j = 0; j < 3; j++) {
        m.a[0][j] = c[j]->x;
        m.a[1][j] = c[j]->y;
        m.a[2][j] = c[j]->z;
    }
    return m;
}
static V3 turn(const V3 &p, const V3 &axis, double rad) {
    return p * std::cos(rad) + cross(axis, p) * std::sin(rad) + axis * (dot(axis, p) * (1 - std::cos(rad)));
}
static V3 direction(Gen &g) {
    for (;;) {
        const V3 d(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
        if (norm(d) > 0.1) return unit(d);
    }
}
// Perspective map of the frustum with the given near rectangle, by what it does to a point
static std::array<double, 3> seen(const V3 &p, double l, double r, double b, double t, double n, double f) {
    const double s = n / -p.z;
    const double x = p.x * s, y = p.y * s;
    const double depth = -p.z;
    return { (2 * x - (r + l)) / (r - l), (2 * y - (t + b)) / (t - b), (f + n) / (f - n) - 2 * f * n / ((f - n) * depth) };
}

static void frustums(Case &c) {
    c.label("frustum");
    if (!py::hasattr(*viewerModule, "frustum")) throw Discard();
    Gen &g = c.g;
    const double l = g.real(-3, 1), r = l + g.real(0.1, 4), half = g.real(0.05, 2), b = g.chance(0.8) ? -half : g.real(-3, 1), t = b < -half || b > -half ? b + g.real(0.1, 4) : half, n = g.real(0.05, 3), f = n + g.real(0.1, 50);
    c.describe("frustum %g %g %g %g %g %g", l, r, b, t, n, f);
    const auto M = viewerModule->attr("frustum")(l, r, b, t, n, f).cast<py::array_t<double>>();
    c.require(M.ndim() == 2 && M.shape(0) == 4 && M.shape(1) == 4, "the frustum is not a 4 by 4 matrix");
    M4 m;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) m.a[i][j] = M.at(i, j);
    bool misplaced = false;
    for (int k = 0; k < 6; k++) {
        const double z = n + (f - n) * (k == 0 ? 0 : k == 1 ? 1 : g.real(0, 1));
        const V3 p(z / n * g.real(l, r), z / n * g.real(b, t), -z);
        const std::array<double, 4> h = apply(m, p);
        c.require(std::fabs(h[3]) > 0, "a point in front is mapped to infinity");
        const std::array<double, 3> want = seen(p, l, r, b, t, n, f);
        // Known: the vertical shift goes to the depth
        const double shift = (t + b) / (t - b), tol = 1e-8 * (1 + f / n);
        const std::array<double, 3> shifted = { want[0], want[1] + shift, want[2] + shift * p.y / -p.z };
        bool right = true, wrong = true;
        size_t off = 0;
        for (size_t i = 0; i < 3; i++) {
            const double got = h[i] / h[3];
            if (!(std::fabs(got - want[i]) < tol)) right = false, off = i;
            wrong = wrong && std::fabs(got - shifted[i]) < tol * (1 + std::fabs(shift) * (1 + std::fabs(p.y / p.z)));
        }
        c.require(right || wrong, "coordinate %zu of a point is seen at %.9g instead of %.9g", off, h[off] / h[3], want[off]);
        misplaced = misplaced || !right;
    }
    if (misplaced) c.known("viewer-frustum", "the vertical shift of a frustum goes to the depth");
    c.nontrivial = l + r != 0;
}

static void drawing(Case &c) {
    Gen &g = c.g;
    Options opt;
    Surf s = randomSurface(c, opt).s;
    if (s.F.empty() || s.F.size() > 200) throw Discard();
    const double size = s.diameter();
    if (!(size > 1e-6)) throw Discard();
    V3 mid(0, 0, 0);
    for (const V3 &p : s.P) mid = mid + p * (1.0 / (double)s.P.size());

    const bool whole = g.chance(0.8);
    const int width = whole ? 100 * (int)g.integer(1, 15) : (int)g.integer(40, 1500), height = whole ? 100 * (int)g.integer(1, 15) : (int)g.integer(40, 1500);
    const int dpi = g.chance(0.8) ? 100 : (int)g.integer(30, 300);
    std::string known;  // which of the recorded defects the drawing shows, after all else has been judged
    py::object viewer = dpi == 100 && g.chance(0.5) ? viewerModule->attr("Viewer")(width, height) : viewerModule->attr("Viewer")(width, height, dpi);
    c.require(std::fabs(viewer.attr("aspect").cast<double>() - (double)width / height) < 1e-12, "aspect of the viewer");

    // Model, then camera, then projection; as in OpenGL a later call acts on the points before the earlier ones
    M4 model;
    bool squeezed = false;
    if (g.chance(0.2)) {
        viewer.attr("translate")(1.0, 2.0, 3.0);
        viewer.attr("lookat")(1.0, 2.0, 4.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0);
        viewer.attr("perspective")(30.0, 1.0, 1.0, 5.0);
        viewer.attr("set_identity")();
        c.label("reset");
    }
    const int steps = (int)g.integer(0, 4);
    for (int k = 0; k < steps; k++) {
        const int what = g.pick(3);
        if (what == 0) {
            const V3 d = direction(g) * (size * g.real(0, 1));
            viewer.attr("translate")(d.x, d.y, d.z);
            M4 m;
            m.a[0][3] = d.x;
            m.a[1][3] = d.y;
            m.a[2][3] = d.z;
            model = model * m;
            c.describe("translate ");
        } else if (what == 1) {
            const double deg = g.real(-360, 360);
            const V3 w = g.chance(0.3) ? V3(0, 0, 1) : direction(g);
            viewer.attr("rotate")(deg, w.x, w.y, w.z);
            const double rad = deg * M_PI / 180;
            model = model * columns(turn(V3(1, 0, 0), w, rad), turn(V3(0, 1, 0), w, rad), turn(V3(0, 0, 1), w, rad));
            c.describe("rotate ");
        } else {
            const bool uniform = g.chance(0.7);
            const double x = g.real(0.3, 2), y = uniform ? x : g.real(0.3, 2), z = uniform ? x : g.real(0.3, 2);
            viewer.attr("scale")(x, y, z);
            model = model * columns(V3(x, 0, 0), V3(0, y, 0), V3(0, 0, z));
            squeezed = squeezed || !uniform;
            c.describe("scale ");
        }
    }
    if (squeezed) c.label("axes scaled differently");
    // A camera that has everything in front of it
    const V3 centre = xyz(apply(model, mid));
    double reach = 0;
    for (const V3 &p : s.P) reach = std::max(reach, norm(xyz(apply(model, p)) - centre));
    const V3 at = centre + direction(g) * (reach * g.real(0, 0.3));
    const V3 eye = at + direction(g) * (reach * g.real(2, 6));
    V3 up = direction(g);
    if (norm(cross(up, unit(eye - at))) < 0.2) throw Discard();
    const V3 z = unit(eye - at), x = unit(cross(up, z)), y = cross(z, x);
    viewer.attr("lookat")(eye.x, eye.y, eye.z, at.x, at.y, at.z, up.x, up.y, up.z);
    const double fovy = g.real(10, 120), n = reach * g.real(0.05, 0.5), f = n + reach * g.real(1, 20);
    const double aspect = g.chance(0.5) ? (double)width / height : g.real(0.4, 3);
    viewer.attr("perspective")(fovy, aspect, n, f);
    const double h = n * std::tan(fovy * M_PI / 360), w = h * aspect;

    // What is drawn
    const bool shade = g.chance(0.6), wire = g.chance(0.4), save = g.chance(0.2), module = g.chance(0.3), coloured = g.chance(0.6);
    const std::string title = g.chance(0.3) ? "a title" : "";
    const bool single = module || g.chance(0.3);
    std::vector<Tri> F = s.F;
    std::vector<V3> P = s.P;
    py::object mesh;
    const py::object np = py::module_::import("numpy");
    if (module) {
        c.label("mesh");
        tm::Mesh built = toMesh(s);
        const auto vs = built.getVertices();
        const auto is = built.getVertexIndices();
        py::list rows;
        for (const V3 &p : s.P) rows.append(py::make_tuple(p.x, p.y, p.z));
        std::vector<uint32_t> idx;
        for (const Tri &t : s.F)
            for (int i : t) idx.push_back((uint32_t)i);
        mesh = py::module_::import("tinymesh").attr("Mesh")(rows, idx);
        P.clear();
        F.clear();
        for (const Vec3 &p : vs) P.push_back(rv(p));
        for (size_t i = 0; i < is.size(); i += 3) F.push_back({ (int)is[i], (int)is[i + 1], (int)is[i + 2] });
    }
    if (single)
        for (V3 &p : P) p = V3((float)p.x, (float)p.y, (float)p.z);
    const double fine = single ? 2e-3 : 1e-6;
    py::array_t<double> verts({ (py::ssize_t)P.size(), (py::ssize_t)3 });
    for (size_t i = 0; i < P.size(); i++) {
        verts.mutable_at((py::ssize_t)i, 0) = P[i].x;
        verts.mutable_at((py::ssize_t)i, 1) = P[i].y;
        verts.mutable_at((py::ssize_t)i, 2) = P[i].z;
    }
    py::array_t<uint32_t> faces({ (py::ssize_t)F.size(), (py::ssize_t)3 });
    for (size_t i = 0; i < F.size(); i++)
        for (size_t k = 0; k < 3; k++) faces.mutable_at((py::ssize_t)i, (py::ssize_t)k) = (uint32_t)F[i][k];
    const int channels = g.chance(0.5) ? 4 : 3;
    py::array_t<double> colours({ (py::ssize_t)P.size(), (py::ssize_t)channels });
    for (size_t i = 0; i < P.size(); i++)
        for (int k = 0; k < channels; k++) colours.mutable_at((py::ssize_t)i, k) = coloured ? g.real(0, 1) : 0.7;
    c.describe("%zu triangles, shade %d, wire %d, module %d, single %d, coloured %d", F.size(), shade, wire, module, single, coloured);

    const py::object v0 = single ? verts.attr("astype")("float32") : verts.attr("copy")();
    const py::object f0 = faces.attr("copy")(), c0 = colours.attr("copy")();
    get("reset")();
    py::dict kw;
    if (coloured) kw["colors"] = c0;
    if (wire || g.chance(0.3)) kw["wireframe"] = wire;
    if (!shade || g.chance(0.3)) kw["shade"] = shade;
    if (!title.empty()) kw["title"] = title;
    if (save) {
        kw["save"] = true;
        kw["filename"] = "drawn.png";
    }
    if (module) viewer.attr("mesh_visualization")(mesh, **kw);
    else viewer.attr("visualization")(v0, f0, **kw);
    c.require(np.attr("array_equal")(v0, verts).cast<bool>() && np.attr("array_equal")(f0, faces).cast<bool>() && np.attr("array_equal")(c0, colours).cast<bool>(),
              "drawing changed the arrays it was given");

    // Projections, depths and colours expected
    const size_t nf = F.size();
    M4 view = columns(V3(x.x, y.x, z.x), V3(x.y, y.y, z.y), V3(x.z, y.z, z.z));
    {
        M4 t;
        t.a[0][3] = -eye.x;
        t.a[1][3] = -eye.y;
        t.a[2][3] = -eye.z;
        view = view * t;
    }
    const M4 MV = view * model;
    const V3 light = unit(xyz(apply(MV, V3(0, 0, 0))) * -1.0);
    if (norm(xyz(apply(MV, V3(0, 0, 0)))) < 1e-3 * reach) throw Discard();
    std::vector<std::array<double, 3>> pos(P.size());
    for (size_t i = 0; i < P.size(); i++) {
        const V3 q = xyz(apply(MV, P[i]));
        c.require(q.z < 0, "the generator put a point behind the camera");
        pos[i] = seen(q, -w, w, -h, h, n, f);
    }
    const py::list log = get("log");
    c.require(py::len(log) == 1, "%zu collections of polygons were drawn", (size_t)py::len(log));
    const py::object poly = log[0];
    c.require(get("added")(poly).cast<bool>(), "the polygons were not added to the figure");
    const auto T = np.attr("asarray")(poly.attr("verts"), py::arg("dtype") = "float64").cast<py::array_t<double>>();
    c.require(T.ndim() == 3 && T.shape(0) == (py::ssize_t)nf && T.shape(1) == 3 && T.shape(2) == 2, "%d polygons were drawn instead of %zu triangles", (int)T.shape(0), nf);
    const auto C = get("colours")(poly, nf).cast<py::array_t<double>>();
    c.require(C.ndim() == 2 && C.shape(0) == (py::ssize_t)nf && C.shape(1) >= 3, "there is no colour for every triangle");

    // Every triangle once: match the drawn ones by their corners
    std::vector<char> used(nf, 0);
    bool leaning = false;
    std::vector<double> depth(nf);
    double extent = 0;
    for (const auto &p : pos) extent = std::max({ extent, std::fabs(p[0]), std::fabs(p[1]) });
    const double tol = 1e-9 * (1 + extent) * (1 + f / n);
    for (size_t d = 0; d < nf; d++) {
        int found = -1;
        double worstColour = 0;
        bool placed = false;
        for (size_t t = 0; t < nf && found < 0; t++) {
            if (used[t]) continue;
            bool same = true;
            for (size_t k = 0; k < 3 && same; k++) {
                const std::array<double, 3> &p = pos[(size_t)F[t][k]];
                same = std::fabs(T.at(d, k, 0) - p[0]) <= tol && std::fabs(T.at(d, k, 1) - p[1]) <= tol;
            }
            if (!same) continue;
            placed = true;
            // Its colour
            const V3 a = xyz(apply(MV, P[(size_t)F[t][0]])), b = xyz(apply(MV, P[(size_t)F[t][1]])), e = xyz(apply(MV, P[(size_t)F[t][2]]));
            const V3 normal = cross(b - a, e - a);
            const double longest = std::max({ norm(b - a), norm(e - a), norm(e - b) });
            bool ok = true;
            if (!shade || norm(normal) > 0.02 * longest * longest) {
                const double dim = shade ? std::max(0.0, dot(unit(normal), light)) : 1.0;
                // Known: normals are moved like edges, which bends them where axes are scaled differently
                const V3 origin = xyz(apply(MV, V3(0, 0, 0)));
                const V3 flat = cross(P[(size_t)F[t][1]] - P[(size_t)F[t][0]], P[(size_t)F[t][2]] - P[(size_t)F[t][0]]), bent = xyz(apply(MV, unit(flat))) - origin;
                const double lean = shade && squeezed ? std::max(0.0, dot(unit(bent), light)) : dim;
                const double sharp = std::max({ norm(P[(size_t)F[t][1]] - P[(size_t)F[t][0]]), norm(P[(size_t)F[t][2]] - P[(size_t)F[t][0]]), norm(P[(size_t)F[t][2]] - P[(size_t)F[t][1]]) });
                bool crooked = true;
                for (py::ssize_t k = 0; k < 3; k++) {
                    double mean = 0;
                    for (int i : F[t]) mean += colours.at(i, k) / 3;
                    const double off = std::fabs(C.at((py::ssize_t)d, k) - mean * dim);
                    worstColour = std::max(worstColour, off);
                    ok = ok && off <= (shade ? fine * longest * longest / norm(normal) : single ? 1e-6 : 1e-9);
                    crooked = crooked && std::fabs(C.at((py::ssize_t)d, k) - mean * lean) <= 10 * fine * sharp * sharp / norm(flat);
                }
                if (!ok && squeezed && shade && crooked) ok = leaning = true;
            }
            if (ok) found = (int)t;
        }
        c.require(placed, "polygon %zu is not where the camera sees any of the remaining triangles", d);
        c.require(found >= 0, "the colour of polygon %zu is up to %.3g off that of its triangle", d, worstColour);
        used[(size_t)found] = 1;
        depth[d] = (pos[(size_t)F[(size_t)found][0]][2] + pos[(size_t)F[(size_t)found][1]][2] + pos[(size_t)F[(size_t)found][2]][2]) / 3;
    }
    for (size_t d = 1; d < nf; d++) c.require(depth[d] <= depth[d - 1] + tol, "polygon %zu is drawn after a nearer one", d);
    // Lines
    c.require(get("follows_faces")(poly).cast<bool>() == !wire, "edges are %sdrawn in another colour than faces", wire ? "not " : "");
    // The figure
    const py::list figures = get("calls")("figure");
    for (const auto &fg : figures) {
        const py::dict k = py::cast<py::tuple>(fg)[1];
        if (!k.contains("figsize") || !k.contains("dpi")) continue;
        const auto fs = k["figsize"].cast<std::vector<double>>();
        const double res = k["dpi"].cast<double>();
        if (res == 100 && dpi != 100) known = "viewer-dpi";
        else c.require(res == dpi, "resolution %g instead of %d", res, dpi);
        if (fs[0] == (double)(int)(width / res) && fs[1] == (double)(int)(height / res) && (fs[0] * res < width || fs[1] * res < height)) known = "viewer-inches";
        else c.require(std::fabs(fs[0] * res - width) < 1e-6 * width && std::fabs(fs[1] * res - height) < 1e-6 * height, "the figure has %g by %g pixels instead of %d by %d", fs[0] * res,
                  fs[1] * res, width, height);
    }
    bool titled = false;
    for (const char *way : { "title", "set_title", "suptitle" })
        for (const auto &call : py::list(get("calls")(way))) {
            const py::tuple args = py::cast<py::tuple>(call)[0];
            titled = titled || (py::len(args) > 0 && args[0].cast<std::string>() == title);
        }
    c.require(titled == !title.empty(), "the title is %s", title.empty() ? "set although none was given" : "missing");
    int saved = 0;
    for (const auto &call : py::list(get("calls")("savefig"))) {
        const py::tuple args = py::cast<py::tuple>(call)[0];
        saved += py::len(args) > 0 && args[0].cast<std::string>() == "drawn.png" ? 1 : 100;
    }
    c.require(saved == (save ? 1 : 0), "the figure was %s", save ? "not saved under the name given" : "saved although not asked for");
    if (leaning) known = "viewer-normals";
    if (known == "viewer-dpi") c.known("viewer-dpi", "the resolution given is not used");
    if (known == "viewer-inches") c.known("viewer-inches", "the figure is cut to whole inches");
    if (known == "viewer-normals") c.known("viewer-normals", "normals are not perpendicular where axes are scaled differently");
    c.nontrivial = nf >= 4;
    if (shade) c.label("shaded");
    if (coloured) c.label("coloured");
}

static void prop(Case &c) {
    try {
        if (c.g.chance(0.15)) frustums(c);
        else drawing(c);
    } catch (py::error_already_set &e) {
        const std::string why = e.what();
        c.fail("Python raises %s", why.substr(0, 300).c_str());
    }
}

int main(int argc, char **argv) {
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    if (getenv("PBT_REEXEC")) startPython();
    pbt::Config cfg;
    cfg.id = "P34";
    cfg.rule = "random surfaces drawn by the viewer under random models, cameras, frustums and options, with the plotting library replaced by a recorder; "
               "non-trivial: at least 4 triangles, or a frustum that is not symmetric from left to right";
    cfg.prop = prop;
    cfg.quickCases = 40000;
    cfg.thoroughCases = 600000;
    cfg.assumptions = { "a recorder in place of the plotting library; everything drawn lies in front of the camera; rotation axes of length one" };
    return pbt::run(cfg, argc, argv);
}
