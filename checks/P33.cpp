// P33: bounding boxes are the smallest ones and answer queries; singular value decompositions multiply back.
#include <Eigen/SVD>

#include "core/bounds.h"
#include "bridge.h"
using namespace ref;

template <typename F, int D>
struct Box {
    bool empty = true;
    F lo[4], hi[4];
    void add(const Vec<F, D> &p) {
        for (int i = 0; i < D; i++) {
            lo[i] = empty ? p[i] : std::min(lo[i], p[i]);
            hi[i] = empty ? p[i] : std::max(hi[i], p[i]);
        }
        empty = false;
    }
};

template <typename F, int D>
static void equal(Case &c, const tm::Bounds<F, D> &b, const Box<F, D> &w, const char *what) {
    for (int i = 0; i < D; i++) {
        c.require(b.posMin()[i] == w.lo[i], "%s: least coordinate %d is %.9g instead of %.9g", what, i, (double)b.posMin()[i], (double)w.lo[i]);
        c.require(b.posMax()[i] == w.hi[i], "%s: greatest coordinate %d is %.9g instead of %.9g", what, i, (double)b.posMax()[i], (double)w.hi[i]);
    }
}

template <int D>
struct Area {
    template <typename F>
    static void check(Case &, const tm::Bounds<F, D> &, const Box<F, D> &) {}
};
template <>
struct Area<3> {
    template <typename F>
    static void check(Case &c, const tm::Bounds<F, 3> &b, const Box<F, 3> &w) {
        const double x = (double)w.hi[0] - w.lo[0], y = (double)w.hi[1] - w.lo[1], z = (double)w.hi[2] - w.lo[2];
        const double want = 2 * (x * y + y * z + z * x);
        // Rounding of the coordinates themselves may be all there is of a side
        double big = 0;
        for (int i = 0; i < 3; i++) big = std::max({ big, std::fabs((double)w.lo[i]), std::fabs((double)w.hi[i]) });
        const double eps = 16 * (double)std::numeric_limits<F>::epsilon();
        c.require(std::fabs(b.area() - want) <= eps * (want + big * (x + y + z)), "surface area %.9g instead of %.9g", b.area(), want);
    }
};

template <typename F, int D>
static void boxes(Case &c) {
    typedef Vec<F, D> V;
    typedef tm::Bounds<F, D> B;
    Gen &g = c.g;
    c.label(pbt::fmt("%s %d", sizeof(F) == 4 ? "float" : "double", D));
    const int style = g.pick(4);
    const double big = style == 3 ? g.logReal(1e-9, sizeof(F) == 4 ? 1e15 : 1e19) : 10;
    const auto coordinate = [&]() -> F {
        if (style == 0) return (F)g.integer(-4, 4);
        if (style == 1) return (F)g.real(-10, 10);
        if (style == 2) return (F)(100 + g.real(-1, 1));
        return (F)(big * g.real(-1, 1));
    };
    const auto point = [&] {
        V p;
        for (int i = 0; i < D; i++) p[i] = coordinate();
        return p;
    };
    // Two boxes made point by point, in two parts and joined, and by their corners
    const int n = (int)g.integer(1, 8), m = (int)g.integer(1, 8);
    B a, b, all;
    Box<F, D> wa, wb, wall;
    for (int i = 0; i < n + m; i++) {
        const V p = point();
        const V before = p;
        (i < n ? a : b).merge(p);
        (i < n ? wa : wb).add(p);
        all.merge(p);
        wall.add(p);
        c.require(p == before, "the point merged changed");
    }
    c.describe("%d and %d points of style %d", n, m, style);
    equal(c, a, wa, "box of points");
    equal(c, b, wb, "box of points");
    equal(c, all, wall, "box of all points");
    equal(c, B::merge(a, b), wall, "two boxes joined");
    equal(c, B::merge(b, a), wall, "two boxes joined the other way");
    equal(c, B::merge(a, a), wa, "a box joined with itself");
    equal(c, B::merge(a, B()), wa, "a box joined with an empty one");
    equal(c, B::merge(B(), a), wa, "an empty box joined with another");
    equal(c, a, wa, "a box that was joined to another");
    V lo, hi;
    for (int i = 0; i < D; i++) {
        lo[i] = wall.lo[i];
        hi[i] = wall.hi[i];
    }
    B corners(lo, hi);
    equal(c, corners, wall, "box of two corners");

    double widest = 0;
    for (int i = 0; i < D; i++) widest = std::max(widest, (double)(F)(wall.hi[i] - wall.lo[i]));
    const int e = all.maxExtent();
    c.require(e >= 0 && e < D && (double)(F)(wall.hi[e] - wall.lo[e]) == widest, "axis %d is not the one of the greatest extent", e);
    Area<D>::check(c, all, wall);

    for (int k = 0; k < 8; k++) {
        V q;
        const int how = g.weighted({ 3, 2, 2, 1 });
        for (int i = 0; i < D; i++) {
            const int at = g.pick(4);
            if (how == 0) q[i] = coordinate();
            else if (how == 1) q[i] = at == 0 ? wall.lo[i] : at == 1 ? wall.hi[i] : (F)(wall.lo[i] + (wall.hi[i] - wall.lo[i]) * g.real(0, 1));
            else if (how == 2) q[i] = at == 0 ? std::nextafter(wall.lo[i], (F)-INFINITY) : at == 1 ? std::nextafter(wall.hi[i], (F)INFINITY) : at == 2 ? wall.lo[i] : wall.hi[i];
            else q[i] = (F)(coordinate() * 10);
        }
        bool in = true;
        long double d2 = 0;
        for (int i = 0; i < D; i++) {
            in = in && q[i] >= wall.lo[i] && q[i] <= wall.hi[i];
            const long double gap = q[i] < wall.lo[i] ? (long double)wall.lo[i] - q[i] : q[i] > wall.hi[i] ? (long double)q[i] - wall.hi[i] : 0;
            d2 += gap * gap;
        }
        c.label(in ? "inside" : "outside");
        c.require(all.inside(q) == in, "a point %s the box is taken for one %s", in ? "inside" : "outside", in ? "outside" : "inside");
        const double want = (double)std::sqrt(d2), got = all.distance(q);
        c.require(std::fabs(got - want) <= 8 * (double)std::numeric_limits<F>::epsilon() * want + 1e-150, "distance %.9g to the box instead of %.9g", got, want);
    }
    equal(c, all, wall, "box after the queries");
    c.nontrivial = widest > 0;
}

static void singular(Case &c) {
    Gen &g = c.g;
    const int rows = (int)g.integer(1, 7), cols = (int)g.integer(1, 7), rank = (int)g.integer(0, std::min(rows, cols));
    const double scale = g.logReal(1e-6, 1e6);
    EigenMatrix A = EigenMatrix::Zero(rows, cols);
    for (int k = 0; k < rank; k++) {
        EigenVector x(rows), y(cols);
        for (int i = 0; i < rows; i++) x(i) = g.chance(0.2) ? 0 : g.real(-1, 1);
        for (int i = 0; i < cols; i++) y(i) = g.chance(0.2) ? 0 : g.real(-1, 1);
        A += scale * x * y.transpose();
    }
    c.label("singular values");
    c.describe("%d by %d matrix of rank %d at most", rows, cols, rank);
    const EigenMatrix was = A;
    // What was there before is of no matter
    EigenMatrix U(g.pick(3), 2), W(1, g.pick(3));
    EigenVector s(g.pick(4));
    U.setConstant(7);
    W.setConstant(7);
    s.setConstant(7);
    eigenSVD(A, U, s, W);
    c.require(A == was, "the matrix given changed");
    c.require(U.rows() == rows && U.cols() == rows && W.rows() == cols && W.cols() == cols && s.size() == std::min(rows, cols), "sizes of the factors");
    const double norm = 1e-300 + A.norm();
    c.require((U.transpose() * U - EigenMatrix::Identity(rows, rows)).norm() < 1e-12 && (W.transpose() * W - EigenMatrix::Identity(cols, cols)).norm() < 1e-12,
              "the outer factors are not orthogonal");
    EigenMatrix S = EigenMatrix::Zero(rows, cols);
    for (int i = 0; i < s.size(); i++) {
        S(i, i) = s(i);
        c.require(s(i) >= 0 && (i == 0 || s(i) <= s(i - 1)), "the singular values do not decrease");
        c.require(i < rank || s(i) <= 1e-12 * norm, "singular value %d of a matrix of rank %d is %.3g", i, rank, s(i));
    }
    c.require((U * S * W.transpose() - A).norm() <= 1e-12 * norm, "the factors do not multiply back to the matrix");
    c.nontrivial = rank > 0;
}

static void prop(Case &c) {
    switch (c.g.weighted({ 3, 2, 1, 1, 2 })) {
        case 0: return boxes<double, 3>(c);
        case 1: return boxes<double, 2>(c);
        case 2: return boxes<float, 3>(c);
        case 3: return boxes<float, 2>(c);
        default: return singular(c);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P33";
    cfg.rule = "boxes of random points of two or three float or double coordinates, joined and queried; random matrices of every rank decomposed; "
               "non-trivial: a box of some extent, a matrix other than zero";
    cfg.prop = prop;
    cfg.quickCases = 2000000;
    cfg.thoroughCases = 30000000;
    cfg.assumptions = { "coordinates below 1e19 in magnitude" };
    return pbt::run(cfg, argc, argv);
}
