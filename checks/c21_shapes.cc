// C21: editing circles, and the descriptions of ellipses, preserve their geometric meaning.
#include "zoo.h"
#include <deque>
using namespace zoo;
using mc::fmt;

static LD rad(Circle const & c) { return c.getOpeningAngle().asRadians(); }
static P shapeOf(Circle const & c, std::string const & nm) {
    P s(new Sh);
    s->k = 'c'; s->name = nm; s->c = V3(c.getCenter()); s->rad = rad(c);
    s->empty = c.isEmpty(); s->full = c.isFull();
    // The squared chord length s = 4 sin^2(r/2) has an absolute error of about 1e-15, so the boundary is uncertain by
    // that much divided by ds/dr = 2 sin r, but by no more than about the square root of it.
    s->tol = 4e-15L + std::min(6e-8L, 2e-15L / std::max(fabsl(sinl(s->rad)), 1e-30L));
    return s;
}
static bool same(Circle const & a, Circle const & b) {  // bit for bit
    auto q = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    return q(a.getCenter().x(), b.getCenter().x()) && q(a.getCenter().y(), b.getCenter().y()) && q(a.getCenter().z(), b.getCenter().z()) &&
           q(a.getSquaredChordLength(), b.getSquaredChordLength()) && q(a.getOpeningAngle().asRadians(), b.getOpeningAngle().asRadians());
}
static std::string str(Circle const & c) {
    return fmt("{(%.17g,%.17g,%.17g) angle %.17g chord2 %.17g}", c.getCenter().x(), c.getCenter().y(), c.getCenter().z(), c.getOpeningAngle().asRadians(), c.getSquaredChordLength());
}

// The two stored forms of the radius agree.
static void consistent(Circle const & c, std::string const & key) {
    LD a = rad(c), s = c.getSquaredChordLength();
    bool e = !(s >= 0), f = s >= 4;
    if (c.isEmpty() != e || c.isFull() != f) mc::fail(key + " state", str(c));
    if (e) {
        if (a >= 0) mc::fail(key + " empty", "an empty circle has a non-negative opening angle: " + str(c));
        return;
    }
    if (!(a >= 0)) { mc::fail(key + " angle", str(c)); return; }
    LD want = a >= LPI ? 4 : 4 * sinl(a / 2) * sinl(a / 2);
    if (fabsl(want - s) > 3e-15L + (f ? 1e-14L : 0)) mc::fail(key + " radius", "squared chord length and opening angle disagree: " + str(c));
    LD n = norm(V3(c.getCenter()));
    if (fabsl(n - 1) > 1e-15L) mc::fail(key + " center", fmt("norm %.18Lg", n));
    double ar = c.getArea();
    if (fabsl(ar - LPI * std::min(4.0L, s)) > 1e-14L) mc::fail(key + " area", str(c));
}
// Test points of an edit: around the boundaries of all three circles, towards and away from each other's centers.
static void around(std::vector<Pt> & o, Sh const & a, V3 toward, bool full) {
    if (a.empty || a.full) return;
    V3 c = unit(a.c), t = toward - c * dot(toward, c);
    t = norm(t) > 1e-17L ? unit(t) : anyPerp(c);
    V3 e = cross(c, t);
    int N = full ? 12 : 4;
    for (int i = 0; i < N; ++i) {
        LD w = 2 * LPI * i / N;
        V3 dir = t * cosl(w) + e * sinl(w);
        for (LD d : {-1e-14L, -1e-12L, -1e-9L, -8e-9L, -3e-8L, -1e-7L, -1e-4L, 0.0L, 1e-13L, 1e-9L, 3e-8L, 1e-7L, 2e-4L})
            if (a.rad + d >= 0) addPt(o, go(c, dir, a.rad + d));
    }
    addPt(o, c); addPt(o, -c);
}
static std::vector<Pt> grid;

struct Op {
    char k;              // c clip, e expand, p clip point, q expand point, d dilate, r erode, m complement
    std::string name;
    Circle x;
    UnitVector3d u;
    double r = 0;
    Op(char kk, std::string n) : k(kk), name(n), u(UnitVector3d::Z()) {}
};
static Circle apply(Circle const & s, Op const & op, std::string const & key) {
    Circle c(s), keep(s), x(op.x);
    Circle * self = nullptr;
    Circle r;
    switch (op.k) {
        case 'c': self = &c.clipTo(x); r = keep.clippedTo(x); break;
        case 'e': self = &c.expandTo(x); r = keep.expandedTo(x); break;
        case 'p': self = &c.clipTo(op.u); r = keep.clippedTo(op.u); break;
        case 'q': self = &c.expandTo(op.u); r = keep.expandedTo(op.u); break;
        case 'd': self = &c.dilateBy(Angle(op.r)); r = keep.dilatedBy(Angle(op.r)); break;
        case 'r': self = &c.erodeBy(Angle(op.r)); r = keep.erodedBy(Angle(op.r)); break;
        case 'm': self = &c.complement(); r = keep.complemented(); break;
    }
    mc::trans();
    if (self != &c) mc::fail(key + " self", "does not return the circle itself");
    if (!same(c, r)) mc::fail(key + " forms", "the copying form gives " + str(r) + " but in place " + str(c));
    if (!same(keep, s) || !same(x, op.x)) mc::fail(key + " operand", "an operand was changed");
    return c;
}
static void judge(Circle const & C, Op const & op, Circle const & R, std::string const & key, bool full) {
    consistent(R, key);
    P sc = shapeOf(C, "C"), sr = shapeOf(R, "R"), sx;
    std::vector<Pt> pts;
    V3 other = sc->c;
    if (op.k == 'c' || op.k == 'e') { sx = shapeOf(op.x, "x"); other = sx->c; }
    if (op.k == 'p' || op.k == 'q') { sx = shapeOf(Circle(op.u), "x"); other = sx->c; }
    around(pts, *sc, other, full);
    around(pts, *sr, other, full);
    if (sx) { around(pts, *sx, sc->c, full); addPt(pts, sx->c); }
    LD rt = sr->rad > LPI / 2 ? sr->tol : 4e-15L;  // squared chord lengths are only this precise
    auto each = [&](std::vector<Pt> const & v) {
        for (auto & p : v) {
            int a = sc->cls(p.v), b = sx ? sx->cls(p.v) : 0, r = R.contains(p.u) ? 1 : -1;
            const char * bad = nullptr;
            switch (op.k) {
                case 'c': case 'p': if (a > 0 && b > 0 && r < 0) bad = "a common point is lost"; break;
                case 'e': case 'q': if (r < 0 && ((a > 0 && sc->sd(p.v) > rt) || (b > 0 && sx->sd(p.v) > rt))) bad = "a point of an operand is lost"; break;
                case 'm': if (a > 0 && r > 0) bad = "a point inside is still inside the complement"; if (a < 0 && r < 0) bad = "a point outside is not in the complement"; break;
                default: break;
            }
            int m = sr->cls(p.v);
            if (m && m != r) bad = "membership in the result does not follow its opening angle";
            mc::trace();
            if (bad) {
                mc::fail(key, fmt("%s: v=(%.17g,%.17g,%.17g) clearances %Lg, %Lg; ", bad, p.u.x(), p.u.y(), p.u.z(), sc->sd(p.v), sx ? sx->sd(p.v) : 0.0L) + str(C) + (sx ? " with " + str(op.k == 'c' || op.k == 'e' ? op.x : Circle(op.u)) : "") + " gives " + str(R));
                return;
            }
        }
    };
    each(pts);
    if (full) each(grid);
    LD a = rad(C), cc = sx ? angle(sc->c, sx->c) : 0, b = sx ? sx->rad : 0;
    switch (op.k) {
        case 'c': case 'p': {
            if (sc->empty || sx->empty) { if (!R.isEmpty()) mc::fail(key + " empty", "clipping with an empty circle is not empty"); break; }
            if (sx->full && !same(R, C)) mc::fail(key + " full", "clipping to a full circle changed the circle");
            if (sc->full && op.k == 'c' && R != op.x) mc::fail(key + " full", "clipping a full circle did not give the other one");
            if (op.k == 'p') {
                bool in = C.contains(op.u);
                if (in != !R.isEmpty() || (in && !(R == Circle(op.u)))) mc::fail(key + " point", str(R));
                break;
            }
            if (!sc->full && !sx->full) {
                if (cc > a + b + 1e-6L && !R.isEmpty()) mc::fail(key + " disjoint", "the intersection of clearly disjoint circles is " + str(R));
                if (!R.isEmpty() && rad(R) > std::min(a, b) + 1e-7L) mc::fail(key + " size", str(R));
            }
            break;
        }
        case 'e': case 'q': {
            if (sc->full && !R.isFull()) mc::fail(key + " full", "expanding a full circle");
            if (sx->full && !R.isFull()) mc::fail(key + " full", "expanding to a full circle");
            if (sx->empty && !(R == C)) mc::fail(key + " empty", "expanding to an empty circle changed the circle");
            if (sc->empty && !(R == (op.k == 'e' ? op.x : Circle(op.u)))) mc::fail(key + " empty", "expanding an empty circle did not give the operand");
            if (op.k == 'q' && !R.contains(op.u)) mc::fail(key + " point", "does not contain the point: " + str(R));
            if (!sc->empty && !sx->empty && !sc->full && !sx->full) {
                LD want = std::min(LPI, std::max(std::max(a, b), (cc + a + b) / 2));
                if (rad(R) > want + 1e-7L && !(R.isFull() && want > LPI - 1e-7L)) mc::fail(key + " minimal", fmt("opening angle %Lg, minimum %Lg", rad(R), want));
            }
            break;
        }
        case 'd': case 'r': {
            double r = op.k == 'd' ? op.r : -op.r;
            if (C.isEmpty() || C.isFull() || !(r < 0 || r > 0)) {
                if (!same(R, C)) mc::fail(key + " unchanged", str(C) + " became " + str(R));
                break;
            }
            LD want = a + (LD)r;
            bool ok = want < 0 ? R.isEmpty() : want >= LPI ? R.isFull() : fabsl(rad(R) - want) < 2e-15L;
            if (fabsl(want) < 1e-15L) ok = ok || R.isEmpty() || fabsl(rad(R)) < 2e-15L;
            if (fabsl(want - LPI) < 4e-15L) ok = ok || R.isFull() || fabsl(rad(R) - LPI) < 1e-14L;
            if (!ok) mc::fail(key + " angle", fmt("opening angle %.17Lg, expected %.17Lg", rad(R), want));
            if (!R.isEmpty() && !R.isFull() && !(R.getCenter() == C.getCenter())) mc::fail(key + " center", "moved");
            break;
        }
        case 'm':
            if (C.isEmpty() && !R.isFull()) mc::fail(key + " empty", str(R));
            if (C.isFull() && !R.isEmpty()) mc::fail(key + " full", str(R));
            if (!C.isEmpty() && !C.isFull()) {
                if (fabsl(rad(R) - (LPI - a)) > 2e-15L) mc::fail(key + " angle", str(R));
                if (R.isEmpty()) mc::fail(key + " closure", "the complement of a circle that is not full is empty");
                if (!(R.getCenter() == -C.getCenter())) mc::fail(key + " center", str(R));
            }
            break;
    }
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        gridPoints(grid, 12, 7);
        // ---- sequences of edits
        UnitVector3d X = UnitVector3d::X(), Z = UnitVector3d::Z(), G = U(V3(0.6L, 0.48L, 0.64L));
        std::vector<std::pair<std::string, Circle>> start;
        auto S = [&](char const * n, Circle c) { start.push_back({n, c}); };
        S("empty", Circle()); S("full", Circle::full()); S("point X", Circle(X)); S("X 0.3", Circle(X, Angle(0.3))); S("G 1e-8", Circle(G, Angle(1e-8)));
        S("G 0.5", Circle(G, Angle(0.5))); S("Z hemi", Circle(Z, Angle(0.5 * PI))); S("-G 2.5", Circle(-G, Angle(2.5))); S("X pi-1e-7", Circle(X, Angle(PI - 1e-7)));
        S("chord 1.7", Circle(G, 1.7)); S("chord nan", Circle(G, std::nan(""))); S("angle nan", Circle(G, Angle(std::nan(""))));
        S("angle 9", Circle(G, Angle(9))); S("X 1e-3", Circle(X, Angle(1e-3))); S("chord -3", Circle(X, -3.0)); S("chord 1e-300", Circle(X, 1e-300));
        std::vector<Op> ops;
        auto addC = [&](char const * n, Circle c) {
            Op a('c', std::string("clip ") + n), b('e', std::string("expand ") + n);
            a.x = b.x = c;
            ops.push_back(a); ops.push_back(b);
        };
        for (auto & s : start) addC(s.first.c_str(), s.second);
        addC("G' 0.3", Circle(U(V3(0.6L, 0.5L, 0.64L)), Angle(0.3)));
        addC("nearG 0.5", Circle(U(V3(0.6L, 0.48L, 0.640000001L)), Angle(0.5 - 3e-8)));
        addC("nearG 0.50000002", Circle(U(V3(0.6L, 0.48L, 0.640000001L)), Angle(0.5 + 2e-8)));
        addC("-X 0.2", Circle(-X, Angle(0.2)));
        addC("nearX 0.3-2e-8", Circle(U(V3(1, 1e-8L, 0)), Angle(0.3 - 2e-8)));
        std::vector<std::pair<char const *, UnitVector3d>> us = {{"X", X}, {"-X", -X}, {"G", G}, {"Z", Z}, {"X+1e-9", U(V3(1, 1e-9L, 0))}, {"X+0.3", U(V3(cosl(0.3L), sinl(0.3L), 0))}, {"-G", -G}};
        for (auto & u : us) {
            Op a('p', std::string("clip point ") + u.first), b('q', std::string("expand point ") + u.first);
            a.u = b.u = u.second;
            ops.push_back(a); ops.push_back(b);
        }
        for (double r : {0.0, -0.0, 1e-12, 1e-8, 1e-3, 0.3, 0.5, 2.0, 4.0, (double)INFINITY, (double)NAN, -1e-8, -0.3, -0.5, -2.0, -(double)INFINITY}) {
            Op a('d', fmt("dilate %g", r)), b('r', fmt("erode %g", r));
            a.r = b.r = r;
            ops.push_back(a);
            if (T || r == 1e-8 || r == 0.3 || r == 4.0 || r == -0.5) ops.push_back(b);
        }
        ops.push_back(Op('m', "complement"));
        {
            struct St { Circle c; int depth; std::string path; };
            mc::section("sequences");
            int D = T ? 3 : 2;
            // states are expanded breadth first; equal states are expanded only once
            std::set<std::array<uint64_t, 5>> seen;
            auto bits = [](Circle const & c) {
                std::array<uint64_t, 5> o;
                double d[5] = {c.getCenter().x() + 0.0, c.getCenter().y() + 0.0, c.getCenter().z() + 0.0, c.getSquaredChordLength(), c.getOpeningAngle().asRadians()};
                memcpy(o.data(), d, sizeof d);
                return o;
            };
            std::deque<St> q;
            for (auto & s : start) {
                consistent(s.second, s.first);
                if (seen.insert(bits(s.second)).second) q.push_back({s.second, 0, s.first});
            }
            size_t n = 0;
            while (!q.empty()) {
                St s = q.front();
                q.pop_front();
                bool last = s.depth + 1 >= D;
                bool m = mc::mine(n++);
                if (!m && last) continue;
                if (m) mc::state();
                for (size_t i = 0; i < ops.size(); ++i) {
                    mc::at(n, i, s.depth);
                    std::string key = s.path + " > " + ops[i].name;
                    Circle r = apply(s.c, ops[i], key);
                    if (m) {
                        judge(s.c, ops[i], r, key, s.depth == 0);
                        if (s.depth == 1 && mc::wantSample()) mc::sample(key + " = " + str(r));
                    }
                    if (!last && seen.insert(bits(r)).second) q.push_back({r, s.depth + 1, key});
                }
                // the circle as its own operand
                if (m) {
                    Circle a(s.c), b(s.c);
                    a.clipTo(a); b.expandTo(b);
                    mc::trans(2);
                    if (!(a == s.c)) mc::fail(s.path + " clipped to itself", str(a));
                    if (s.c.isEmpty() != b.isEmpty() || s.c.isFull() > b.isFull() || (!b.isEmpty() && !(rad(b) >= rad(s.c) && b.isFull() && (s.c.isFull() || rad(s.c) > LPI - 1e-7L)) && !(rad(b) >= rad(s.c) && rad(b) < rad(s.c) + 1e-7L && angle(V3(b.getCenter()), V3(s.c.getCenter())) < 1e-7L)))
                        mc::fail(s.path + " expanded to itself", str(b));
                    if (!(s.c == Circle(s.c)) || s.c != Circle(s.c)) mc::fail(s.path + " equality", "");
                    UnitVector3d const & own = a.getCenter();
                    a.expandTo(own);
                    if (!s.c.isEmpty() && !(a == s.c)) mc::fail(s.path + " own center", str(a));
                }
            }
        }
        // ---- equality
        mc::section("equality");
        if (mc::mine(0))
            for (size_t i = 0; i < start.size(); ++i)
                for (size_t j = 0; j < start.size(); ++j) {
                    mc::trans();
                    Circle const & a = start[i].second, & b = start[j].second;
                    bool eq = i == j || (a.isEmpty() && b.isEmpty()) || (a.isFull() && b.isFull());
                    if ((a == b) != eq || (a != b) == eq) mc::fail(start[i].first + " = " + start[j].first, "");
                }
        // ---- pairs that nearly touch, nearly contain each other or are nearly equal
        std::vector<LD> rs = {0, 1e-8L, 1e-4L, 0.1L, 0.7L, LPI / 2, 2.0L, 3.0L};
        std::vector<LD> ds = {0, 1e-15L, 1e-12L, 1e-9L, 8e-9L, 1.4e-8L, 1.6e-8L, 2.9e-8L, 3.1e-8L, 4.4e-8L, 4.6e-8L, 5.9e-8L, 6.1e-8L, 7.5e-8L, 1e-7L, 1e-5L};
        if (T) {
            for (LD r : {1e-12L, 1e-9L, 3e-8L, 1e-7L, 1e-6L, 0.3L, 1.0L, 1.3L, 1.57079L, 2.5L, 3.1L, 3.1415926L}) rs.push_back(r);
            for (LD d : {1e-14L, 1e-10L, 1.2e-8L, 2e-8L, 2.5e-8L, 3.5e-8L, 4e-8L, 5e-8L, 5.5e-8L, 6.5e-8L, 9e-8L, 3e-7L, 1e-6L, 1e-3L}) ds.push_back(d);
        }
        mc::section("near pairs");
        auto cs = centers(T);
        size_t n = 0;
        for (auto & c : cs)
            for (LD a : rs)
                for (LD b : rs)
                    for (int mode = 0; mode < 4; ++mode) {
                        if (!mc::mine(n++)) continue;
                        LD base = mode == 0 ? a - b : mode == 1 ? b - a : mode == 2 ? a + b : LPI;
                        for (LD d : ds)
                            for (int g : {-1, 1}) {
                                LD cc = base + g * d;
                                if (cc < 0 || cc > LPI) continue;
                                V3 ctr = unit(V3(c.second)), dir = anyPerp(ctr);
                                dir = unit(dir + cross(ctr, dir) * 0.3L);
                                Circle A(c.second, Angle((double)a)), B(U(go(ctr, dir, cc)), Angle((double)b));
                                mc::at(n, mode, (uint64_t)(d * 1e16L));
                                mc::state();
                                std::string key = fmt("%s %Lg, %Lg, separation %s%+Lg", c.first.c_str(), a, b, mode == 0 ? "a-b" : mode == 1 ? "b-a" : mode == 2 ? "a+b" : "pi", g * d);
                                for (char k : {'c', 'e'}) {
                                    Op op(k, "");
                                    op.x = B;
                                    judge(A, op, apply(A, op, key), key + (k == 'c' ? " clip" : " expand"), false);
                                }
                                if (b == 0) {
                                    for (char k : {'p', 'q'}) {
                                        Op op(k, "");
                                        op.u = B.getCenter();
                                        judge(A, op, apply(A, op, key), key + (k == 'p' ? " clip point" : " expand point"), false);
                                    }
                                }
                            }
                    }
        // ---- opening angle and chord
        mc::section("chord");
        if (mc::mine(1)) {
            std::vector<double> as = {0.0, 1e-300, 1e-160, 1e-30, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 0.01, 0.1, 0.5, 1, 1.5, 0.5 * PI, 2, 2.5, 3, 3.1, 3.14, PI - 1e-6, PI - 1e-8, std::nextafter(PI, 0), PI, 3.5, 7, INFINITY};
            for (int i = 1; i < (T ? 20000 : 2000); ++i) as.push_back(PI * i / (T ? 20000 : 2000));
            std::sort(as.begin(), as.end());
            double prev = -1;
            for (double a : as) {
                mc::state();
                mc::trans(2);
                double s = Circle::squaredChordLengthFor(Angle(a));
                LD want = a >= PI ? 4 : 4 * powl(sinl((LD)a / 2), 2);
                if (fabsl(s - want) > 6e-16L * want + 1e-307L) mc::fail(fmt("squaredChordLengthFor(%a)", a), fmt("%a", s));
                if (s < prev) mc::fail(fmt("squaredChordLengthFor(%a) monotonic", a), "");
                prev = s;
                double r = Circle::openingAngleFor(s).asRadians();
                LD tol = a >= PI ? 1e-15L : std::min(5e-8L, 2e-15L / std::max(1e-30L, fabsl(cosl((LD)a / 2)))) ;
                if (a < 1) tol = 6e-16L * a + (a < 1e-150 ? 1 : 0) * a;
                if (fabsl(r - std::min(LPI, (LD)a)) > tol) mc::fail(fmt("openingAngleFor(squaredChordLengthFor(%a))", a), fmt("%a", r));
            }
            for (double a : {-1.0, -1e-300, -(double)INFINITY}) {
                mc::trans(2);
                if (!(Circle::squaredChordLengthFor(Angle(a)) < 0)) mc::fail(fmt("squaredChordLengthFor(%g)", a));
                if (!(Circle::openingAngleFor(a).asRadians() < 0)) mc::fail(fmt("openingAngleFor(%g)", a));
            }
            for (double s : {4.0, 4.5, (double)INFINITY})
                if (Circle::openingAngleFor(s).asRadians() < PI) mc::fail(fmt("openingAngleFor(%g)", s));
        }
        // ---- ellipses
        std::vector<P> es = ellipses(T);
        for (double al : {1e-9, 2e-8, 1e-7, 1e-6, 1e-4, 0.05})
            for (double f : {0.9999, 0.5, 0.05, 1e-3}) {
                es.push_back(mkEllC(fmt("ellipse(G,%g,%g*alpha,0.3)", al, f), G, al, al * f, 0.3));
                es.push_back(mkEllC(fmt("ellipse(G,%g*beta,%g,0.3)", f, al), G, al * f, al, 0.3));
                es.push_back(mkEllC(fmt("ellipse(G,pi-%g,pi-%g*,0.3)", al, f), G, PI - al, PI - al * f, 0.3));
                V3 g = unit(V3(G)), d = anyPerp(g);
                es.push_back(mkEllF(fmt("ellipse(foci %g*alpha,%g)", f, al), U(go(g, d, f * al)), U(go(g, d, -f * al)), al));
            }
        mc::section("ellipses");
        for (size_t i = 0; i < es.size(); ++i) {
            if (!mc::mine(i)) continue;
            Sh const & s = *es[i];
            Ellipse const & e = static_cast<Ellipse const &>(*s.r);
            mc::at(i);
            mc::state();
            if (e.isEmpty() != s.empty) mc::fail(s.name + " isEmpty", fmt("is %d", e.isEmpty()));
            if (e.isFull() != s.full && !(s.be > LPI - 1e-7L)) mc::fail(s.name + " isFull", fmt("is %d", e.isFull()));
            if (!(e == e) || e != e || !(Ellipse(e) == e)) mc::fail(s.name + " equality", "");
            Ellipse c = e.complemented(), cc = c.complemented(), m(e);
            Ellipse * self = &m.complement();
            mc::trans(3);
            if (self != &m || !(m == c)) mc::fail(s.name + " complement forms", "");
            if (!(cc == e)) mc::fail(s.name + " complement twice", "is not the ellipse");
            if (c.isEmpty() != e.isFull() && !e.isFull()) mc::fail(s.name + " complement empty", "");
            if (e.isEmpty() && !c.isFull()) mc::fail(s.name + " complement full", "");
            std::vector<Pt> pts = grid;
            boundaryPoints(s, pts, 1, true);
            for (auto & p : pts) {
                int x = s.cls(p.v);
                mc::trace();
                if (x && c.contains(p.u) != (x < 0)) { mc::fail(s.name + " complement membership", fmt("clearance %Lg v=(%.17g,%.17g,%.17g)", s.sd(p.v), p.u.x(), p.u.y(), p.u.z())); break; }
                if (x && e.contains(p.u) != (x > 0)) { mc::fail(s.name + " membership", fmt("clearance %Lg v=(%.17g,%.17g,%.17g)", s.sd(p.v), p.u.x(), p.u.y(), p.u.z())); break; }
            }
            if (s.empty || s.full) continue;
            // the description
            LD al = e.getAlpha().asRadians(), be = e.getBeta().asRadians(), ga = e.getGamma().asRadians();
            V3 ctr(e.getCenter()), f1(e.getF1()), f2(e.getF2());
            LD at = 4e-15L;  // angles are stored as differences from a right angle
            auto bad = [&](char const * w, LD got, LD want) { mc::fail(s.name + " " + w, fmt("%.18Lg, expected %.18Lg", got, want)); };
            if (fabsl(al - s.rad) > at) bad("alpha", al, s.rad);
            LD sing = 4e-15L + 1e-15L / std::max(1e-9L, fabsl(sinl(s.be)));
            if (fabsl(be - s.be) > sing) bad("beta", be, s.be);
            LD wantg = angle(s.f1, s.f2) / 2, gt = 4e-15L + 2e-15L / std::max(1e-9L, wantg);
            if (fabsl(ga - wantg) > gt) bad("gamma", ga, wantg);
            if (angle(ctr, s.c) > 2e-15L) bad("center", angle(ctr, s.c), 0);
            LD m1 = std::max(angle(f1, s.f1), angle(f2, s.f2)), m2 = std::max(angle(f1, s.f2), angle(f2, s.f1));
            if (std::min(m1, m2) > gt + 4e-15L) bad("foci", std::min(m1, m2), 0);
            if (e.isCircle() != (e.getAlpha() == e.getBeta())) mc::fail(s.name + " isCircle");
            if (e.isGreatCircle() != (e.getAlpha().asRadians() == 0.5 * PI)) mc::fail(s.name + " isGreatCircle");
            Matrix3d t = e.getTransformMatrix();
            LD mx = 0;
            for (int r = 0; r < 3; ++r)
                for (int q = 0; q < 3; ++q) {
                    LD v = 0;
                    for (int k = 0; k < 3; ++k) v += (LD)t(r, k) * t(q, k);
                    mx = std::max(mx, fabsl(v - (r == q)));
                }
            // the axes come from the sum and difference of the foci, whose lengths are only 1 up to rounding
            LD mt = 3e-15L + 5e-16L / std::max(1e-16L, wantg);
            if (mx > mt) bad("transform matrix orthogonal", mx, 0);
            Vector3d im = t * Vector3d(e.getCenter().x(), e.getCenter().y(), e.getCenter().z());
            if (angle(V3(im.x(), im.y(), im.z()), V3(0, 0, 1)) > mt) mc::fail(s.name + " transform matrix center");
            // x is the major axis direction
            if (fabsl(s.rad - s.be) > 1e-6L * s.rad && s.be > 1e-12L) {
                V3 ax((LD)t(0, 0), (LD)t(0, 1), (LD)t(0, 2));
                LD dv = norm(cross(unit(ax), s.d));
                if (dv > 1e-14L + 1e-15L / wantg) bad("transform matrix axis", dv, 0);
            }
            // the ellipse rebuilt from its own description is the same set
            Ellipse again(e.getF1(), e.getF2(), e.getAlpha());
            mc::trans();
            for (auto & p : pts) {
                LD sd = s.sd(p.v);
                if (fabsl(sd) > s.tol + 4 * gt + 1e-14L && again.contains(p.u) != (sd > 0)) { mc::fail(s.name + " rebuilt from foci", fmt("clearance %Lg", sd)); break; }
            }
            if (mc::wantSample()) mc::sample(fmt("%s alpha %.12Lg beta %.12Lg gamma %.12Lg", s.name.c_str(), al, be, ga));
        }
        // ---- ellipses made from circles
        mc::section("ellipses from circles");
        auto circ = circles(T);
        for (size_t i = 0; i < circ.size(); ++i) {
            if (!mc::mine(i)) continue;
            mc::at(i);
            mc::state();
            Sh const & s = *circ[i];
            Ellipse e(static_cast<Circle const &>(*s.r));
            mc::trans();
            if (e.isEmpty() != s.empty || (e.isFull() != s.full && s.rad < LPI - 1e-7L)) mc::fail(s.name + " state");
            std::vector<Pt> pts = grid;
            boundaryPoints(s, pts, 1, true);
            LD tol = s.tol + 4e-15L;
            for (auto & p : pts) {
                LD sd = s.sd(p.v);
                mc::trace();
                if (fabsl(sd) > tol && e.contains(p.u) != (sd > 0)) { mc::fail(s.name + " membership", fmt("clearance %Lg v=(%.17g,%.17g,%.17g)", sd, p.u.x(), p.u.y(), p.u.z())); break; }
            }
        }
        // ---- arguments that do not describe an ellipse
        // Half spheres around the axes: nothing is rounded, so the boundary itself decides.
        mc::section("half spheres");
        if (mc::mine(2))
            for (int ax = 0; ax < 3; ++ax) for (int sg = -1; sg <= 1; sg += 2) {
                double c[3] = {0, 0, 0};
                c[ax] = sg;
                UnitVector3d const C(c[0], c[1], c[2]);
                Angle const h(0.5 * PI);
                Ellipse const forms[] = {Ellipse(C, C, h), Ellipse(C, h), Ellipse(C, h, h, Angle(0.3)), Ellipse(-C, h).complemented(), Ellipse(C, h).complemented().complemented()};
                for (int f = 0; f < 5; ++f) for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) for (int z = -3; z <= 3; ++z) {
                    if (!x && !y && !z) continue;
                    mc::at(ax, sg, f);
                    mc::state();
                    mc::trans();
                    double const w[3] = {(double)x, (double)y, (double)z};
                    bool const want = w[ax] * sg >= 0;
                    mc::trace();
                    if (forms[f].contains(UnitVector3d(x, y, z)) != want) mc::fail(fmt("half sphere %d around axis %d*%d contains (%d,%d,%d)", f, sg, ax, x, y, z), "");
                }
            }
        mc::section("ellipse arguments");
        if (mc::mine(2)) {
            double nan = std::nan(""), h = 0.5 * PI;
            struct A { double a, b, o; int want; };  // want: 0 throws, 1 empty, 2 full, 3 neither
            std::vector<A> v = {{nan, 1, 0, 0}, {1, nan, 0, 0}, {1, 1, nan, 0}, {1, 1, INFINITY, 0}, {1, 2, 0, 0}, {2, 1, 0, 0}, {h, 1, 0, 0}, {h, 2, 0, 0}, {1, h, 0, 0}, {2, h, 0, 0}, {h, h, 0, 3},
                                {-1, 1, 0, 1}, {1, -1, 0, 1}, {-1, -1, 0, 1}, {-1e-300, 0, 0, 1}, {4, 2, 0, 2}, {2, 4, 0, 2}, {PI, PI, 0, 2}, {4, 4, 0, 2}, {0, 0, 0, 3}, {1e-5, 0, 0, 3}, {0, 1e-5, 3, 3}, {0.3, 0, 1, 3}, {2e-8, 1e-9, 0, 3}, {1e-3, 1e-10, 0, 3}, {0.7, 1e-9, 0, 3}, {1.1, 1e-12, 0, 3}};
            for (auto & a : v) {
                mc::trans();
                std::string key = fmt("Ellipse(G,%g,%g,%g)", a.a, a.b, a.o);
                try {
                    Ellipse e(G, Angle(a.a), Angle(a.b), Angle(a.o));
                    int got = e.isEmpty() ? 1 : e.isFull() ? 2 : 3;
                    if (got != a.want) mc::fail(key, fmt("state %d, expected %d", got, a.want));
                    if (a.want == 3 && a.a > 0 && a.b > 0 && !e.contains(G)) mc::fail(key + " center", "not inside");
                } catch (std::invalid_argument &) {
                    if (a.want) mc::fail(key, "rejected");
                }
            }
            try { Ellipse e(X, G, Angle(nan)); mc::fail("Ellipse(X,G,nan)", "accepted"); } catch (std::invalid_argument &) {}
            if (!(Ellipse() == Ellipse::empty()) || !Ellipse().isEmpty() || Ellipse().isFull() || !Ellipse::full().isFull() || Ellipse::full().isEmpty()) mc::fail("empty/full");
            if (!Ellipse(X, -X, Angle(h)).isFull() || !Ellipse(X, -X, Angle(1.5)).isEmpty()) mc::fail("antipodal foci");
        }
    });
}
