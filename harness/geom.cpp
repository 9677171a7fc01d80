// Distances and intersections of points, lines, circles and boxes.
#include "common.hpp"
#include "ulp.hpp"
#include "core/geometry/geom.hpp"
using namespace mocc;

static const double FAR = 1e300;
static double ab(double x)
{
    return x < 0 ? -x : x;
}
static const double DIRS[][3] = {{0.6, 0.64, 0.48},    {-0.28, 0.96, 0},    {-0.48, -0.6, 0.64}, {0.8, -0.36, -0.48},
                                 {0.96, 0.28, 0}, {-0.8, 0.6, 0}, {1, 0, 0}, {0, 0.8, -0.6}};
// one of a few directions
static Direction adir()
{
    int k = sx_choose("direction", sx_param("NDIR", 8));
    Direction d;
    d.ox = DIRS[k][0], d.oy = DIRS[k][1], d.oz = DIRS[k][2];
    return d;
}
// a direction of unit length, in three dimensions
static Direction cosines()
{
    Direction d;
    d.ox = sreal("ox", -1, 1);
    d.oy = sreal("oy", -1, 1);
    d.oz = sreal("oz", -0.9, 0.9);
    sx_assume(d.ox * d.ox + d.oy * d.oy + d.oz * d.oz == 1.0);
    return d;
}
static void line()
{
    double x1 = sreal("x1", -2, 2), y1 = sreal("y1", -2, 2), x2 = sreal("x2", -2, 2), y2 = sreal("y2", -2, 2);
    Line l(Point2(x1, y1), Point2(x2, y2));
    Direction d = cosines();
    Point2 p(sreal("px", -2, 2), sreal("py", -2, 2));
    // side of the line, and speed towards it
    double f = (y1 - y2) * p.x + (x2 - x1) * p.y + x1 * y2 - x2 * y1;
    double v = (y1 - y2) * d.ox + (x2 - x1) * d.oy;
    sx_assume(f > 1e-3 || f < -1e-3);
    sx_assume(v > 1e-3 || v < -1e-3);
    double t = l.distance_to_surface(p, d, false);
    if ((f > 0) == (v > 0)) {
        sx_check(t > FAR, "moving away from a line");
        sx_reach("away");
    } else {
        sx_check(t > 0, "a line ahead is ahead");
        sx_near(f + t * v, 0, 1e-9, "the line is reached after the reported distance");
        sx_reach("ahead");
    }
    sx_check(l.distance_to_surface(p, d, true) > FAR, "a line is met only once");
}
static void parallel()
{
    // travelling along a line, or starting on it
    double y = sreal("y", -2, 2);
    Line l(Point2(-1.5, 0.25), Point2(0.5, 0.25));
    Direction d;
    d.ox = 0.8, d.oy = 0, d.oz = 0.6;
    sx_check(l.distance_to_surface(Point2(0.1, y), d, false) > FAR, "travelling beside a line");
    double ox = sreal("ox", -1, 1), oy = sreal("oy", -1, 1);
    d.ox = ox, d.oy = oy, d.oz = 0;
    sx_check(l.distance_to_surface(Point2(y, 0.25), d, false) > FAR, "starting on a line");
    sx_reach("parallel");
}
static void circle()
{
    double r = sx_choose("radius", 2) ? 1.25 : 0.5, cx = 0.25, cy = 0.375;
    Circle c(Point2(cx, cy), r);
    Direction d = adir();
    Point2 p(sreal("px", -2, 2), sreal("py", -2, 2));
    double x = p.x - cx, y = p.y - cy, f = x * x + y * y - r * r, k = x * d.ox + y * d.oy,
           a = d.ox * d.ox + d.oy * d.oy;
    sx_assume(f > 1e-3 || f < -1e-3);
    double det = k * k - a * f;
    sx_assume(det > 1e-3 || det < -1e-3);
    double t = c.distance_to_surface(p, d, false);
    if (f < 0) {
        sx_check(t > 0 && t < FAR, "the circle is met from inside");
        sx_near(a * t * t + 2 * k * t + f, 0, 1e-6, "on the circle after the reported distance");
        sx_reach("inside");
    } else if (det < 0 || k > 0) {
        sx_check(t > FAR, "missing the circle");
        sx_reach("miss");
    } else {
        sx_check(t > 0 && t < FAR, "the circle is met from outside");
        sx_near(a * t * t + 2 * k * t + f, 0, 1e-6, "on the circle after the reported distance");
        // the nearer of the two points
        sx_check(a * t + k < 0, "the nearer point of the circle");
        sx_reach("outside");
    }
}
static void oncircle()
{
    // starting on the circle, going in or out
    double r = sreal("r", 0.2, 2);
    Circle c(Point2(0.1, -0.2), r);
    Direction d = adir();
    const double U[][2] = {{0.6, 0.8}, {-0.28, 0.96}, {-0.6, -0.8}, {1, 0}, {0, -1}, {0.96, -0.28}};
    int i               = sx_choose("place", 6);
    double ux = U[i][0], uy = U[i][1];
    Point2 p(0.1 + r * ux, -0.2 + r * uy);
    double k = ux * d.ox + uy * d.oy;
    sx_assume(k > 1e-2 || k < -1e-2);
    int co   = sx_choose("coincident", 2);
    double t = c.distance_to_surface(p, d, co == 1);
    if (k > 0) {
        sx_check(t > FAR, "leaving a circle from its edge");
        sx_reach("leave");
    } else {
        // the chord
        double a = d.ox * d.ox + d.oy * d.oy;
        sx_near(a * t, -2 * r * k, 1e-6, "crossing a circle from its edge");
        sx_reach("cross");
    }
}
static void box()
{
    double w = sreal("w", 0.2, 2), h = sreal("h", 0.2, 2);
    bool swap = sx_choose("swap", 2);
    Point2 a(-0.3, 0.4), b(-0.3 + w, 0.4 + h);
    if (swap) {
        a = Point2(-0.3 + w, 0.4);
        b = Point2(-0.3, 0.4 + h);
    }
    Box bx(a, b);
    Direction d = cosines();
    double ex = sreal("ex", 0, 2), ey = sreal("ey", 0, 2);
    sx_assume(ex > 1e-3 && ex < w - 1e-3 && ey > 1e-3 && ey < h - 1e-3);
    sx_assume(d.ox > 0.01 || d.ox < -0.01);
    sx_assume(d.oy > 0.01 || d.oy < -0.01);
    auto r    = bx.distance_to_surface(Point2(-0.3 + ex, 0.4 + ey), d);
    double tx = d.ox > 0 ? w - ex : ex, ty = d.oy > 0 ? h - ey : ey, vx = ab(d.ox), vy = ab(d.oy);
    sx_assume(tx * vy > ty * vx + 1e-4 || tx * vy < ty * vx - 1e-4);
    bool xf = tx * vy < ty * vx;
    if (xf) {
        sx_near(r.first * vx, tx, 1e-9, "distance to the nearest side of a box");
        sx_check(r.second == (d.ox > 0 ? Surface::EAST : Surface::WEST), "nearest side of a box");
        sx_reach("x side");
    } else {
        sx_near(r.first * vy, ty, 1e-9, "distance to the nearest side of a box");
        sx_check(r.second == (d.oy > 0 ? Surface::NORTH : Surface::SOUTH), "nearest side of a box");
        sx_reach("y side");
    }
}
// where a ray entering a box leaves it
static void leave()
{
    double w = sreal("w", 0.2, 2), h = sreal("h", 0.2, 2);
    Box bx(Point2(-0.3, 0.4), Point2(-0.3 + w, 0.4 + h));
    Angle g(1, 1, 1);
    double al = sreal("alpha", 0.02, 3.12);
    g.alpha   = al;
    double c = std::cos(al), s = std::sin(al);
    sx_assume(c > 0.01 || c < -0.01);
    sx_assume(s > 0.01);
    int side = sx_choose("side", 2);
    double e = sreal("e", 0, 2), ex, ey;
    if (side == 0) {
        ex = e, ey = 0; // bottom
        sx_assume(e > 1e-3 && e < w - 1e-3);
    } else {
        ex = c > 0 ? 0 : w, ey = e; // the side it comes from
        sx_assume(e > 1e-3 && e < h - 1e-3);
    }
    double tx = c > 0 ? w - ex : ex, ty = h - ey, vx = c > 0 ? c : -c;
    sx_assume(tx * s > ty * vx + 1e-4 || tx * s < ty * vx - 1e-4);
    Point2 q = bx.intersect(Point2(-0.3 + ex, 0.4 + ey), g);
    sx_check(q.ok, "a ray entering a box leaves it");
    if (tx * s < ty * vx) {
        sx_near(q.x, c > 0 ? -0.3 + w : -0.3, 1e-12, "side the ray leaves through");
        sx_near((q.y - 0.4 - ey) * vx, tx * s, 1e-9, "place where the ray leaves");
        sx_reach("side");
    } else {
        sx_near(q.y, 0.4 + h, 1e-12, "top the ray leaves through");
        sx_near((q.x + 0.3 - ex) * s, ty * c, 1e-9, "place where the ray leaves");
        sx_reach("top");
    }
}
static void lines()
{
    // two segments of a few lengths and headings, the first one anywhere
    int k     = sx_choose("second", 4);
    double x1 = sreal("x1", -2, 2), y1 = sreal("y1", -2, 2);
    static const double V[][2] = {{1.5, 0.5}, {-0.75, 1.25}, {0, 2}, {-2, 0}, {0.25, -0.5}};
    int m     = sx_choose("first", 5);
    double x2 = x1 + V[m][0], y2 = y1 + V[m][1];
    double x3 = -0.4, y3 = 0.3, x4 = x3 + 1.5 * DIRS[k][0] , y4 = y3 + 1.5 * DIRS[k][1];
    if (k == 3)
        x4 = x3; // upright
    Line a(Point2(x1, y1), Point2(x2, y2)), b(Point2(x3, y3), Point2(x4, y4));
    // sides of each line the ends of the other are on
    double s1 = (x4 - x3) * (y1 - y3) - (y4 - y3) * (x1 - x3), s2 = (x4 - x3) * (y2 - y3) - (y4 - y3) * (x2 - x3);
    double t1 = (x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1), t2 = (x2 - x1) * (y4 - y1) - (y2 - y1) * (x4 - x1);
    sx_assume((s1 > 1e-3 || s1 < -1e-3) && (s2 > 1e-3 || s2 < -1e-3));
    sx_assume((t1 > 1e-3 || t1 < -1e-3) && (t2 > 1e-3 || t2 < -1e-3));
    sx_assume(s1 - s2 > 1e-3 || s2 - s1 > 1e-3);
    Point2 p;
    int n      = Intersect(a, b, p);
    bool cross = (s1 > 0) != (s2 > 0) && (t1 > 0) != (t2 > 0);
    sx_check(n == (cross ? 1 : 0), "two segments cross when each separates the ends of the other");
    if (n == 1) {
        sx_check(p.ok, "crossing point is valid");
        sx_near((x2 - x1) * (p.y - y1), (y2 - y1) * (p.x - x1), 1e-6, "crossing point on the first line");
        sx_near((x4 - x3) * (p.y - y3), (y4 - y3) * (p.x - x3), 1e-6, "crossing point on the second line");
        sx_reach("crossing");
    } else {
        sx_check(!p.ok, "no crossing point");
        sx_reach("apart");
    }
}
static void chord()
{
    // a segment between two points outside a circle
    double r = sx_choose("radius", 2) ? 1.25 : 0.5;
    Circle c(Point2(0.25, -0.5), r);
    // one of a few segments, anywhere
    const double SEG[][2] = {{1.5, 1}, {-1, 2.25}, {2, -0.5}, {-1.25, -1.5}, {0.5, 0.25}, {3, 0.125}, {0, 2}, {-3.5, 0}};
    int k     = sx_choose("segment", 8);
    double x1 = sreal("x1", -2, 2), y1 = sreal("y1", -2, 2);
    double x2 = x1 + SEG[k][0], y2 = y1 + SEG[k][1];
    double w1 = x1 - 0.25, w2 = y1 + 0.5, z1 = x2 - 0.25, z2 = y2 + 0.5, u1 = x2 - x1, u2 = y2 - y1;
    double e1 = w1 * w1 + w2 * w2 - r * r, e2 = z1 * z1 + z2 * z2 - r * r;
    sx_assume(e1 > 1e-3 && e2 > 1e-3);
    double cr = u1 * w2 - u2 * w1, len2 = u1 * u1 + u2 * u2, det = r * r * len2 - cr * cr;
    sx_assume(len2 > 1e-2);
    sx_assume(det > 1e-3 || det < -1e-3);
    double a = -(w1 * u1 + w2 * u2); // foot of the perpendicular, times length
    sx_assume(a > 1e-3 || a < -1e-3);
    sx_assume(len2 - a > 1e-3 || len2 - a < -1e-3);
    Point2 p, q;
    int n      = Intersect(Line(Point2(x1, y1), Point2(x2, y2)), c, p, q);
    bool cross = det > 0 && a > 0 && a < len2;
    sx_check(n == (cross ? 2 : 0), "a segment crosses a circle twice or not at all");
    if (n == 2) {
        sx_check(p.ok && q.ok, "crossing points are valid");
        double px = p.x - 0.25, py = p.y + 0.5, qx = q.x - 0.25, qy = q.y + 0.5;
        sx_near(px * px + py * py, r * r, 1e-6, "first point on the circle");
        sx_near(qx * qx + qy * qy, r * r, 1e-6, "second point on the circle");
        sx_near(u1 * (p.y - y1), u2 * (p.x - x1), 1e-6, "first point on the line");
        sx_near(u1 * (q.y - y1), u2 * (q.x - x1), 1e-6, "second point on the line");
        sx_check((q.x - p.x) * u1 + (q.y - p.y) * u2 > 0, "points in the order they are met");
        sx_reach("crossing");
    } else
        sx_reach("apart");
}
static void points()
{
    Point2 a(sreal("x1", -2, 2), sreal("y1", -2, 2)), b(sreal("x2", -2, 2), sreal("y2", -2, 2));
    double d = a.distance(b);
    sx_near(d * d, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y), 1e-9, "distance");
    sx_check(d >= 0, "distance is not negative");
    Point2 m = Midpoint(a, b);
    sx_near(2 * m.x, a.x + b.x, 1e-12, "midpoint");
    sx_near(2 * m.y, a.y + b.y, 1e-12, "midpoint");
    Point2 s = a - b;
    sx_near(s.x, a.x - b.x, 1e-12, "difference");
    sx_near(s.y, a.y - b.y, 1e-12, "difference");
    Point3 e(a.x, b.x, a.y), f(b.y, a.y, b.x);
    double g = e.distance(f);
    sx_near(g * g, (e.x - f.x) * (e.x - f.x) + (e.y - f.y) * (e.y - f.y) + (e.z - f.z) * (e.z - f.z), 1e-9, "distance");
    sx_reach("points");
}
static void azimuth()
{
    // polar angle of a point: within one turn, and pointing at the point
    int zero = sx_choose("axis", 3);
    double x = sreal("x", -2, 2), y = sreal("y", -2, 2);
    if (zero == 1)
        y = 0;
    if (zero == 2)
        x = 0;
    sx_assume(zero == 2 || x > 1e-3 || x < -1e-3);
    sx_assume(zero == 1 || y > 1e-3 || y < -1e-3);
    sx_fork_selects(1);
    double a = Point2(x, y).alpha();
    sx_check(a >= 0 && a <= 6.2831853071795872, "azimuth within one turn");
    double s = std::sin(a), c = std::cos(a);
    sx_near(x * s, y * c, 1e-9, "azimuth along the point");
    sx_check(x * c + y * s > 0, "azimuth towards the point");
    sx_reach("azimuth");
}
extern "C" void sx_main()
{
    switch (sx_param("PART", 0)) {
    case 0: line(); break;
    case 1: parallel(); break;
    case 2: circle(); break;
    case 3: oncircle(); break;
    case 4: box(); break;
    case 5: leave(); break;
    case 6: lines(); break;
    case 7: chord(); break;
    case 8: points(); break;
    case 9: azimuth(); break;
    }
}
