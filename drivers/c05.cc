// C05: measures of polygons and polyhedra of the real Geometry.cc against exact measures.
#include "shapes.hh"
using namespace drv;
using namespace JaliGeometry;

static bool near3(Point const& p, A3 const& a, double sc, double tol = 1e-9) {
  if (p.dim() != 3) return false;
  for (int k = 0; k < 3; k++) if (!(std::fabs(p[k] - a[k]) <= tol * (sc + std::fabs(a[k])))) return false;
  return true;
}
struct P2 { double x, y; };
static std::vector<P2> convex(Rng& g, int n) {
  std::vector<double> a; std::vector<P2> r;
  // well separated angles around the circle
  for (int i = 0; i < n; i++) a.push_back(2 * M_PI * (i + 0.7 * g.real()) / n);
  double rx = g.real(0.5, 3), ry = g.real(0.5, 3), cx = g.real(-4, 4), cy = g.real(-4, 4), th = g.real(0, 6.28);
  for (double t : a) { double u = rx * cos(t), v = ry * sin(t); r.push_back({cx + u * cos(th) - v * sin(th), cy + u * sin(th) + v * cos(th)}); }
  return r;
}
static void shoelace(std::vector<P2> const& p, double& A, double& cx, double& cy) {
  A = cx = cy = 0;
  size_t n = p.size();
  for (size_t i = 0; i < n; i++) {
    P2 a = p[i], b = p[(i + 1) % n];
    double w = a.x * b.y - b.x * a.y;
    A += w / 2; cx += w * (a.x + b.x) / 6; cy += w * (a.y + b.y) / 6;
  }
  cx /= A; cy /= A;
}
int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(seed());
  int reps = thorough() ? 3000 : 150;
  // ---------------------------------------------------------------- polyhedra
  for (auto const& base : shapes())
    for (int it = 0; it < reps; it++) {
      Mat M = randmat(g);
      if (it == 0) { M = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 0, 0}}}; }
      Poly p = mapped(base, M);
      bool four = p.v.size() == 4;      // a tetrahedron is measured from its node order
      if (four && dt(crs(sub(p.v[1], p.v[0]), sub(p.v[2], p.v[0])), sub(p.v[3], p.v[0])) < 0) {
        std::swap(p.v[2], p.v[3]);
        for (auto& f : p.f) for (int& i : f) i = i == 2 ? 3 : i == 3 ? 2 : i;
      }
      at("polyhedron %s", show3(p).c_str());
      if (it == 1) sample("%s", cur);
      Args a = args(p);
      double V, v = -1e300; A3 C; Point c(3);
      measures(p, V, C);
      polyhed_get_vol_centroid(a.cc, a.nf, a.nfn, a.fc, &v, &c);
      check(close_(v, V, 1e-6), "polyhedron-volume", "volume %.12g, true %.12g", v, V);
      check(near3(c, C, 10), "polyhedron-centroid", "centroid %g %g %g, true %g %g %g", c[0], c[1], c[2], C[0], C[1], C[2]);
      // translation and scaling
      double s = g.real(0.3, 4); A3 t = {{g.real(-9, 9), g.real(-9, 9), g.real(-9, 9)}};
      Poly q = p; for (auto& x : q.v) for (int k = 0; k < 3; k++) x[k] = s * x[k] + t[k];
      Args b = args(q); double v2; Point c2(3);
      polyhed_get_vol_centroid(b.cc, b.nf, b.nfn, b.fc, &v2, &c2);
      A3 want = from(c); for (int k = 0; k < 3; k++) want[k] = s * want[k] + t[k];
      check(close_(v2, s * s * s * v, 1e-6) && near3(c2, want, 30), "polyhedron-moves", "volume %.12g want %.12g", v2, s * s * s * v);
      // inside out: the measure is negative
      Poly w = p; for (auto& f : w.f) std::reverse(f.begin(), f.end());
      if (four) std::swap(w.v[2], w.v[3]);
      Args d = args(w); double v3; Point c3(3);
      polyhed_get_vol_centroid(d.cc, d.nf, d.nfn, d.fc, &v3, &c3);
      check(v3 < 0 && close_(-v3, V, 1e-6), "polyhedron-inverted", "volume %.12g of the inside-out shape, true %.12g", v3, V);
      // one face turned over: some piece is inverted
      if (!four) {
        Poly u = p; auto& f = u.f[g.below(u.f.size())]; std::reverse(f.begin(), f.end());
        Args e = args(u); double v4; Point c4(3);
        polyhed_get_vol_centroid(e.cc, e.nf, e.nfn, e.fc, &v4, &c4);
        check(v4 <= 0, "polyhedron-piece-inverted", "volume %.12g with one face turned over", v4);
      }
    }
  // ---------------------------------------------------------------- polygons
  for (int n = 3; n <= 8; n++)
    for (int it = 0; it < reps; it++) {
      auto p = convex(g, n);
      std::string sh; for (auto& x : p) sh += " (" + std::to_string(x.x) + " " + std::to_string(x.y) + ")";
      at("polygon%s", sh.c_str());
      if (it == 1 && n < 5) sample("%s", cur);
      double A, cx, cy; shoelace(p, A, cx, cy);
      std::vector<Point> c2; for (auto& x : p) c2.push_back(Point(x.x, x.y));
      double a = -1; Point c(2), nr(2);
      polygon_get_area_centroid_normal(c2, &a, &c, &nr);
      check(close_(a, A, 1e-6), "polygon-area-2d", "area %.12g, true %.12g", a, A);
      check(c.dim() == 2 && close_(c[0], cx) && close_(c[1], cy), "polygon-centroid-2d", "centroid %g %g, true %g %g", c[0], c[1], cx, cy);
      check(close_(nr[0], A, 1e-6), "polygon-normal-2d", "normal %g, true %g", nr[0], A);
      // clockwise: inverted
      std::vector<Point> r2(c2.rbegin(), c2.rend());
      double ar; Point cr(2), nrr(2);
      polygon_get_area_centroid_normal(r2, &ar, &cr, &nrr);
      check(close_(-ar, A, 1e-6) && close_(nrr[0], -A, 1e-6), "polygon-inverted-2d", "area %.12g normal %g of the clockwise polygon, true %.12g", ar, nrr[0], A);
      // the same polygon in a plane of space
      Mat M = randmat(g);
      A3 e1 = {{M.m[0][0], M.m[1][0], M.m[2][0]}}, e2 = {{M.m[0][1], M.m[1][1], M.m[2][1]}}, nn = crs(e1, e2);
      double ln = std::sqrt(dt(nn, nn));
      std::vector<Point> c3; for (auto& x : p) c3.push_back(P3(app(M, {{x.x, x.y, 0}})));
      double a3 = -1; Point cc(3), n3(3);
      polygon_get_area_centroid_normal(c3, &a3, &cc, &n3);
      check(close_(a3, A * ln, 1e-6), "polygon-area-3d", "area %.12g, true %.12g", a3, A * ln);
      check(near3(cc, app(M, {{cx, cy, 0}}), 10), "polygon-centroid-3d", "centroid %g %g %g", cc[0], cc[1], cc[2]);
      check(near3(n3, {{A * nn[0], A * nn[1], A * nn[2]}}, 10), "polygon-normal-3d", "normal %g %g %g, true %g %g %g", n3[0], n3[1], n3[2], A * nn[0], A * nn[1], A * nn[2]);
      // one corner pulled through the centre: a piece is inverted
      if (n > 3) {
        std::vector<Point> q2 = c2; Point ce(2); for (auto& x : c2) ce += x; ce /= n;
        int k = g.below(n); q2[k] = ce + (ce - c2[k]) * 3.0;
        Point nce(2); for (auto& x : q2) nce += x; nce /= n;
        bool inv = false; for (int i = 0; i < n; i++) { Point u = q2[i] - nce, v = q2[(i + 1) % n] - nce; if (u[0] * v[1] - u[1] * v[0] < -1e-9) inv = true; }
        double aq; Point cq(2), nq(2);
        polygon_get_area_centroid_normal(q2, &aq, &cq, &nq);
        if (inv) check(aq <= 0, "polygon-piece-inverted-2d", "area %.12g", aq);
      }
    }
  // ---------------------------------------------------------------- segments
  for (int it = 0; it < reps * 4; it++) {
    int d = 1 + it % 3;
    Point p(d), q(d); double l2 = 0;
    for (int k = 0; k < d; k++) { p[k] = g.real(-5, 5); q[k] = g.real(-5, 5); l2 += (p[k] - q[k]) * (p[k] - q[k]); }
    at("segment %dD %g - %g", d, p[0], q[0]);
    double v = -1; Point c(d);
    segment_get_vol_centroid({p, q}, Geom_type::CARTESIAN, &v, &c);
    bool mid = c.dim() == d; for (int k = 0; k < d; k++) mid = mid && close_(c[k], (p[k] + q[k]) / 2);
    check(close_(v, std::sqrt(l2), 1e-6), "segment-length", "length %g true %g", v, std::sqrt(l2));
    check(mid, "segment-midpoint", "centroid %g", c[0]);
    if (d == 1) {
      double r0 = std::fabs(p[0]), r1 = r0 + std::fabs(q[0]), w; Point c1(1);
      Point a(1), b(1); a[0] = r0; b[0] = r1;
      segment_get_vol_centroid({a, b}, Geom_type::SPHERICAL, &w, &c1);
      double W = 4 * M_PI * (r1 * r1 * r1 - r0 * r0 * r0) / 3;
      check(close_(w, W, 1e-6), "shell-volume", "volume %g true %g (%g,%g)", w, W, r0, r1);
      check(close_(c1[0], (r0 + r1) / 2), "segment-midpoint", "spherical centroid %g", c1[0]);
      double ar; face1d_get_area({a}, Geom_type::SPHERICAL, &ar);
      check(close_(ar, 4 * M_PI * r0 * r0, 1e-6), "sphere-area", "area %g at %g", ar, r0);
      face1d_get_area({a}, Geom_type::CARTESIAN, &ar);
      check(ar == 1.0, "face1d-area", "area %g", ar);
    }
  }
  return done();
}
