// C06: containment tests of the real Geometry.cc against independent classification.
#include "shapes.hh"
using namespace drv;
using namespace JaliGeometry;

// winding number of a polygon around a point not on its boundary
static int winding(std::vector<A3> const& p, double x, double y) {
  double s = 0;
  size_t n = p.size();
  for (size_t i = 0; i < n; i++) {
    double ax = p[i][0] - x, ay = p[i][1] - y, bx = p[(i + 1) % n][0] - x, by = p[(i + 1) % n][1] - y;
    s += std::atan2(ax * by - ay * bx, ax * bx + ay * by);
  }
  return (int)std::lround(s / (2 * M_PI));
}
static double bdist(std::vector<A3> const& p, double x, double y) {
  double d = 1e300; size_t n = p.size();
  for (size_t i = 0; i < n; i++) {
    double ax = p[i][0], ay = p[i][1], ux = p[(i + 1) % n][0] - ax, uy = p[(i + 1) % n][1] - ay;
    double l = ux * ux + uy * uy, t = l > 0 ? ((x - ax) * ux + (y - ay) * uy) / l : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    double ex = x - ax - t * ux, ey = y - ay - t * uy;
    d = std::min(d, std::sqrt(ex * ex + ey * ey));
  }
  return d;
}
int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(seed() + 5);
  int reps = thorough() ? 2000 : 120;
  for (auto const& base : shapes())
    for (int it = 0; it < reps; it++) {
      Mat M = randmat(g);
      if (it == 0) M = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 0, 0}}};
      Poly p = mapped(base, M);
      // the order of the faces is arbitrary
      for (size_t k = p.f.size(); k > 1; k--) std::swap(p.f[k - 1], p.f[g.below(k)]);
      Args a = args(p);
      double V; A3 C; measures(p, V, C);
      for (int q = 0; q < 12; q++) {
        A3 x;
        int nin = -1;
        // inside: convex combination of the nodes; outside: beyond one face plane
        if (q % 2 == 0) {
          double s = 0; x = {{0, 0, 0}};
          std::vector<double> w; for (size_t i = 0; i < p.v.size(); i++) { w.push_back(0.02 + (q == 0 ? 1 : g.real() * g.real() * g.real())); s += w.back(); }
          for (size_t i = 0; i < p.v.size(); i++) for (int k = 0; k < 3; k++) x[k] += w[i] / s * p.v[i][k];
          nin = 1;
        } else {
          auto& f = p.f[g.below(p.f.size())];
          double s = 0; x = {{0, 0, 0}};
          for (int i : f) { double w = 0.02 + g.real(); s += w; for (int k = 0; k < 3; k++) x[k] += w * p.v[i][k]; }
          A3 n = crs(sub(p.v[f[1]], p.v[f[0]]), sub(p.v[f[2]], p.v[f[0]]));
          double h = g.real(0.01, q < 6 ? 0.2 : 3) / std::sqrt(dt(n, n));
          for (int k = 0; k < 3; k++) x[k] = x[k] / s + h * n[k];
          nin = 0;
        }
        at("point (%.12g %.12g %.12g) %s of %s", x[0], x[1], x[2], nin ? "inside" : "outside", show3(p).c_str());
        if (it == 0 && q < 2) sample("%s", cur);
        bool r = point_in_polyhed(P3(x), a.cc, a.nf, a.nfn, a.fc);
        check(r == (nin == 1), nin ? "polyhedron-inside-missed" : "polyhedron-outside-accepted", "reported %d", (int)r);
      }
    }
  // simple polygons: star-shaped around a point, plus fixed non-convex ones on a grid (horizontal and vertical edges, vertices level with the point)
  std::vector<std::vector<A3>> fixed = {
    {{{0, 0, 0}}, {{4, 0, 0}}, {{4, 4, 0}}, {{0, 4, 0}}},
    {{{0, 0, 0}}, {{4, 0, 0}}, {{4, 4, 0}}, {{2, 2, 0}}, {{0, 4, 0}}},
    {{{0, 0, 0}}, {{6, 0, 0}}, {{6, 6, 0}}, {{4, 6, 0}}, {{4, 2, 0}}, {{2, 2, 0}}, {{2, 6, 0}}, {{0, 6, 0}}},
    {{{2, 0, 0}}, {{4, 2, 0}}, {{2, 4, 0}}, {{0, 2, 0}}},
    {{{0, 0, 0}}, {{3, 0, 0}}, {{3, 1, 0}}, {{1, 1, 0}}, {{1, 2, 0}}, {{3, 2, 0}}, {{3, 3, 0}}, {{0, 3, 0}}},
    {{{0, 0, 0}}, {{5, 1, 0}}, {{1, 2, 0}}, {{5, 3, 0}}, {{0, 4, 0}}}};
  for (auto f : fixed)
    for (int rev = 0; rev < 2; rev++) {
      for (size_t rot = 0; rot < f.size(); rot++) {
        std::rotate(f.begin(), f.begin() + 1, f.end());
        std::vector<Point> c; for (auto& x : f) c.push_back(Point(x[0], x[1]));
        for (double x = -1; x <= 7; x += 0.5)
          for (double y = -1; y <= 7; y += 0.5) {
            if (bdist(f, x, y) < 1e-9) continue;
            at("grid polygon with %d corners (first %g %g, reversed %d) point (%g %g)", (int)f.size(), f[0][0], f[0][1], rev, x, y);
            bool in = winding(f, x, y) != 0, r = point_in_polygon(Point(x, y), c);
            check(r == in, in ? "polygon-inside-missed" : "polygon-outside-accepted", "reported %d", (int)r);
          }
      }
      std::reverse(f.begin(), f.end());
    }
  for (int n = 3; n <= 9; n++)
    for (int it = 0; it < reps; it++) {
      std::vector<A3> f; double th = g.real(0, 6.28), cx = g.real(-3, 3), cy = g.real(-3, 3);
      for (int i = 0; i < n; i++) { double r = g.real(0.3, 3), t = th + 2 * M_PI * (i + 0.8 * g.real()) / n; f.push_back({{cx + r * cos(t), cy + r * sin(t), 0}}); }
      if (it % 2) std::reverse(f.begin(), f.end());
      std::vector<Point> c; for (auto& x : f) c.push_back(Point(x[0], x[1]));
      std::string sh; for (auto& x : f) sh += " (" + std::to_string(x[0]) + " " + std::to_string(x[1]) + ")";
      for (int q = 0; q < 20; q++) {
        double x = cx + g.real(-3.5, 3.5), y = cy + g.real(-3.5, 3.5);
        if (q < n) y = f[q][1];                       // level with a corner
        if (bdist(f, x, y) < 1e-7) continue;
        at("polygon%s point (%.12g %.12g)", sh.c_str(), x, y);
        bool in = winding(f, x, y) != 0, r = point_in_polygon(Point(x, y), c);
        check(r == in, in ? "polygon-inside-missed" : "polygon-outside-accepted", "reported %d", (int)r);
      }
    }
  return done();
}
