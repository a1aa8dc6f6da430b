// C04: exercises every Point operation of the real header against componentwise arithmetic.
#include "drv.hh"
#include "Point.hh"
using JaliGeometry::Point;
using namespace drv;

struct M { int d; double x[3]; };
static Point mk(M const& m) { Point p(m.d); for (int k = 0; k < m.d; k++) p[k] = m.x[k]; return p; }
static std::string s(M const& m) { std::string r = "("; for (int k = 0; k < m.d; k++) r += std::to_string(m.x[k]) + " "; return r + ")"; }
static bool same(Point const& p, M const& m) {
  if (p.dim() != m.d) return false;
  for (int k = 0; k < m.d; k++) if (!close_(p[k], m.x[k], 1.0, 1e-12)) return false;
  return true;
}
static std::string sp(Point const& p) { std::string r = std::to_string(p.dim()) + "D("; for (int k = 0; k < p.dim(); k++) r += std::to_string(p[k]) + " "; return r + ")"; }
#define CK(expr, want, what) do { Point r_ = (expr); check(same(r_, want), what, "got %s want %s", sp(r_).c_str(), s(want).c_str()); } while (0)
#define KEEP(what) do { check(same(p, a) && same(q, b), "operands-unchanged", what); } while (0)

int main(int argc, char **argv) {
  init(argc, argv);
  std::vector<double> vals = {0.0, 1.0, -2.0, 3.5, -0.25};
  Rng rng(seed());
  int reps = thorough() ? 20000 : 1500;
  for (int d = 1; d <= 3; d++)
    for (int it = 0; it < reps; it++) {
      M a, b; a.d = b.d = d;
      for (int k = 0; k < 3; k++) {
        a.x[k] = it < 200 ? vals[rng.below(5)] : rng.real(-10, 10);
        b.x[k] = it < 200 ? vals[rng.below(5)] : rng.real(-10, 10);
      }
      double r = it < 200 ? vals[1 + rng.below(4)] : rng.real(0.1, 5);
      at("d=%d p=%s q=%s r=%g", d, s(a).c_str(), s(b).c_str(), r);
      Point p = mk(a), q = mk(b);
      M w; w.d = d;
      for (int k = 0; k < d; k++) w.x[k] = a.x[k] + b.x[k];
      CK(p + q, w, "operator+"); { Point t(p); Point& u = (t += q); CK(t, w, "operator+="); check(&u == &t, "operator+=-return", "not *this"); } KEEP("+");
      for (int k = 0; k < d; k++) w.x[k] = a.x[k] - b.x[k];
      CK(p - q, w, "operator-"); { Point t(p); t -= q; CK(t, w, "operator-="); } KEEP("-");
      for (int k = 0; k < d; k++) w.x[k] = -a.x[k];
      CK(-p, w, "unary-minus"); KEEP("unary -");
      for (int k = 0; k < d; k++) w.x[k] = a.x[k] * r;
      CK(p * r, w, "operator*-scalar"); CK(r * p, w, "operator*-scalar"); { Point t(p); t *= r; CK(t, w, "operator*="); } KEEP("*");
      for (int k = 0; k < d; k++) w.x[k] = a.x[k] / r;
      CK(p / r, w, "operator/"); { Point t(p); t /= r; CK(t, w, "operator/="); } KEEP("/");
      // in-place scaling by one of the point's own coordinates
      for (int j = 0; j < d; j++) {
        for (int k = 0; k < d; k++) w.x[k] = a.x[k] * a.x[j];
        { Point t(p); t *= t[j]; CK(t, w, "operator*=-own-coordinate"); CK(p * p[j], w, "operator*-own-coordinate"); }
        if (a.x[j] != 0.0) {
          for (int k = 0; k < d; k++) w.x[k] = a.x[k] / a.x[j];
          { Point t(p); t /= t[j]; CK(t, w, "operator/=-own-coordinate"); }
        }
      }
      { Point t(p); t += t; for (int k = 0; k < d; k++) w.x[k] = 2 * a.x[k]; CK(t, w, "operator+=-self"); }
      { Point t(p); t -= t; for (int k = 0; k < d; k++) w.x[k] = 0; CK(t, w, "operator-=-self"); }
      double dp = 0; for (int k = 0; k < d; k++) dp += a.x[k] * b.x[k];
      check(close_(p * q, dp, 1, 1e-12), "dot", "got %g want %g", p * q, dp);
      double n2 = 0; for (int k = 0; k < d; k++) n2 += a.x[k] * a.x[k];
      check(close_(JaliGeometry::L22(p), n2, 1, 1e-12), "L22", "got %g want %g", JaliGeometry::L22(p), n2);
      check(close_(JaliGeometry::norm(p), std::sqrt(n2), 1, 1e-12), "norm", "got %g want %g", JaliGeometry::norm(p), std::sqrt(n2));
      KEEP("dot, norm");
      Point c = p ^ q;
      M x; x.d = d;
      if (d == 2) { check(c.dim() == 2 && close_(c[0], a.x[0] * b.x[1] - a.x[1] * b.x[0], 1, 1e-12), "cross2d", "got %s", sp(c).c_str()); }
      if (d == 3) {
        x.x[0] = a.x[1] * b.x[2] - a.x[2] * b.x[1]; x.x[1] = a.x[2] * b.x[0] - a.x[0] * b.x[2]; x.x[2] = a.x[0] * b.x[1] - a.x[1] * b.x[0];
        CK(c, x, "cross3d");
      }
      if (d == 1) check(c.dim() == 1, "cross1d", "dimension %d", c.dim());
      KEEP("^");
      { Point t(p); CK(t, a, "copy-constructor"); }
      { Point t; Point& u = (t = p); CK(t, a, "assignment"); check(&u == &t, "assignment-return", "not *this"); }
      { Point t(3); t = p; CK(t, a, "assignment"); t = t; CK(t, a, "self-assignment"); }
      { Point t(d == 1 ? 3 : 1); t.set(p); CK(t, a, "set-point"); }
      { Point t(d); t.set(a.x); CK(t, a, "set-array"); }
      { Point t(1); t.set(d, a.x); CK(t, a, "set-int-array"); }
      { Point t(d); t.set(r); M y; y.d = d; for (int k = 0; k < 3; k++) y.x[k] = r; CK(t, y, "set-value"); }
      if (d == 2) { CK(Point(a.x[0], a.x[1]), a, "constructor-xy"); Point t(3); t.set(a.x[0], a.x[1]); CK(t, a, "set-xy");
        Point u(p); M y = a; std::swap(y.x[0], y.x[1]); u.set(u[1], u[0]); CK(u, y, "set-xy-own-coordinates"); }
      if (d == 3) { CK(Point(a.x[0], a.x[1], a.x[2]), a, "constructor-xyz"); Point t(2); t.set(a.x[0], a.x[1], a.x[2]); CK(t, a, "set-xyz"); }
      Point z(d); for (int k = 0; k < d; k++) check(z[k] == 0.0, "constructor-int", "coordinate %d is %g", k, z[k]);
      check(z.dim() == d && p.is_valid() == 1, "dim", "dim %d valid %d", z.dim(), p.is_valid());
      check(p.x() == a.x[0] && p.y() == (d > 1 ? a.x[1] : 0.0) && p.z() == (d > 2 ? a.x[2] : 0.0), "xyz", "%g %g %g", p.x(), p.y(), p.z());
      KEEP("end");
      if (it < 3) sample("%s", cur);
    }
  return done();
}
