// Polyhedra and polygons with known measures, used by the geometry drivers.
#ifndef SHAPES_HH_
#define SHAPES_HH_
#include "drv.hh"
#include "Geometry.hh"
using JaliGeometry::Point;
typedef std::array<double, 3> A3;
struct Mat { double m[3][3]; A3 t; };
inline A3 app(Mat const& M, A3 const& p) { A3 r; for (int i = 0; i < 3; i++) { r[i] = M.t[i]; for (int j = 0; j < 3; j++) r[i] += M.m[i][j] * p[j]; } return r; }
inline double det(Mat const& M) {
  auto& m = M.m;
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
inline A3 sub(A3 a, A3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline A3 crs(A3 a, A3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double dt(A3 a, A3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline Point P3(A3 const& a) { return Point(a[0], a[1], a[2]); }
inline A3 from(Point const& p) { A3 r = {{0, 0, 0}}; for (int k = 0; k < p.dim(); k++) r[k] = p[k]; return r; }

struct Poly {
  std::string name;
  std::vector<A3> v;
  std::vector<std::vector<int>> f;   // faces, counterclockwise seen from outside
};
inline Poly tet() { return {"tet", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}}; }
inline Poly hex() {
  return {"hex", {{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}, {{0, 0, 1}}, {{1, 0, 1}}, {{1, 1, 1}}, {{0, 1, 1}}},
          {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}};
}
// prism over a regular n-gon, pyramid over it, and their mixed face sizes
inline Poly prism(int n) {
  Poly p; p.name = "prism" + std::to_string(n);
  std::vector<int> b, t;
  for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) p.v.push_back({{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), (double)k}});
  for (int i = 0; i < n; i++) { b.push_back(n - 1 - i); t.push_back(n + i); p.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); }
  p.f.insert(p.f.begin() + (n > 3 ? 1 : 0), b); p.f.push_back(t);
  return p;
}
inline Poly pyramid(int n, bool basefirst) {
  Poly p; p.name = "pyramid" + std::to_string(n) + (basefirst ? "b" : "e");
  std::vector<int> b;
  for (int i = 0; i < n; i++) p.v.push_back({{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0}});
  p.v.push_back({{0.1, -0.05, 1.2}});
  for (int i = 0; i < n; i++) { b.push_back(n - 1 - i); p.f.push_back({i, (i + 1) % n, n}); }
  if (basefirst) p.f.insert(p.f.begin(), b); else p.f.push_back(b);
  return p;
}
inline Poly octa() {
  return {"octahedron", {{{1, 0, 0}}, {{0, 1, 0}}, {{-1, 0, 0}}, {{0, -1, 0}}, {{0, 0, 1}}, {{0, 0, -1}}},
          {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}}};
}
inline Poly mapped(Poly p, Mat const& M) {
  for (auto& x : p.v) x = app(M, x);
  if (det(M) < 0) for (auto& f : p.f) std::reverse(f.begin(), f.end());
  return p;
}
// exact measures: signed sum over fans of every face from the origin point o
inline void measures(Poly const& p, double& vol, A3& cen) {
  vol = 0; cen = {{0, 0, 0}};
  A3 o = p.v[0];
  for (auto& f : p.f)
    for (size_t k = 1; k + 1 < f.size(); k++) {
      A3 a = p.v[f[0]], b = p.v[f[k]], c = p.v[f[k + 1]];
      double w = dt(crs(sub(a, o), sub(b, o)), sub(c, o)) / 6;
      vol += w;
      for (int i = 0; i < 3; i++) cen[i] += w * (o[i] + a[i] + b[i] + c[i]) / 4;
    }
  for (int i = 0; i < 3; i++) cen[i] /= vol;
}
inline std::vector<Poly> shapes() {
  std::vector<Poly> r = {tet(), hex(), octa()};
  for (int n = 3; n <= 6; n++) { r.push_back(prism(n)); r.push_back(pyramid(n, true)); r.push_back(pyramid(n, false)); }
  // a wedge-shaped hexahedron (planar faces): truncated pyramid
  Poly t = hex(); t.name = "frustum";
  for (int i = 4; i < 8; i++) { t.v[i][0] = 0.25 + 0.5 * t.v[i][0]; t.v[i][1] = 0.25 + 0.5 * t.v[i][1]; }
  r.push_back(t);
  return r;
}
struct Args { std::vector<Point> cc, fc; std::vector<unsigned int> nfn; unsigned int nf; };
inline Args args(Poly const& p) {
  Args a; a.nf = p.f.size();
  for (auto& x : p.v) a.cc.push_back(P3(x));
  for (auto& f : p.f) { a.nfn.push_back(f.size()); for (int i : f) a.fc.push_back(P3(p.v[i])); }
  return a;
}
inline Mat randmat(drv::Rng& g, double lo = -2, double hi = 2) {
  Mat M;
  do { for (int i = 0; i < 3; i++) { M.t[i] = g.real(-5, 5); for (int j = 0; j < 3; j++) M.m[i][j] = g.real(lo, hi); } } while (std::fabs(det(M)) < 0.2);
  return M;
}
inline std::string show3(Poly const& p) {
  std::string s = p.name + " nodes";
  for (auto& x : p.v) s += " (" + std::to_string(x[0]) + " " + std::to_string(x[1]) + " " + std::to_string(x[2]) + ")";
  return s;
}
#endif
