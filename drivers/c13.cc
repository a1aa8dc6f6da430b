// C13: volumes, coordinates and normals of sides, wedges and corners
#include "subcells.hh"
static double tet(Point a, Point b, Point c, Point d) { return ((b - a) ^ (c - a)) * (d - a) / 6; }
static double tri(Point a, Point b, Point c) { return ((b - a) ^ (c - a))[0] / 2; }
static bool eq(Point const &a, Point const &b, double sc = 1) { if (a.dim() != b.dim()) return false; for (int d = 0; d < a.dim(); d++) if (!drv::close_(a[d], b[d], sc)) return false; return true; }
static bool eqv(std::vector<Point> const &a, std::vector<Point> const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
static double shell(double a, double b, bool sph) { return sph ? 4. / 3 * M_PI * std::fabs(b * b * b - a * a * a) : std::fabs(b - a); }
static void mesh(Mesh &m, int dim, bool sph) {
  int nc = m.num_cells<ET::ALL>();
  for (int c = 0; c < nc; c++) {
    V S, K; m.cell_get_sides(c, &S); m.cell_get_corners(c, &K); double sum = 0, ksum = 0; Point cen = m.cell_centroid(c); V cn; m.cell_get_nodes(c, &cn);
    for (int s : S) {
      double v = m.side_volume(s); sum += v; drv::check(v > 0, "positive", "volume of side %d is %g", s, v);
      int f = m.side_get_face(s), e = m.side_get_edge(s); Point fc = m.face_centroid(f), p[2], x(dim); for (int i = 0; i < 2; i++) { p[i].set(dim, &std::vector<double>(3, 0.)[0]); m.node_get_coordinates(m.side_get_node(s, i), &p[i]); }
      Point ec = dim > 1 ? m.edge_centroid(e) : p[0]; if (dim > 1) drv::check(eq(ec, (p[0] + p[1]) / 2.), "edge-centre", "edge %d", e);
      std::vector<Point> sc, want; for (bool pos : {false, true}) {
        if (dim == 3) want = {p[0], p[1], fc, cen}; else if (dim == 2) want = {p[0], p[1], cen}; else { want = {p[0], cen}; if (pos && m.side_get_node(s, 0) == cn[1]) std::swap(want[0], want[1]); }
        m.side_get_coordinates(s, &sc, pos); drv::check(eqv(sc, want), "side-coordinates", "side %d %s", s, pos ? "positive order" : "fixed order");
        if (pos) { double cv = dim == 3 ? tet(sc[0], sc[1], sc[2], sc[3]) : dim == 2 ? tri(sc[0], sc[1], sc[2]) : sph ? 4. / 3 * M_PI * (pow(sc[1][0], 3) - pow(sc[0][0], 3)) : sc[1][0] - sc[0][0]; drv::check(drv::close_(cv, v, 1e-6), "side-volume", "side %d has volume %g, its coordinates give %g", s, v, cv); }
      }
      Point n = m.side_facet_normal(s), mid, en; int ori; Point fn = m.face_normal(f, false, c, &ori);
      if (dim == 3) { en = -0.5 * ((p[1] - p[0]) ^ (fc - p[0])); mid = 0.5 * ((fc - ec) ^ (cen - ec)); }
      else if (dim == 2) { Point d = p[1] - p[0], q = cen - ec; en.set(d[1], -d[0]); mid.set(q[1], -q[0]); }
      else { en = fn; }
      drv::check(eq(n, en), "side-normal", "normal of side %d is %g, want %g (first component)", s, n[0], en[0]);
      drv::check(n * fn >= 0 && n * (cen - fc) <= 0, "side-normal", "normal of side %d does not point out of the cell", s);
      for (int i = 0; i < 2; i++) {
        int w = m.side_get_wedge(s, i); double wv = m.wedge_volume(w); drv::check(drv::close_(wv, v / 2, 1e-9), "wedge-volume", "wedge %d has volume %g, its side %g", w, wv, v);
        std::vector<Point> wc; for (bool pos : {false, true}) {
          if (dim == 3) want = {p[i], ec, fc, cen}; else if (dim == 2) want = {p[i], fc, cen}; else want = {p[i], cen};
          if (pos) { if (dim > 1 && i) std::swap(want[1], want[2]); if (dim == 1 && m.wedge_get_node(w) == cn[1]) std::swap(want[0], want[1]); }
          m.wedge_get_coordinates(w, &wc, pos); drv::check(eqv(wc, want), "wedge-coordinates", "wedge %d %s", w, pos ? "positive order" : "fixed order");
          if (pos) { double cv = dim == 3 ? tet(wc[0], wc[1], wc[2], wc[3]) : dim == 2 ? tri(wc[0], wc[1], wc[2]) : wc[1][0] - wc[0][0]; drv::check(dim == 1 ? cv > 0 : drv::close_(cv, wv, 1e-6), "wedge-order", "wedge %d has volume %g, its coordinates in positive order give %g", w, wv, cv); }
        }
        drv::check(eq(m.wedge_facet_normal(w, 0), en / 2.), "wedge-normal", "outer normal of wedge %d", w);
        if (dim > 1) { Point q = m.wedge_facet_normal(w, 1), wm = i ? -mid : mid; drv::check(eq(q, wm), "wedge-normal", "middle normal of wedge %d is %g %g, want %g %g", w, q[0], q[1], wm[0], wm[1]); }
      }
    }
    for (int k : K) {
      double v = m.corner_volume(k), w = 0; ksum += v; V cw; m.corner_get_wedges(k, &cw); for (int x : cw) w += m.wedge_volume(x); drv::check(drv::close_(v, w, 1e-9) && v > 0, "corner-volume", "corner %d has volume %g, its wedges %g", k, v, w);
      std::vector<Point> cc; m.corner_get_coordinates(k, &cc); Point p(dim); m.node_get_coordinates(m.corner_get_node(k), &p);
      if (dim == 1) { drv::check(cc.size() == 2 && cc[0][0] < cc[1][0] && (eq(cc[0], p) || eq(cc[1], p)) && (eq(cc[0], cen) || eq(cc[1], cen)), "corner-coordinates", "corner %d", k); }
      else { bool hp = false, hc = false; for (auto &x : cc) { hp |= eq(x, p); hc |= eq(x, cen); } drv::check(hp && hc, "corner-coordinates", "corner %d lacks its node or cell centre", k); }
      if (dim == 2 && drv::check(cc.size() == 4 && eq(cc[0], p) && eq(cc[2], cen), "corner-coordinates", "corner %d", k)) { double a = tri(cc[0], cc[1], cc[2]) + tri(cc[0], cc[2], cc[3]); drv::check(drv::close_(a, v, 1e-6), "corner-coordinates", "corner %d has volume %g, its coordinates %g", k, v, a); }
      if (dim == 3) drv::check(cc.size() == 2 + cw.size(), "corner-coordinates", "corner %d has %d points and %d wedges", k, (int)cc.size(), (int)cw.size());
      if (dim == 3) {
        std::vector<Point> pc; std::vector<std::array<int, 3>> fp; m.corner_get_facetization(k, &pc, &fp); double t = 0; bool ok = fp.size() == 2 * cw.size();
        for (auto &q : fp) { for (int i : q) ok &= i >= 0 && i < (int)pc.size(); if (!ok) break; t += tet(pc[q[0]], pc[q[1]], pc[q[2]], cen) * -1; }
        if (drv::check(ok, "corner-facets", "corner %d", k)) { double u = 0; for (auto &q : fp) u += (pc[q[0]] - p) * ((pc[q[1]] - p) ^ (pc[q[2]] - p)) / 6; drv::check(drv::close_(u, v, 1e-6), "corner-facets", "facets of corner %d enclose %g, volume %g", k, u, v); }
      }
    }
    double cv = m.cell_volume(c);
    drv::check(drv::close_(sum, cv, 1e-6), "sum", "sides of cell %d add to %g, cell %g", c, sum, cv); drv::check(drv::close_(ksum, cv, 1e-6), "sum", "corners of cell %d add to %g, cell %g", c, ksum, cv);
  }
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  { Quiet q; all_meshes(drv::thorough() ? 300 : 60, mesh); }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
