// C02: 1D meshes against the chain of the given coordinates
#include "meshes.hh"
using namespace tmesh;
static std::vector<int> srt(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static double vol(double a, double b, bool sph) { return sph ? 4. / 3 * M_PI * (b * b * b - a * a * a) : b - a; }
static double area(double x, bool sph) { return sph ? 4 * M_PI * x * x : 1; }
static void chain(std::vector<double> X, bool sph, bool subs, drv::Rng &g) {
  int n = X.size(), nc = n - 1;
  drv::at("%s line of %d nodes from %.17g to %.17g%s", sph ? "spherical" : "cartesian", n, X[0], X[nc], subs ? " with sides, wedges and corners" : "");
  Mesh_simple m(X, MPI_COMM_WORLD, nullptr, true, subs, subs, subs, subs, 0, 0, 0, false, Partitioner_type::INDEX, sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN);
  if (!drv::check((int)m.num_cells<ET::ALL>() == nc && (int)m.num_nodes<ET::ALL>() == n && (int)m.num_faces<ET::ALL>() == n && (int)m.num_edges<ET::ALL>() == (subs ? n : 0) && m.space_dimension() == 1 && m.manifold_dimension() == 1, "counts", "%d cells %d nodes %d faces %d edges", (int)m.num_cells<ET::ALL>(), (int)m.num_nodes<ET::ALL>(), (int)m.num_faces<ET::ALL>(), (int)m.num_edges<ET::ALL>())) return;
  std::vector<int> r, q; std::vector<dir_t> dr;
  typedef std::vector<int> V;
  auto topo = [&]() {
    for (int v = 0; v < n; v++) {
      Point p(1); double x; m.node_get_coordinates(v, &p); m.node_get_coordinates(v, &x);
      drv::check(p[0] == X[v] && x == X[v] && p.dim() == 1, "coordinates", "node %d at %g", v, p[0]);
      V want; if (v > 0) want.push_back(v - 1); if (v < nc) want.push_back(v);
      for (ET t : {ET::ALL, ET::PARALLEL_OWNED}) {
        m.node_get_cells(v, t, &r); drv::check(srt(r) == want, "node-cells", "node %d: %s", v, drv::show(r).c_str());
        m.face_get_cells(v, t, &r); drv::check(srt(r) == want, "face-cells", "face %d: %s", v, drv::show(r).c_str());
        m.node_get_faces(v, t, &r); drv::check(r == V{v}, "node-faces", "node %d: %s", v, drv::show(r).c_str());
        for (int c : want) { m.node_get_cell_faces(v, c, t, &r); drv::check(r == V{v}, "node-cell-faces", "node %d cell %d: %s", v, c, drv::show(r).c_str()); }
      }
      m.face_get_nodes(v, &r); drv::check(r == V{v}, "face-nodes", "face %d: %s", v, drv::show(r).c_str());
      if (subs) {
        int a = -1, b = -1; m.edge_get_nodes(v, &a, &b); drv::check(a == v && b == v, "edge-nodes", "edge %d", v);
      }
    }
    for (int c = 0; c < nc; c++) {
      m.cell_get_nodes(c, &r); drv::check(r == V({c, c + 1}), "cell-nodes", "cell %d: %s", c, drv::show(r).c_str());
      for (int o = 0; o < 2; o++) { m.cell_get_faces_and_dirs(c, &r, &dr, o); m.cell_get_faces(c, &q, o); drv::check(r == V({c, c + 1}) && q == r && dr.size() == 2 && dr[0] == -1 && dr[1] == 1, "cell-faces", "cell %d: %s", c, drv::show(r).c_str()); }
      V want; if (c > 0) want.push_back(c - 1); if (c + 1 < nc) want.push_back(c + 1);
      for (ET t : {ET::ALL, ET::PARALLEL_OWNED}) {
        m.cell_get_face_adj_cells(c, t, &r); drv::check(t == ET::ALL ? r == want : srt(r) == want, "face-adjacent", "cell %d: %s", c, drv::show(r).c_str());
        m.cell_get_node_adj_cells(c, t, &r); drv::check(srt(r) == want, "node-adjacent", "cell %d: %s", c, drv::show(r).c_str());
      }
      if (subs) { m.cell_get_edges(c, &r); drv::check(srt(r) == V({c, c + 1}), "cell-edges", "cell %d: %s", c, drv::show(r).c_str()); }
    }
  };
  auto geom = [&](const char *w) {
    double sum = 0, size = std::fabs(X[nc] - X[0]) + std::fabs(X[0]);
    for (int c = 0; c < nc; c++) {
      double v = m.cell_volume(c), x = m.cell_centroid(c)[0]; sum += v; double want = vol(X[c], X[c + 1], sph);
      drv::check(drv::close_(v, want, sph ? 1e-6 * size * size * size : 1e-9 * size), "volume", "%s: volume of cell %d (%.17g to %.17g) is %.17g, want %.17g", w, c, X[c], X[c + 1], v, want);
      drv::check(drv::close_(v, m.cell_volume(c, true), 1e-9), "volume", "%s: recomputed volume differs", w);
      drv::check(x > X[c] && x < X[c + 1] && (sph || drv::close_(x, (X[c] + X[c + 1]) / 2, size)), "centroid", "%s: centroid of cell %d is %g", w, c, x);
    }
    drv::check(drv::close_(sum, vol(X[0], X[nc], sph), 1e-9, 1e-7), "volume", "%s: volumes add to %g, want %g", w, sum, vol(X[0], X[nc], sph));
    for (int f = 0; f < n; f++) {
      drv::check(drv::close_(m.face_area(f), area(X[f], sph), 1e-12), "area", "%s: area of face %d is %g", w, f, m.face_area(f));
      drv::check(m.face_centroid(f).dim() == 1 && m.face_centroid(f)[0] == X[f], "face-centroid", "%s: centroid of face %d is %g, node is at %g", w, f, m.face_centroid(f)[0], X[f]);
      for (int c = f - 1; c <= f; c++) if (c >= 0 && c < nc) {
        int o = 0; double nr = m.face_normal(f, false, c, &o)[0], want = (c == f ? -1 : 1) * area(X[f], sph);
        drv::check(drv::close_(nr, want, 1e-12) && o == (c == f ? -1 : 1), "normal", "%s: normal of face %d seen from cell %d is %g", w, f, c, nr);
      }
      if (area(X[f], sph) > 0) drv::check(drv::close_(m.face_normal(f)[0], area(X[f], sph), 1e-12), "normal", "%s: natural normal of face %d is %g", w, f, m.face_normal(f)[0]);
    }
  };
  topo(); geom("initial");
  // move nodes, keeping the order
  for (int t = 0; t < 3; t++) {
    int v = g.below(n); double lo = v ? X[v - 1] : (sph ? 0 : X[0] - 1), hi = v < nc ? X[v + 1] : X[nc] + 1; X[v] = lo + (hi - lo) * g.real(.2, .8);
    if (t % 2) { Point p(1); p.set(X[v]); m.node_set_coordinates(v, p); } else m.node_set_coordinates(v, &X[v]);
  }
  topo(); m.update_geometric_quantities(); geom("after moving");
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  drv::Rng g(drv::seed() * 13 + 2); int N = drv::thorough() ? 400 : 80;
  { Quiet q;
    for (int t = 0; t < N; t++) {
      int n = t < 12 ? 2 + t % 6 : 2 + g.below(40); bool sph = t % 2; double x = sph ? (t % 4 == 1 ? 0 : g.real(0, 2)) : g.real(-5, 5);
      std::vector<double> X; for (int k = 0; k < n; k++) { X.push_back(x); x += t % 3 == 0 ? .5 : g.real(.05, 2); }
      chain(X, sph, t % 5 > 2, g);
    } }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
