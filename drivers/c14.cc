// C14: cached geometry after updates and recomputed geometry at any time, against a fresh mesh at the same coordinates
#include "subcells.hh"
static bool eq(Point const &a, Point const &b) { if (a.dim() != b.dim()) return false; for (int d = 0; d < a.dim(); d++) if (!drv::close_(a[d], b[d])) return false; return true; }
#define SAME(x, key) drv::check(drv::close_(m.x, f.x), key, "%s: " #x " of %d is %.17g, a fresh mesh has %.17g", when, i, m.x, f.x)
#define SAMEP(x, key) drv::check(eq(m.x, f.x), key, "%s: " #x " of %d is %g, a fresh mesh has %g (first component)", when, i, m.x[0], f.x[0])
// cached values of m (or recomputed: rec) against those of the fresh mesh f
static void same(Mesh &m, Mesh &f, int dim, const char *when, bool rec) {
  for (int i = 0; i < (int)m.num_cells<ET::ALL>(); i++) {
    if (rec) { drv::check(drv::close_(m.cell_volume(i, true), f.cell_volume(i)) && eq(m.cell_centroid(i, true), f.cell_centroid(i)), "cell", "%s: recomputed volume or centroid of cell %d", when, i); }
    else { SAME(cell_volume(i), "cell"); SAMEP(cell_centroid(i), "cell"); }
  }
  for (int i = 0; i < (int)m.num_faces<ET::ALL>(); i++) {
    V fc; m.face_get_cells(i, ET::ALL, &fc);
    if (rec) {
      drv::check(drv::close_(m.face_area(i, true), f.face_area(i)) && eq(m.face_centroid(i, true), f.face_centroid(i)), "face", "%s: recomputed area or centroid of face %d", when, i);
      if (f.face_area(i) > 0) drv::check(eq(m.face_normal(i, true), f.face_normal(i)), "face", "%s: recomputed normal of face %d", when, i);
      for (int c : fc) { int o1 = 0, o2 = 0; drv::check(eq(m.face_normal(i, true, c, &o1), f.face_normal(i, false, c, &o2)) && o1 == o2, "face", "%s: recomputed normal of face %d seen from cell %d", when, i, c); }
    } else { SAME(face_area(i), "face"); SAMEP(face_centroid(i), "face"); if (f.face_area(i) > 0) SAMEP(face_normal(i), "face"); for (int c : fc) { SAMEP(face_normal(i, false, c), "face"); } }
  }
  for (int i = 0; i < (int)m.num_edges<ET::ALL>(); i++) {
    int a, b; m.edge_get_nodes(i, &a, &b);
    if (rec) drv::check(drv::close_(m.edge_length(i, true), f.edge_length(i)) && eq(m.edge_vector(i, true), f.edge_vector(i)) && eq(m.edge_vector(i, true, b), f.edge_vector(i, false, b)), "edge", "%s: recomputed length or vector of edge %d", when, i);
    else { SAME(edge_length(i), "edge"); SAMEP(edge_vector(i), "edge"); SAMEP(edge_vector(i, false, a), "edge"); SAMEP(edge_vector(i, false, b), "edge"); }
    SAMEP(edge_centroid(i), "edge");
  }
  for (int i = 0; i < (int)m.num_sides<ET::ALL>(); i++) {
    if (rec) { drv::check(drv::close_(m.side_volume(i, true), f.side_volume(i)), "side", "%s: recomputed volume of side %d is %g, a fresh mesh has %g", when, i, m.side_volume(i, true), f.side_volume(i)); drv::check(eq(m.side_facet_normal(i, true), f.side_facet_normal(i)), "side", "%s: recomputed normal of side %d", when, i); }
    else { SAME(side_volume(i), "side"); SAMEP(side_facet_normal(i), "side"); }
  }
  for (int i = 0; i < (int)m.num_wedges<ET::ALL>(); i++) {
    if (rec) { drv::check(drv::close_(m.wedge_volume(i, true), f.wedge_volume(i)), "wedge", "%s: recomputed volume of wedge %d is %g, a fresh mesh has %g", when, i, m.wedge_volume(i, true), f.wedge_volume(i)); for (int k = 0; k < (dim > 1 ? 2 : 1); k++) drv::check(eq(m.wedge_facet_normal(i, k, true), f.wedge_facet_normal(i, k)), "wedge", "%s: recomputed normal %d of wedge %d", when, k, i); }
    else { SAME(wedge_volume(i), "wedge"); for (int k = 0; k < (dim > 1 ? 2 : 1); k++) { SAMEP(wedge_facet_normal(i, k), "wedge"); } }
  }
  for (int i = 0; i < (int)m.num_corners<ET::ALL>(); i++) {
    if (rec) drv::check(drv::close_(m.corner_volume(i, true), f.corner_volume(i)), "corner", "%s: recomputed volume of corner %d is %g, a fresh mesh has %g", when, i, m.corner_volume(i, true), f.corner_volume(i));
    else SAME(corner_volume(i), "corner");
  }
}
// a copy of all values that are not asked to be recomputed
static std::vector<double> snap(Mesh &m, int dim) {
  std::vector<double> r; auto P = [&](Point const &p) { for (int d = 0; d < p.dim(); d++) r.push_back(p[d]); };
  for (int i = 0; i < (int)m.num_cells<ET::ALL>(); i++) { r.push_back(m.cell_volume(i)); P(m.cell_centroid(i)); }
  for (int i = 0; i < (int)m.num_faces<ET::ALL>(); i++) { r.push_back(m.face_area(i)); P(m.face_centroid(i)); }
  for (int i = 0; i < (int)m.num_sides<ET::ALL>(); i++) { r.push_back(m.side_volume(i)); P(m.side_facet_normal(i)); }
  for (int i = 0; i < (int)m.num_corners<ET::ALL>(); i++) r.push_back(m.corner_volume(i));
  return r;
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  drv::Rng g(drv::seed() * 5 + 14); int N = drv::thorough() ? 150 : 36;
  { Quiet q;
    for (int t = 0; t < N; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 4 == 1; o.seed = t + 11 * drv::seed(); o.jit = 0; bool subs = t % 3 != 2;
      drv::at("mesh %dD %dx%d ghosts %d seed %d%s", o.dim, o.nx, o.ny, o.ghosts, o.seed, subs ? " with subcells" : "");
      Desc d = make(o); TestMesh m(d, true, true, subs, subs, subs);
      for (int round = 0; round < 3; round++) {
        // an affine map and small moves keep the cells valid
        double a = g.real(.5, 2), b = g.real(-.4, .4); double sh = g.real(-3, 3); std::vector<double> before = snap(m, o.dim);
        for (int n = 0; n < d.nn(); n++) { X3 x = m.d.X[n]; X3 y{{a * x[0] + b * x[1] + sh, x[1] + (o.dim == 2 ? g.real(-.05, .05) : 0), x[2] * (1 + .2 * round) + .1 * x[0]}}; if (n % 2) m.node_set_coordinates(n, y.data()); else m.node_set_coordinates(n, o.dim == 2 ? Point(y[0], y[1]) : Point(y[0], y[1], y[2])); }
        Desc e = d; e.X = m.d.X; TestMesh f(e, true, true, subs, subs, subs);
        same(m, f, o.dim, "moved, recomputing", true);
        drv::check(snap(m, o.dim) == before, "cache", "asking for recomputed values changed the stored ones");
        m.update_geometric_quantities(); same(m, f, o.dim, "updated", false); same(m, f, o.dim, "updated, recomputing", true);
        if (g.below(2)) { m.update_geometric_quantities(); same(m, f, o.dim, "updated twice", false); }
      }
    }
    for (int t = 0; t < N / 2; t++) {
      bool sph = t % 2; int n = 2 + g.below(6); std::vector<double> X; double x = g.real(0, 1); for (int i = 0; i < n; i++) { X.push_back(x); x += g.real(.2, 1); }
      auto G = sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN;
      drv::at("line of %d nodes", n); Mesh_simple m(X, MPI_COMM_WORLD, nullptr, true, true, true, true, true, 0, 0, 0, false, Partitioner_type::INDEX, G);
      for (int round = 0; round < 3; round++) {
        double s = g.real(.5, 2); for (int i = 0; i < n; i++) { X[i] *= s; m.node_set_coordinates(i, &X[i]); }
        Mesh_simple f(X, MPI_COMM_WORLD, nullptr, true, true, true, true, true, 0, 0, 0, false, Partitioner_type::INDEX, G);
        same(m, f, 1, "moved, recomputing", true); m.update_geometric_quantities(); same(m, f, 1, "updated", false); same(m, f, 1, "updated, recomputing", true);
      }
      int nx = 1 + g.below(3), ny = 1 + g.below(2); drv::at("brick %dx%dx1", nx, ny);
      Mesh_simple b(0., 0., 0., 1., 1., 1., nx, ny, 1, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX), fb(0., 0., 0., 2., 3., 1.5, nx, ny, 1, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX);
      for (int v = 0; v < (int)b.num_nodes(); v++) { Point p(3); fb.node_get_coordinates(v, &p); b.node_set_coordinates(v, p); }
      same(b, fb, 3, "moved, recomputing", true); b.update_geometric_quantities(); same(b, fb, 3, "updated", false);
    } }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
