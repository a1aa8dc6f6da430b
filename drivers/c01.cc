// C01/C03: generated brick meshes against the integer lattice read off the node coordinates
#include "meshes.hh"
using namespace tmesh;
#ifdef C03_GEOMETRY
#define GEO drv::check
#define TOPO(ok, ...) (ok)
#else
#define GEO(ok, ...) (ok)
#define TOPO drv::check
#endif
typedef std::array<int, 3> I3;
static std::vector<int> srt(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static I3 dims(const I3 &a, const I3 &b) { return I3{{b[0] - a[0], b[1] - a[1], b[2] - a[2]}}; }

static void lattice(int nx, int ny, int nz, bool factory_box, drv::Rng &g) {
  double lo[3], h[3]; for (int d = 0; d < 3; d++) { lo[d] = factory_box ? g.below(9) - 4 : 0; h[d] = factory_box ? 0.25 * (1 + g.below(8)) : 1; }
  int n[3] = {nx, ny, nz};
  drv::at("brick %d x %d x %d from %g %g %g spacing %g %g %g", nx, ny, nz, lo[0], lo[1], lo[2], h[0], h[1], h[2]);
  Mesh_simple m(lo[0], lo[1], lo[2], lo[0] + nx * h[0], lo[1] + ny * h[1], lo[2] + nz * h[2], nx, ny, nz, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX);
  int nc = nx * ny * nz, nn = (nx + 1) * (ny + 1) * (nz + 1), nf = (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1);
  if (!drv::check(m.num_cells<ET::ALL>() == nc && m.num_nodes<ET::ALL>() == nn && m.num_faces<ET::ALL>() == nf && m.num_edges<ET::ALL>() == 0, "counts", "%d cells %d nodes %d faces", (int)m.num_cells<ET::ALL>(), (int)m.num_nodes<ET::ALL>(), (int)m.num_faces<ET::ALL>())) return;
  // position of each node
  std::vector<I3> P(nn); std::map<I3, int> at;
  for (int v = 0; v < nn; v++) {
    Point p(3); std::array<double, 3> q; m.node_get_coordinates(v, &p); m.node_get_coordinates(v, &q);
    for (int d = 0; d < 3; d++) {
      double r = (p[d] - lo[d]) / h[d]; P[v][d] = (int)std::lround(r);
      drv::check(drv::close_(p[d], lo[d] + P[v][d] * h[d]) && p[d] == q[d] && P[v][d] >= 0 && P[v][d] <= n[d], "node", "node %d coordinate %d is %g", v, d, p[d]);
    }
    drv::check(!at.count(P[v]), "node", "two nodes at the same place"); at[P[v]] = v;
  }
  // faces: by their nodes
  std::map<std::set<int>, int> faceof; std::vector<std::vector<int>> FN(nf), FC(nf); std::vector<I3> fmin(nf); std::vector<int> axis(nf);
  for (int f = 0; f < nf; f++) {
    m.face_get_nodes(f, &FN[f]);
    if (!TOPO(FN[f].size() == 4, "face-nodes", "face %d has %d nodes", f, (int)FN[f].size())) return;
    std::set<int> s(FN[f].begin(), FN[f].end());
    bool ok = s.size() == 4; for (int v : s) ok &= v >= 0 && v < nn; if (!TOPO(ok, "face-nodes", "face %d has nodes %s", f, drv::show(FN[f]).c_str())) return;
    I3 a = P[FN[f][0]], b = a; for (int v : s) for (int d = 0; d < 3; d++) { a[d] = std::min(a[d], P[v][d]); b[d] = std::max(b[d], P[v][d]); }
    I3 e = dims(a, b); int z = 0; for (int d = 0; d < 3; d++) if (e[d] == 0) { z++; axis[f] = d; }
    TOPO(z == 1 && e[0] + e[1] + e[2] == 2, "face-nodes", "face %d is not a lattice square", f);
    for (int k = 0; k < 4; k++) { I3 x = dims(P[FN[f][k]], P[FN[f][(k + 1) % 4]]); TOPO(std::abs(x[0]) + std::abs(x[1]) + std::abs(x[2]) == 1, "face-nodes", "nodes of face %d are not in cyclic order", f); }
    TOPO(!faceof.count(s), "face-nodes", "two faces with the same nodes"); faceof[s] = f; fmin[f] = a;
  }
  // cells
  static const int O[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  static const int S[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {0, 1, 2, 3}, {4, 5, 6, 7}};
  std::vector<I3> C(nc); std::map<I3, int> cellat; std::vector<std::vector<int>> CN(nc), CF(nc);
  for (int c = 0; c < nc; c++) {
    m.cell_get_nodes(c, &CN[c]);
    if (!TOPO(CN[c].size() == 8, "cell-nodes", "cell %d", c)) return;
    for (int v : CN[c]) if (!TOPO(v >= 0 && v < nn, "cell-nodes", "cell %d node %d", c, v)) return;
    C[c] = P[CN[c][0]]; cellat[C[c]] = c;
    for (int k = 0; k < 8; k++) { I3 p = {{C[c][0] + O[k][0], C[c][1] + O[k][1], C[c][2] + O[k][2]}}; TOPO(P[CN[c][k]] == p, "cell-nodes", "node %d of cell %d is not in the standard place", k, c); }
    for (int d = 0; d < 3; d++) TOPO(C[c][d] >= 0 && C[c][d] < n[d], "cell-nodes", "cell %d outside", c);
    TOPO(m.cell_get_type(c) == Cell_type::HEX, "cell-type", "cell %d", c);
  }
  if (!TOPO((int)cellat.size() == nc, "cell-nodes", "two cells at the same place")) return;
  for (int ord = 0; ord < 2; ord++) for (int c = 0; c < nc; c++) {
    std::vector<int> f, f1; std::vector<dir_t> dr; m.cell_get_faces_and_dirs(c, &f, &dr, ord); m.cell_get_faces(c, &f1, ord); CF[c] = f;
    TOPO(f == f1, "cell-faces", "with and without directions differ");
    if (!TOPO(f.size() == 6 && dr.size() == 6, "cell-faces", "cell %d has %d faces", c, (int)f.size())) return;
    for (int k = 0; k < 6; k++) {
      std::set<int> s; for (int q = 0; q < 4; q++) s.insert(CN[c][S[k][q]]);
      auto it = faceof.find(s); if (!TOPO(it != faceof.end() && it->second == f[k], "cell-faces", "face %d of cell %d is %d", k, c, f[k])) continue;
      // the normal of the face by its node order
      I3 a = dims(P[FN[f[k]][0]], P[FN[f[k]][1]]), b = dims(P[FN[f[k]][1]], P[FN[f[k]][2]]);
      I3 nr = {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
      int out = fmin[f[k]][axis[f[k]]] == C[c][axis[f[k]]] ? -1 : 1;
      TOPO(dr[k] == (dir_t)(nr[axis[f[k]]] * out), "cell-dirs", "direction of face %d in cell %d is %d", k, c, (int)dr[k]);
    }
  }
  // upward and sideways
  auto fcells = [&](int f) { std::vector<int> r; I3 a = fmin[f]; if (cellat.count(a)) r.push_back(cellat[a]); a[axis[f]]--; if (cellat.count(a)) r.push_back(cellat[a]); return srt(r); };
  for (int f = 0; f < nf; f++) { std::vector<int> r; m.face_get_cells(f, ET::ALL, &r); FC[f] = r; TOPO(srt(r) == fcells(f), "face-cells", "face %d: %s", f, drv::show(r).c_str()); r.clear(); m.face_get_cells(f, ET::PARALLEL_OWNED, &r); TOPO(srt(r) == fcells(f), "face-cells", "owned cells of face %d: %s", f, drv::show(r).c_str()); }
  for (int v = 0; v < nn; v++) {
    std::vector<int> r, w, fs, wf;
    for (int c = 0; c < nc; c++) if (std::count(CN[c].begin(), CN[c].end(), v)) w.push_back(c);
    for (int f = 0; f < nf; f++) if (std::count(FN[f].begin(), FN[f].end(), v)) wf.push_back(f);
    for (ET t : {ET::ALL, ET::PARALLEL_OWNED}) {
      m.node_get_cells(v, t, &r); TOPO(srt(r) == w, "node-cells", "node %d: %s", v, drv::show(r).c_str());
      m.node_get_faces(v, t, &fs); TOPO(srt(fs) == wf, "node-faces", "node %d: %s", v, drv::show(fs).c_str());
      for (int c : w) { std::vector<int> cf, want; m.node_get_cell_faces(v, c, t, &cf); for (int f : CF[c]) if (std::count(FN[f].begin(), FN[f].end(), v)) want.push_back(f); TOPO(srt(cf) == srt(want), "node-cell-faces", "node %d cell %d: %s", v, c, drv::show(cf).c_str()); }
    }
  }
  for (int c = 0; c < nc; c++) {
    std::vector<int> r, w, w1, inorder;
    for (int e = 0; e < nc; e++) if (e != c) { I3 a = dims(C[c], C[e]); int s = std::abs(a[0]) + std::abs(a[1]) + std::abs(a[2]), x = std::max({std::abs(a[0]), std::abs(a[1]), std::abs(a[2])}); if (s == 1) w.push_back(e); if (x == 1) w1.push_back(e); }
    for (int f : CF[c]) for (int e : fcells(f)) if (e != c) inorder.push_back(e);
    for (ET t : {ET::ALL, ET::PARALLEL_OWNED}) {
      m.cell_get_face_adj_cells(c, t, &r); TOPO(srt(r) == w, "face-adjacent", "cell %d: %s", c, drv::show(r).c_str());
      if (t == ET::ALL) TOPO(r == inorder, "face-adjacent", "cells next to cell %d are not in the order of its faces", c);
      m.cell_get_node_adj_cells(c, t, &r); TOPO(srt(r) == w1, "node-adjacent", "cell %d: %s", c, drv::show(r).c_str());
    }
  }
  // geometry
  double V = h[0] * h[1] * h[2], sum = 0;
  auto geometry = [&](const char *when) {
    sum = 0;
    for (int c = 0; c < nc; c++) {
      double v = m.cell_volume(c); sum += v; Point x = m.cell_centroid(c); bool ok = drv::close_(v, V, 1e-3); for (int d = 0; d < 3; d++) ok &= drv::close_(x[d], lo[d] + (C[c][d] + .5) * h[d]);
      GEO(ok, "cell-geometry", "%s: volume %g centroid %g %g %g of cell %d", when, v, x[0], x[1], x[2], c);
      Point s(0., 0., 0.); std::vector<Point> cc; m.cell_get_coordinates(c, &cc);
      bool same = cc.size() == 8; for (int k = 0; k < 8 && same; k++) for (int d = 0; d < 3; d++) same &= drv::close_(cc[k][d], lo[d] + P[CN[c][k]][d] * h[d]);
      GEO(same, "cell-coordinates", "%s: cell %d", when, c);
      for (int f : CF[c]) {
        int a = axis[f], out = fmin[f][a] == C[c][a] ? -1 : 1, o = 0; Point nr = m.face_normal(f, false, c, &o); s += nr; double A = V / h[a];
        bool k = true; for (int d = 0; d < 3; d++) k &= drv::close_(nr[d], d == a ? out * A : 0, 1e-3);
        GEO(k, "face-normal", "%s: normal %g %g %g of face %d seen from cell %d", when, nr[0], nr[1], nr[2], f, c);
      }
      GEO(norm(s) < 1e-9, "face-normal", "%s: normals of cell %d do not close", when, c);
    }
    GEO(drv::close_(sum, V * nc, 1e-3), "cell-geometry", "%s: volumes add to %g", when, sum);
    for (int f = 0; f < nf; f++) {
      int a = axis[f]; Point x = m.face_centroid(f); bool ok = drv::close_(m.face_area(f), V / h[a], 1e-3); for (int d = 0; d < 3; d++) ok &= drv::close_(x[d], lo[d] + (fmin[f][d] + (d == a ? 0 : .5)) * h[d]);
      GEO(ok, "face-geometry", "%s: area %g centroid %g %g %g of face %d", when, m.face_area(f), x[0], x[1], x[2], f);
      std::vector<Point> fc; m.face_get_coordinates(f, &fc); bool same = fc.size() == 4; for (int k = 0; k < 4 && same; k++) for (int d = 0; d < 3; d++) same &= drv::close_(fc[k][d], lo[d] + P[FN[f][k]][d] * h[d]);
      GEO(same, "face-coordinates", "%s: face %d", when, f);
    }
  };
  geometry("initial");
  // moving nodes
  std::vector<std::array<double, 3>> X(nn); for (int v = 0; v < nn; v++) m.node_get_coordinates(v, &X[v]);
  auto orig = X;
  for (int t = 0; t < 4; t++) {
    int v = g.below(nn); double q[3]; for (double &y : q) y = g.real(-5, 5);
    if (t % 2) m.node_set_coordinates(v, Point(q[0], q[1], q[2])); else m.node_set_coordinates(v, q);
    X[v] = {{q[0], q[1], q[2]}};
    bool ok = true; for (int u = 0; u < nn; u++) { Point p(3); m.node_get_coordinates(u, &p); for (int d = 0; d < 3; d++) ok &= p[d] == X[u][d]; }
    GEO(ok, "move", "moving node %d changed something else or not the node", v);
  }
  for (int v = 0; v < nn; v++) m.node_set_coordinates(v, orig[v].data());
  m.update_geometric_quantities();
  geometry("after moving back");
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  drv::Rng g(drv::seed() * 7 + 1); int N = drv::thorough() ? 5 : 3;
  { Quiet q;
    for (int x = 1; x <= N; x++) for (int y = 1; y <= N; y++) for (int z = 1; z <= N; z++) { lattice(x, y, z, true, g); lattice(x, y, z, false, g); }
    int big[][3] = {{7, 1, 2}, {1, 6, 3}, {2, 1, 8}, {4, 5, 2}, {2, 4, 5}, {5, 2, 4}};
    for (auto &b : big) lattice(b[0], b[1], b[2], true, g); }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
