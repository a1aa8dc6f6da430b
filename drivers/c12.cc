// C12: sides, wedges and corners as a subdivision of the cells
#include "subcells.hh"
static void mesh(Mesh &m, int dim, bool) {
  int nc = m.num_cells<ET::ALL>(), nn = m.num_nodes<ET::ALL>(), ns = m.num_sides<ET::ALL>(), nw = m.num_wedges<ET::ALL>(), nk = m.num_corners<ET::ALL>();
  drv::check(nw == 2 * ns, "counts", "%d sides %d wedges", ns, nw);
  std::vector<V> S(nc), W(nc), K(nc), NW(nn), NK(nn); int want_s = 0, want_k = 0;
  for (int s = 0; s < ns; s++) { int c = m.side_get_cell(s); if (!drv::check(c >= 0 && c < nc, "side-cell", "side %d cell %d", s, c)) return; S[c].push_back(s); W[c].push_back(2 * s); W[c].push_back(2 * s + 1); }
  for (int k = 0; k < nk; k++) { int c = m.corner_get_cell(k), n = m.corner_get_node(k); if (!drv::check(c >= 0 && c < nc && n >= 0 && n < nn, "corner-cell", "corner %d cell %d node %d", k, c, n)) return; K[c].push_back(k); NK[n].push_back(k); }
  for (int w = 0; w < nw; w++) {
    int s = w / 2, k = m.wedge_get_corner(w);
    drv::check(m.side_get_wedge(s, w % 2) == w, "side-wedge", "wedge %d of side %d", w, s);
    drv::check(m.wedge_get_cell(w) == m.side_get_cell(s) && m.wedge_get_face(w) == m.side_get_face(s) && m.wedge_get_edge(w) == m.side_get_edge(s) && m.wedge_get_node(w) == m.side_get_node(s, w % 2), "wedge-agrees", "wedge %d with side %d", w, s);
    if (drv::check(k >= 0 && k < nk, "wedge-corner", "wedge %d corner %d", w, k)) { drv::check(m.corner_get_node(k) == m.wedge_get_node(w) && m.corner_get_cell(k) == m.wedge_get_cell(w), "wedge-corner", "wedge %d corner %d", w, k); V cw; m.corner_get_wedges(k, &cw); drv::check(std::count(cw.begin(), cw.end(), w) == 1, "corner-wedges", "wedge %d not once in its corner", w); }
    NW[m.wedge_get_node(w)].push_back(w);
    int a = m.wedge_get_adjacent_wedge(w); drv::check(a != w && a / 2 == s && m.wedge_get_adjacent_wedge(a) == w, "wedge-adjacent", "wedge %d adjacent %d", w, a);
    int o = m.wedge_get_opposite_wedge(w);
    if (o != -1) drv::check(o >= 0 && o < nw && m.wedge_get_opposite_wedge(o) == w && m.wedge_get_face(o) == m.wedge_get_face(w) && m.wedge_get_edge(o) == m.wedge_get_edge(w) && m.wedge_get_node(o) == m.wedge_get_node(w) && m.wedge_get_cell(o) != m.wedge_get_cell(w), "wedge-opposite", "wedge %d opposite %d", w, o);
    V fc; m.face_get_cells(m.wedge_get_face(w), ET::ALL, &fc); drv::check((o == -1) == (fc.size() == 1), "wedge-opposite", "wedge %d on a face of %d cells has opposite %d", w, (int)fc.size(), o);
  }
  for (int s = 0; s < ns; s++) {
    int c = m.side_get_cell(s), f = m.side_get_face(s), e = m.side_get_edge(s), o = m.side_get_opposite_side(s);
    V fc; m.face_get_cells(f, ET::ALL, &fc); int nb = -1; for (int x : fc) if (x != c) nb = x;
    drv::check(std::count(fc.begin(), fc.end(), c) == 1, "side-face", "face %d of side %d is not of cell %d", f, s, c);
    if (nb == -1) drv::check(o == -1, "side-opposite", "side %d on the boundary has opposite %d", s, o);
    else drv::check(o >= 0 && o < ns && m.side_get_cell(o) == nb && m.side_get_face(o) == f && m.side_get_edge(o) == e && m.side_get_opposite_side(o) == s, "side-opposite", "side %d opposite %d", s, o);
    V fe; std::vector<dir_t> fd; 
    if (dim > 1) {
      m.face_get_edges_and_dirs(f, &fe, &fd); int p = std::find(fe.begin(), fe.end(), e) - fe.begin(); if (!drv::check(p < (int)fe.size(), "side-edge", "edge %d of side %d is not of face %d", e, s, f)) continue;
      int a, b; m.edge_get_nodes(e, &a, &b); V cf; std::vector<dir_t> cd; m.cell_get_faces_and_dirs(c, &cf, &cd); int q = std::find(cf.begin(), cf.end(), f) - cf.begin();
      bool fwd = dim == 2 ? cd[q] == 1 : cd[q] != fd[p];
      drv::check(m.side_get_node(s, 0) == (fwd ? a : b) && m.side_get_node(s, 1) == (fwd ? b : a) && m.side_get_edge_use(s) == fwd, "side-nodes", "side %d has nodes %d %d of edge %d %d", s, m.side_get_node(s, 0), m.side_get_node(s, 1), a, b);
    } else drv::check(m.side_get_node(s, 0) == m.side_get_node(s, 1) && e == m.side_get_node(s, 0) && f == e, "side-nodes", "side %d", s);
  }
  for (int c = 0; c < nc; c++) {
    V r, cn, cf; m.cell_get_sides(c, &r); drv::check(srt(r) == S[c], "cell-sides", "cell %d: %s", c, drv::show(r).c_str());
    m.cell_get_wedges(c, &r); drv::check(srt(r) == W[c], "cell-wedges", "cell %d: %s", c, drv::show(r).c_str());
    m.cell_get_corners(c, &r); drv::check(srt(r) == K[c], "cell-corners", "cell %d: %s", c, drv::show(r).c_str());
    m.cell_get_nodes(c, &cn); m.cell_get_faces(c, &cf); want_k += cn.size();
    V kn; for (int k : K[c]) kn.push_back(m.corner_get_node(k)); drv::check(srt(kn) == srt(cn), "cell-corners", "corners of cell %d are at %s", c, drv::show(kn).c_str());
    std::set<std::pair<int, int>> have, want; for (int s : S[c]) have.insert({m.side_get_face(s), m.side_get_edge(s)});
    for (int f : cf) { V fe; std::vector<dir_t> fd; if (dim == 1) fe = {f}; else m.face_get_edges_and_dirs(f, &fe, &fd); for (int e : fe) want.insert({f, e}); }
    drv::check(have == want && have.size() == S[c].size(), "cell-sides", "sides of cell %d are not one per face and edge", c); want_s += want.size();
    for (int n : cn) { int k = m.cell_get_corner_at_node(c, n); drv::check(k >= 0 && k < nk && m.corner_get_cell(k) == c && m.corner_get_node(k) == n, "corner-at-node", "corner of cell %d at node %d is %d", c, n, k); }
    for (int n = 0; n < nn; n++) if (!std::count(cn.begin(), cn.end(), n)) { drv::check(m.cell_get_corner_at_node(c, n) == -1, "corner-at-node", "cell %d has a corner at node %d", c, n); break; }
  }
  drv::check(ns == want_s && nk == want_k, "counts", "%d sides (want %d) %d corners (want %d)", ns, want_s, nk, want_k);
  for (int k = 0; k < nk; k++) { V r, w; m.corner_get_wedges(k, &r); for (int x : W[m.corner_get_cell(k)]) if (m.wedge_get_node(x) == m.corner_get_node(k)) w.push_back(x); drv::check(srt(r) == srt(w), "corner-wedges", "corner %d: %s", k, drv::show(r).c_str()); }
  for (int n = 0; n < nn; n++) { V r; m.node_get_wedges(n, ET::ALL, &r); drv::check(srt(r) == srt(NW[n]), "node-wedges", "node %d: %s", n, drv::show(r).c_str()); m.node_get_corners(n, ET::ALL, &r); drv::check(srt(r) == srt(NK[n]), "node-corners", "node %d: %s", n, drv::show(r).c_str()); }
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  { Quiet q; all_meshes(drv::thorough() ? 300 : 60, mesh); }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
