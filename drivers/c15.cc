// C15: counts, lists, types and filtered queries on meshes with owned and ghost entities
#include "meshes.hh"
using namespace tmesh;
typedef std::vector<int> V;
static V srt(V v) { std::sort(v.begin(), v.end()); return v; }
static void lists(Mesh &m, Entity_kind k, V const &own, V const &gh, V const &bg, V const &all, const char *what) {
  V w = own; w.insert(w.end(), gh.begin(), gh.end()); w.insert(w.end(), bg.begin(), bg.end());
  int n = w.size();
  drv::check(all.size() == w.size() && srt(all) == srt(w), "all-list", "%s: all %s owned %s ghost %s", what, drv::show(all).c_str(), drv::show(own).c_str(), drv::show(gh).c_str());
  drv::check(all == w, "all-list-order", "%s: all list %s is not owned then ghosts", what, drv::show(all).c_str());
  drv::check(m.num_entities(k, ET::PARALLEL_OWNED) == own.size() && m.num_entities(k, ET::PARALLEL_GHOST) == gh.size() && m.num_entities(k, ET::ALL) == all.size() && m.num_entities(k, ET::BOUNDARY_GHOST) == bg.size(),
             "counts", "%s: counts %d %d %d %d", what, (int)m.num_entities(k, ET::PARALLEL_OWNED), (int)m.num_entities(k, ET::PARALLEL_GHOST), (int)m.num_entities(k, ET::BOUNDARY_GHOST), (int)m.num_entities(k, ET::ALL));
  std::set<int> s(all.begin(), all.end());
  drv::check(s.size() == all.size() && (s.empty() || (*s.begin() == 0 && *s.rbegin() == n - 1)), "unique", "%s: list %s", what, drv::show(all).c_str());
  for (int e : own) drv::check(m.entity_get_type(k, e) == ET::PARALLEL_OWNED, "type", "%s: owned entity %d has type %d", what, e, (int)m.entity_get_type(k, e));
  for (int e : gh) drv::check(m.entity_get_type(k, e) == ET::PARALLEL_GHOST, "type", "%s: ghost entity %d has type %d", what, e, (int)m.entity_get_type(k, e));
  for (int e : bg) drv::check(m.entity_get_type(k, e) == ET::BOUNDARY_GHOST, "type", "%s: boundary ghost entity %d has type %d", what, e, (int)m.entity_get_type(k, e));
}
template<class Q> static void filter(Mesh &m, Entity_kind k, const char *what, Q q) {
  V all, r; q(ET::ALL, &all);
  for (ET t : {ET::PARALLEL_OWNED, ET::PARALLEL_GHOST, ET::BOUNDARY_GHOST}) {
    r = {99}; q(t, &r); V w; for (int e : all) if (m.entity_get_type(k, e) == t) w.push_back(e);
    drv::check(srt(r) == srt(w), "filter", "%s of class %d: %s, want %s", what, (int)t, drv::show(r).c_str(), drv::show(w).c_str());
  }
}
#define LISTS(K, f, BG) lists(m, Entity_kind::K, m.f<ET::PARALLEL_OWNED>(), m.f<ET::PARALLEL_GHOST>(), BG, m.f<ET::ALL>(), #f)
static void mesh(Mesh &m, bool faces, bool edges, bool subs) {
  LISTS(CELL, cells, m.cells<ET::BOUNDARY_GHOST>()); LISTS(NODE, nodes, V()); LISTS(FACE, faces, V()); LISTS(EDGE, edges, V());
  if (subs) { LISTS(SIDE, sides, m.sides<ET::BOUNDARY_GHOST>()); LISTS(WEDGE, wedges, m.wedges<ET::BOUNDARY_GHOST>()); LISTS(CORNER, corners, m.corners<ET::BOUNDARY_GHOST>()); }
  auto N = [&](Entity_kind k, unsigned a, unsigned b, unsigned c) { drv::check(m.num_entities(k, ET::PARALLEL_OWNED) == a && m.num_entities(k, ET::PARALLEL_GHOST) == b && m.num_entities(k, ET::ALL) == c, "counts", "count of kind %d differs from the typed query", (int)k); };
#define CNT(K, f) N(Entity_kind::K, m.num_##f<ET::PARALLEL_OWNED>(), m.num_##f<ET::PARALLEL_GHOST>(), m.num_##f<ET::ALL>())
  CNT(CELL, cells); CNT(NODE, nodes); CNT(FACE, faces); CNT(EDGE, edges); CNT(SIDE, sides); CNT(WEDGE, wedges); CNT(CORNER, corners);
  for (int k : {-3, -2, -1, 7, 8}) drv::check(m.num_entities((Entity_kind)k, ET::ALL) == 0, "counts", "count of kind %d is not 0", k);
  if (!faces) drv::check(m.entity_get_type(Entity_kind::FACE, 0) == ET::TYPE_UNKNOWN, "type", "face type of a mesh without faces");
  int nn = m.num_nodes<ET::ALL>(), nf = m.num_faces<ET::ALL>(), nc = m.num_cells<ET::ALL>();
  for (int n = 0; n < nn; n++) {
    filter(m, Entity_kind::CELL, "cells of a node", [&](ET t, V *o) { m.node_get_cells(n, t, o); });
    if (faces) filter(m, Entity_kind::FACE, "faces of a node", [&](ET t, V *o) { m.node_get_faces(n, t, o); });
    V cs; m.node_get_cells(n, ET::ALL, &cs);
    if (faces) for (int c : cs) filter(m, Entity_kind::FACE, "faces of a cell at a node", [&](ET t, V *o) { m.node_get_cell_faces(n, c, t, o); });
    if (subs) {
      filter(m, Entity_kind::WEDGE, "wedges of a node", [&](ET t, V *o) { m.node_get_wedges(n, t, o); });
      filter(m, Entity_kind::CORNER, "corners of a node", [&](ET t, V *o) { m.node_get_corners(n, t, o); });
    }
  }
  if (faces) for (int f = 0; f < nf; f++) filter(m, Entity_kind::CELL, "cells of a face", [&](ET t, V *o) { m.face_get_cells(f, t, o); });
  for (int c = 0; c < nc; c++) {
    filter(m, Entity_kind::CELL, "cells next to a cell", [&](ET t, V *o) { m.cell_get_face_adj_cells(c, t, o); });
    filter(m, Entity_kind::CELL, "cells around a cell", [&](ET t, V *o) { m.cell_get_node_adj_cells(c, t, o); });
  }
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  drv::Rng g(drv::seed() * 31 + 15); int N = drv::thorough() ? 300 : 60;
  { Quiet q;
    drv::at("names");
    const char *kn[] = {"NODE", "EDGE", "FACE", "CELL", "SIDE", "WEDGE", "CORNER", "FACET", "BOUNDARY_FACE"};
    for (int i = -4; i < 12; i++) drv::check(Entity_kind_string((Entity_kind)i) == (i >= 0 && i < 9 ? std::string("Entity_kind::") + kn[i] : ""), "names", "kind %d is called %s", i, Entity_kind_string((Entity_kind)i).c_str());
    const char *tn[] = {"TYPE_UNKNOWN", "DELETED", "PARALLEL_OWNED", "PARALLEL_GHOST", "BOUNDARY_GHOST", "ALL"};
    for (int i = -5; i < 12; i++) drv::check(Entity_type_string((ET)i) == (i >= -1 && i < 5 ? std::string("Entity_type::") + tn[i + 1] : ""), "names", "class %d is called %s", i, Entity_type_string((ET)i).c_str());
    for (int i = 0; i < 8; i++) drv::check(valid_entity_type((ET)i) == (i < 5), "names", "class %d valid", i);
    const char *cn[] = {"CELLTYPE_UNKNOWN", "TRI", "QUAD", "POLYGON", "TET", "PRISM", "PYRAMID", "HEX", "POLYHED"};
    for (int i = 0; i < 12; i++) drv::check(Cell_type_string((Cell_type)i) == (i < 9 ? std::string("Cell_type::") + cn[i] : ""), "names", "cell type %d is called %s", i, Cell_type_string((Cell_type)i).c_str());
    const char *pn[] = {"INDEX", "BLOCK", "METIS", "ZOLTAN_GRAPH", "ZOLTAN_RCB"};
    for (int i = 0; i < 8; i++) drv::check(Partitioner_type_string((Partitioner_type)i) == (i < 5 ? std::string("Partitioner_type::") + pn[i] : ""), "names", "partitioner %d is called %s", i, Partitioner_type_string((Partitioner_type)i).c_str());
    for (int t = 0; t < N; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(4); o.ny = 1 + g.below(3); o.nz = 1 + g.below(2); o.ghosts = t % 4 ? 1 + g.below(2) : 0; o.bghost = t % 5 == 0; o.seed = t + 7 * drv::seed();
      bool subs = t % 3 == 0, edges = subs || t % 3 == 1, faces = edges || g.below(2);
      drv::at("mesh %dD %dx%dx%d ghosts %d seed %d%s%s%s", o.dim, o.nx, o.ny, o.nz, o.ghosts, o.seed, faces ? " faces" : "", edges ? " edges" : "", subs ? " subcells" : "");
      if (!faces) continue;
      Desc d = make(o); TestMesh m(d, faces, edges, subs, subs, subs); mesh(m, faces, edges, subs);
    }
    for (int t = 0; t < 6; t++) {
      int nx = 1 + g.below(3), ny = 1 + g.below(3), nz = 1 + g.below(2); drv::at("brick %dx%dx%d", nx, ny, nz);
      Mesh_simple m(0., 0., 0., 1., 1., 1., nx, ny, nz, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX); mesh(m, true, false, false);
      drv::at("line of %d cells", nx); std::vector<double> X; for (int i = 0; i <= nx; i++) X.push_back(i);
      Mesh_simple l(X, MPI_COMM_WORLD, nullptr, true, true, true, true, true, 0, 0, 0, false, Partitioner_type::INDEX); mesh(l, true, true, true);
    } }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
