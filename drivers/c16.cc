// C16: tiles partition the mesh. Every tile of every mesh is compared with an independent computation.
#include "meshes.hh"
using namespace tmesh;
typedef std::vector<int> V;
static std::set<int> set_of(V const &v) { return std::set<int>(v.begin(), v.end()); }
static bool distinct(V const &v) { return set_of(v).size() == v.size(); }
struct Lists { V o, g, a; unsigned no, ng, na; };
#define LISTS(what) Lists{t.what<ET::PARALLEL_OWNED>(), t.what<ET::PARALLEL_GHOST>(), t.what<ET::ALL>(), t.num_##what<ET::PARALLEL_OWNED>(), t.num_##what<ET::PARALLEL_GHOST>(), t.num_##what<ET::ALL>()}

static void lists(int t, const char *what, Lists const &l) {
  V cat = l.o; cat.insert(cat.end(), l.g.begin(), l.g.end());
  drv::check(l.a == cat, "all-list", "tile %d: all %s %s are not owned %s then ghost %s", t, what, drv::show(l.a).c_str(), drv::show(l.o).c_str(), drv::show(l.g).c_str());
  drv::check(distinct(cat), "disjoint", "tile %d lists an entity of %s twice: %s", t, what, drv::show(cat).c_str());
  drv::check(l.no == l.o.size() && l.ng == l.g.size() && l.na == l.a.size(), "counts", "tile %d: %s counts %u %u %u, lists %d %d %d", t, what, l.no, l.ng, l.na, (int)l.o.size(), (int)l.g.size(), (int)l.a.size());
}
// owned + ghost entities against the entities of the tile's owned and ghost cells
static void kind(MeshTile &t, const char *what, Lists const &l, std::set<int> const &ofown, std::set<int> const &ofgho, std::function<int(int)> master, std::vector<int> &owner, bool shared) {
  int id = t.ID();
  lists(id, what, l);
  for (int e : l.o) {
    drv::check(ofown.count(e), "owned-of-cells", "tile %d owns %s %d, which belongs to none of its cells", id, what, e);
    if (e < 0 || e >= (int)owner.size()) { drv::fail("owned-of-cells", "tile %d owns %s %d", id, what, e); continue; }
    drv::check(owner[e] == -1, "one-owner", "%s %d owned by tiles %d and %d", what, e, owner[e], id); owner[e] = id;
    int mt = master(e); drv::check(mt == id, "master", "%s %d is owned by tile %d but its master is %d", what, e, id, mt);
  }
  std::set<int> all = ofown; all.insert(ofgho.begin(), ofgho.end());
  drv::check(set_of(l.a) == all, "all-of-cells", "tile %d: %s %s, its cells have %s", id, what, drv::show(l.a).c_str(), drv::show(V(all.begin(), all.end())).c_str());
  if (!shared) drv::check(set_of(l.o) == ofown, "follow-cell", "tile %d: owned %s %s, owned cells have %s", id, what, drv::show(l.o).c_str(), drv::show(V(ofown.begin(), ofown.end())).c_str());
}
static void mesh(Mesh &m, bool faces, bool edges, bool sides, bool wedges, bool corners, int ntiles, int layers) {
  int nc = m.num_cells(), nn = m.num_nodes();
  auto const &tiles = m.tiles();
  if (!drv::check((int)tiles.size() == ntiles && m.num_tiles() == ntiles, "tiles", "%d tiles instead of %d", (int)tiles.size(), ntiles)) return;
  V oc(nc, -1), on(nn, -1), of(faces ? m.num_faces() : 0, -1), oe(edges ? m.num_edges() : 0, -1), os(sides ? m.num_sides() : 0, -1), ow(wedges ? m.num_wedges() : 0, -1), ok(corners ? m.num_corners() : 0, -1);
  std::vector<std::set<int>> nodes(nc);
  for (int c = 0; c < nc; c++) { V v; m.cell_get_nodes(c, &v); nodes[c] = set_of(v); }
  for (int i = 0; i < ntiles; i++) {
    MeshTile &t = *tiles[i]; int id = t.ID();
    drv::check(id == i, "tile-id", "tile %d has id %d", i, id);
    Lists l = LISTS(cells); lists(i, "cells", l);
    for (int c : l.o) {
      if (!drv::check(c >= 0 && c < nc, "cells", "tile %d owns cell %d", i, c)) return;
      drv::check(oc[c] == -1, "one-owner", "cell %d owned by tiles %d and %d", c, oc[c], i); oc[c] = i;
      drv::check(m.master_tile_ID_of_cell(c) == i, "master", "cell %d is owned by tile %d but its master is %d", c, i, m.master_tile_ID_of_cell(c));
    }
    std::set<int> in(l.o.begin(), l.o.end()), gh;
    for (int k = 0; k < layers; k++) {
      std::set<int> ns, next; for (int c : in) ns.insert(nodes[c].begin(), nodes[c].end());
      for (int c = 0; c < nc; c++) if (!in.count(c)) for (int n : nodes[c]) if (ns.count(n)) { next.insert(c); break; }
      gh.insert(next.begin(), next.end()); in.insert(next.begin(), next.end());
    }
    drv::check(set_of(l.g) == gh, "halo", "tile %d: ghost cells %s, %d layers hold %s", i, drv::show(l.g).c_str(), layers, drv::show(V(gh.begin(), gh.end())).c_str());
    auto of_cells = [&](V const &cs, std::function<void(int, V *)> get) { std::set<int> s; for (int c : cs) { V v; get(c, &v); s.insert(v.begin(), v.end()); } return s; };
#define KIND(what, get, mast, own, shared) { auto fn = [&](int c, V *v) { m.get(c, v); }; kind(t, #what, LISTS(what), of_cells(l.o, fn), of_cells(l.g, fn), [&](int e) { return m.mast(e); }, own, shared); }
    KIND(nodes, cell_get_nodes, master_tile_ID_of_node, on, true)
    if (faces) KIND(faces, cell_get_faces, master_tile_ID_of_face, of, true)
    if (edges) KIND(edges, cell_get_edges, master_tile_ID_of_edge, oe, true)
    if (sides) KIND(sides, cell_get_sides, master_tile_ID_of_side, os, false)
    if (wedges) KIND(wedges, cell_get_wedges, master_tile_ID_of_wedge, ow, false)
    if (corners) KIND(corners, cell_get_corners, master_tile_ID_of_corner, ok, false)
    if (!edges) drv::check(t.num_edges<ET::ALL>() == 0, "not-requested", "tile %d has edges", i);
    // the counts by kind
    for (ET ty : {ET::PARALLEL_OWNED, ET::PARALLEL_GHOST, ET::ALL}) {
      unsigned want = ty == ET::PARALLEL_OWNED ? t.cells<ET::PARALLEL_OWNED>().size() : ty == ET::PARALLEL_GHOST ? t.cells<ET::PARALLEL_GHOST>().size() : t.cells<ET::ALL>().size();
      drv::check(t.num_entities(Entity_kind::CELL, ty) == want, "num-entities", "tile %d: %u cells of type %d, list %u", i, t.num_entities(Entity_kind::CELL, ty), (int)ty, want);
      want = ty == ET::PARALLEL_OWNED ? t.nodes<ET::PARALLEL_OWNED>().size() : ty == ET::PARALLEL_GHOST ? t.nodes<ET::PARALLEL_GHOST>().size() : t.nodes<ET::ALL>().size();
      drv::check(t.num_entities(Entity_kind::NODE, ty) == want, "num-entities", "tile %d: %u nodes of type %d, list %u", i, t.num_entities(Entity_kind::NODE, ty), (int)ty, want);
    }
  }
  // nothing of the processor's own cells is left out
  V const &owned = m.cells<ET::PARALLEL_OWNED>(); std::set<int> own = set_of(owned), n_, f_, e_;
  for (int c = 0; c < nc; c++) drv::check((oc[c] != -1) == (own.count(c) > 0), "every-cell", "cell %d has owner tile %d", c, oc[c]);
  for (int c = 0; c < nc; c++) if (!own.count(c)) drv::check(m.master_tile_ID_of_cell(c) == -1, "master", "cell %d of another processor has master tile %d", c, m.master_tile_ID_of_cell(c));
  for (int c : owned) { V v; m.cell_get_nodes(c, &v); n_.insert(v.begin(), v.end()); if (faces) { m.cell_get_faces(c, &v); f_.insert(v.begin(), v.end()); } if (edges) { m.cell_get_edges(c, &v); e_.insert(v.begin(), v.end()); } }
  for (int n = 0; n < nn; n++) { drv::check((on[n] != -1) == (n_.count(n) > 0), "every-entity", "node %d has owner tile %d", n, on[n]); drv::check(m.master_tile_ID_of_node(n) == on[n], "master", "node %d: master %d owner %d", n, m.master_tile_ID_of_node(n), on[n]); }
  for (int f = 0; f < (int)of.size(); f++) { drv::check((of[f] != -1) == (f_.count(f) > 0), "every-entity", "face %d has owner tile %d", f, of[f]); drv::check(m.master_tile_ID_of_face(f) == of[f], "master", "face %d: master %d owner %d", f, m.master_tile_ID_of_face(f), of[f]); }
  for (int e = 0; e < (int)oe.size(); e++) { drv::check((oe[e] != -1) == (e_.count(e) > 0), "every-entity", "edge %d has owner tile %d", e, oe[e]); drv::check(m.master_tile_ID_of_edge(e) == oe[e], "master", "edge %d: master %d owner %d", e, m.master_tile_ID_of_edge(e), oe[e]); }
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  {
    Quiet q; drv::Rng g(drv::seed() * 13 + 5);
    Partitioner_type P[3] = {Partitioner_type::INDEX, Partitioner_type::BLOCK, Partitioner_type::METIS};
    int N = drv::thorough() ? 1500 : 300;
    for (int t = 0; t < N; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(5); o.ny = 1 + g.below(4); o.nz = 1 + g.below(3); o.seed = t + 7 * drv::seed();
      int p = g.below(3); if (p == 1) { o.polys = false; o.jit = 0; } else { o.ghosts = g.below(2) ? 1 + g.below(2) : 0; o.jit = .3; }
      Desc d = make(o);
      int lev = g.below(5); bool f = lev >= 1 || o.dim == 3 || g.below(2), e = lev >= 2, s = lev >= 2, w = lev >= 3, k = lev >= 4;
      int tiles = 1 + g.below(p == 1 ? std::min(d.nc(), 8) : std::min(d.nc() + 2, 12)), layers = g.below(3);
      if (p == 1) f = true;
      drv::at("mesh %dD %dx%dx%d ghosts %d seed %d, %d tiles, partitioner %d, %d layers, faces %d edges %d sides %d wedges %d corners %d", o.dim, o.nx, o.ny, o.nz, o.ghosts, o.seed, tiles, (int)P[p], layers, f, e, s, w, k);
      TestMesh m(d, f, e, s, w, k, tiles, layers, P[p]);
      mesh(m, f || s, e || s, s, w, k, tiles, layers);
    }
    for (int t = 0; t < N / 3; t++) {
      int lev = g.below(5), n[3] = {1 + g.below(5), 1 + g.below(4), 1 + g.below(4)}, nc = n[0] * n[1] * n[2], p = g.below(2), tiles = 1 + g.below(std::min(nc, 9)), layers = g.below(3); bool f = true, s = lev >= 2, w = lev >= 3, k = lev >= 4;
      drv::at("grid %dx%dx%d, %d tiles, partitioner %d, %d layers, level %d", n[0], n[1], n[2], tiles, (int)P[p], layers, lev);
      Mesh_simple m(0., 0., 0., n[0], n[1], n[2] * 1.5, n[0], n[1], n[2], MPI_COMM_WORLD, nullptr, true, false, false, false, false, tiles, layers, 0, false, P[p]);
      mesh(m, true, false, false, false, false, tiles, layers);  // no edges in this framework
      int nx = 2 + g.below(9); std::vector<double> X; for (int i = 0; i < nx; i++) X.push_back(i * .5);
      tiles = 1 + g.below(nx - 1);
      drv::at("line of %d cells, %d tiles, partitioner %d, %d layers, level %d", nx - 1, tiles, (int)P[p], layers, lev);
      Mesh_simple l(X, MPI_COMM_WORLD, nullptr, f, s, s, w, k, tiles, layers, 0, false, P[p]);
      mesh(l, true, s, s, w, k, tiles, layers);
    }
    // a mesh without tiles
    Opt o; Desc d = make(o); TestMesh m(d, true, true, true, true, true);
    drv::at("mesh without tiles"); drv::check(m.num_tiles() == 0 && m.master_tile_ID_of_cell(0) == -1 && m.master_tile_ID_of_node(0) == -1 && m.master_tile_ID_of_side(0) == -1, "no-tiles", "a mesh without tiles has masters");
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
