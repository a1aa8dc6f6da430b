// C20: the mesh factory: option histories against a model, requests of every kind valid and invalid
#include "meshes.hh"
#include "MeshFactory.hh"
#include "GeometricModel.hh"
using namespace Jali; using namespace tmesh;
typedef JaliGeometry::Geom_type GT; typedef Partitioner_type PT;
struct Model {
  int fw = MSTK; PT part = PT::INDEX; GT geom = GT::CARTESIAN; int gd = 1, tiles = 0, gt = 0; bool bg = false;
  std::map<Entity_kind, bool> k{{Entity_kind::EDGE, false}, {Entity_kind::FACE, true}, {Entity_kind::SIDE, false}, {Entity_kind::WEDGE, false}, {Entity_kind::CORNER, false}, {Entity_kind::CELL, true}};
  JaliGeometry::GeometricModel *gm = nullptr;
  std::vector<Entity_kind> inc() const { std::vector<Entity_kind> r{Entity_kind::NODE}; for (Entity_kind e : {Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL}) if (k.at(e)) r.push_back(e); return r; }
};
static std::string h;
static bool same(MeshFactory &f, Model &m) {
  std::vector<Entity_kind> a = f.included_entities(), b = m.inc();
  std::set<Entity_kind> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  bool ok = drv::check(f.framework() == m.fw, "framework", "%d", f.framework());
  ok &= drv::check(f.partitioner() == m.part, "partitioner", "got %d", (int)f.partitioner());
  ok &= drv::check(f.mesh_geometry() == m.geom, "geometry", "got %d", (int)f.mesh_geometry());
  ok &= drv::check(f.num_ghost_layers_distmesh() == m.gd && f.num_tiles() == m.tiles && f.num_ghost_layers_tile() == m.gt && f.boundary_ghosts_requested() == m.bg, "counts", "ghost layers %d tiles %d tile layers %d boundary ghosts %d", f.num_ghost_layers_distmesh(), f.num_tiles(), f.num_ghost_layers_tile(), (int)f.boundary_ghosts_requested());
  ok &= drv::check(sa == sb && sa.size() == a.size(), "kinds", "%d kinds included, want %d", (int)a.size(), (int)b.size());
  ok &= drv::check(f.geometric_model() == m.gm, "model", "model");
  return ok;
}
static void step(MeshFactory &f, Model &m, drv::Rng &g, std::vector<JaliGeometry::GeometricModel *> &gms) {
  static const Entity_kind K[] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL};
  char b[80]; b[0] = 0;
  switch (g.below(12)) {
    case 0: { int w = g.below(4); MeshFramework_t fw = w == 0 ? MOAB : w == 1 ? STKMESH : w == 2 ? Simple : MSTK; bool thrown = false; try { f.framework(fw); } catch (Errors::Message &) { thrown = true; }
      drv::check(thrown == (w < 2), "framework-error", "framework %d thrown %d", (int)fw, (int)thrown); if (w >= 2) m.fw = fw; snprintf(b, sizeof b, " fw%d", (int)fw); break; }
    case 1: { PT p[] = {PT::INDEX, PT::METIS, PT::ZOLTAN_GRAPH, PT::ZOLTAN_RCB, PT::BLOCK}; PT q = p[g.below(5)]; f.partitioner(q); m.part = q; snprintf(b, sizeof b, " part%d", (int)q); break; }
    case 2: { GT q = g.below(2) ? GT::SPHERICAL : GT::CARTESIAN; f.mesh_geometry(q); m.geom = q; snprintf(b, sizeof b, " geom%d", (int)q); break; }
    case 3: m.gd = g.below(4); f.num_ghost_layers_distmesh(m.gd); snprintf(b, sizeof b, " gd%d", m.gd); break;
    case 4: m.bg = g.below(2); f.boundary_ghosts_requested(m.bg); snprintf(b, sizeof b, " bg%d", (int)m.bg); break;
    case 5: m.tiles = g.below(5); f.num_tiles(m.tiles); snprintf(b, sizeof b, " tiles%d", m.tiles); break;
    case 6: m.gt = g.below(3); f.num_ghost_layers_tile(m.gt); snprintf(b, sizeof b, " gt%d", m.gt); break;
    case 7: { Entity_kind e = K[g.below(7)]; f.included_entities(e); if (e != Entity_kind::NODE) m.k[e] = true; snprintf(b, sizeof b, " inc%d", (int)e); break; }
    case 8: { std::vector<Entity_kind> l; h += " inc["; for (int i = g.below(4); i >= 0; i--) { Entity_kind e = K[g.below(7)]; l.push_back(e); h += std::to_string((int)e) + ","; if (e != Entity_kind::NODE) m.k[e] = true; } f.included_entities(l); h += "]"; break; }
    case 9: { std::vector<Entity_kind> l; h += " exc["; for (int i = g.below(4); i >= 0; i--) { Entity_kind e = K[g.below(7)]; l.push_back(e); h += std::to_string((int)e) + ","; if (e == Entity_kind::EDGE || e == Entity_kind::SIDE || e == Entity_kind::WEDGE || e == Entity_kind::CORNER) m.k[e] = false; } f.excluded_entities(l); h += "]"; break; }
    case 10: { m.gm = gms[g.below(gms.size())]; f.geometric_model(m.gm); h += " gm"; break; }
    case 11: if (g.below(3) == 0) { f.reset_options(); m = Model(); h += " reset"; } else if (g.below(2)) { f.included_entities(Entity_kind::ALL_KIND); for (auto &x : m.k) x.second = true; h += " incall"; } break;
  }
  h += b;
}
static bool near_(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 4000 : 600;
  drv::Rng g(drv::seed() * 11 + 20);
  {
    Quiet q;
    JaliGeometry::GeometricModel g2(2), g3(3);
    std::vector<JaliGeometry::GeometricModel *> gms{nullptr, &g2, &g3, nullptr};
    for (int t = 0; t < trials; t++) {
      MeshFactory f(MPI_COMM_WORLD); Model m; h = "";
      drv::at("defaults"); same(f, m);
      bool ok = true;
      for (int i = 0; i < 14 && ok; i++) { step(f, m, g, gms); drv::at("trial %d:%s", t, h.c_str()); ok = same(f, m); }
      if (!ok) continue;
      // a request: the framework mostly Simple
      if (g.below(4)) { f.framework(Simple); m.fw = Simple; h += " fwS"; }
      m.bg = false; f.boundary_ghosts_requested(false); f.partitioner(PT::INDEX); m.part = PT::INDEX;
      int dim = 1 + g.below(3);
      if (g.below(3)) { f.geometric_model(nullptr); m.gm = nullptr; }
      if (g.below(2)) { std::vector<Entity_kind> l{Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER}; f.excluded_entities(l); for (auto e : l) m.k[e] = false; }
      int n[3]; double lo[3], hi[3]; char b[300];
      for (int d = 0; d < 3; d++) { n[d] = g.below(8) ? 1 + g.below(3) : -g.below(2); lo[d] = g.below(9) - 4; hi[d] = lo[d] + (g.below(8) ? 0.5 + g.below(6) : -g.below(3)); }
      std::vector<double> x; bool form1 = g.below(2), inc = true;
      if (dim == 1 && !form1) { int k = g.below(6); double v = lo[0]; for (int i = 0; i < k; i++) { x.push_back(v); v += g.below(10) ? 0.25 + g.below(3) : -0.5 * g.below(3); } for (int i = 1; i < k; i++) if (x[i] <= x[i - 1]) inc = false; }
      bool extents = true, counts = true; for (int d = 0; d < dim; d++) { extents &= hi[d] > lo[d]; counts &= n[d] > 0; }
      if (dim == 1 && !form1) { extents = inc; counts = x.size() >= 2; n[0] = (int)x.size() - 1; if (counts) { lo[0] = x.front(); hi[0] = x.back(); } }
      bool sub = m.k[Entity_kind::EDGE] || m.k[Entity_kind::SIDE] || m.k[Entity_kind::WEDGE] || m.k[Entity_kind::CORNER];
      bool valid = m.fw == Simple && extents && counts && (dim == 1 || (dim == 3 && !sub)) && (!m.gm || m.gm->dimension() == dim);
      long cells = 1, nodes = 1; for (int d = 0; d < dim; d++) { cells *= n[d]; nodes *= n[d] + 1; }
      if (valid && m.tiles > cells) { f.num_tiles(m.tiles = (int)cells); }
      snprintf(b, sizeof b, " create dim %d form %d cells %d %d %d lo %g %g %g hi %g %g %g %s", dim, (int)form1, n[0], n[1], n[2], lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], dim == 1 ? drv::show(x).c_str() : "");
      drv::at("trial %d:%s%s", t, h.c_str(), b);
      std::shared_ptr<Mesh> mesh; bool thrown = false, other = false;
      try {
        if (dim == 3) mesh = f(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2]);
        else if (dim == 2) mesh = f(lo[0], lo[1], hi[0], hi[1], n[0], n[1]);
        else if (form1) mesh = f(lo[0], hi[0], n[0]);
        else mesh = f(x);
      } catch (Errors::Message &) { thrown = true; } catch (...) { other = true; }
      drv::check(!other, "foreign-error", "something else than an error message was thrown");
      if (!drv::check(thrown == !valid && (bool)mesh == valid, "validity", "valid %d thrown %d mesh %d", (int)valid, (int)thrown, (int)(bool)mesh)) continue;
      same(f, m);
      if (!mesh) continue;
      drv::check(mesh->space_dimension() == dim && mesh->num_cells<ET::ALL>() == cells && mesh->num_nodes<ET::ALL>() == nodes, "counts", "%d cells %d nodes", (int)mesh->num_cells<ET::ALL>(), (int)mesh->num_nodes<ET::ALL>());
      double mn[3] = {1e99, 1e99, 1e99}, mx[3] = {-1e99, -1e99, -1e99}, vol = 0;
      std::vector<double> xs;
      for (auto v : mesh->nodes()) { JaliGeometry::Point p(dim); mesh->node_get_coordinates(v, &p); for (int d = 0; d < dim; d++) { mn[d] = std::min(mn[d], p[d]); mx[d] = std::max(mx[d], p[d]); } if (dim == 1) xs.push_back(p[0]); }
      for (int d = 0; d < dim; d++) drv::check(near_(mn[d], lo[d]) && near_(mx[d], hi[d]), "extent", "direction %d spans %g..%g, want %g..%g", d, mn[d], mx[d], lo[d], hi[d]);
      if (dim == 1 && form1) { std::sort(xs.begin(), xs.end()); for (int i = 0; i <= n[0]; i++) drv::check(near_(xs[i], lo[0] + i * (hi[0] - lo[0]) / n[0]), "spacing", "node %d at %g", i, xs[i]); }
      if (dim == 1 && !form1) for (size_t i = 0; i < x.size(); i++) drv::check(xs[i] == x[i], "node", "node %d at %g", (int)i, xs[i]);
      drv::check(mesh->num_faces<ET::ALL>() > 0, "faces", "no faces");
      drv::check(mesh->geom_type() == (dim == 1 ? m.geom : GT::CARTESIAN), "geomtype", "geometry %d", (int)mesh->geom_type());
      if (dim == 1) {
        int ns = mesh->num_sides<ET::ALL>(), nw = mesh->num_wedges<ET::ALL>(), nco = mesh->num_corners<ET::ALL>();
        bool c = m.k[Entity_kind::CORNER], w = c || m.k[Entity_kind::WEDGE], s = w || m.k[Entity_kind::SIDE];
        drv::check(ns == (s ? 2 * cells : 0) && nw == (w ? 4 * cells : 0) && nco == (c ? 2 * cells : 0), "included", "%d sides %d wedges %d corners for %ld cells", ns, nw, nco, cells);
      }
      drv::check(mesh->num_tiles() == m.tiles, "tiles", "%d tiles, want %d", mesh->num_tiles(), m.tiles);
      drv::check(mesh->geometric_model() == m.gm, "gm", "model of the mesh");
      if (t < 3) drv::sample("%s%s", h.c_str(), b);
    }
    // importing and extracting is not possible with the frameworks present
    for (int i = 0; i < 2; i++) { MeshFactory f(MPI_COMM_WORLD); f.framework(i ? Simple : MSTK); drv::at("import %d", i); bool th = false; std::shared_ptr<Mesh> r; try { r = f("nofile.exo"); } catch (Errors::Message &) { th = true; } drv::check(th && !r, "import", "no error");
      MeshFactory s(MPI_COMM_WORLD); s.framework(Simple); auto base = s(0, 0, 0, 1, 1, 1, 1, 1, 1); th = false; std::vector<std::string> nm{"a"}; try { r = f(base, nm, Entity_kind::CELL); } catch (Errors::Message &) { th = true; } drv::check(th && !r, "extract", "no error"); }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
