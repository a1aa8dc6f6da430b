// C18: random histories of material operations against a set model
#include "meshes.hh"
#include "JaliState.h"
#include "JaliStateVector.h"
using namespace Jali; using namespace tmesh;
struct Mat { std::string name; std::set<int> cells; };
typedef std::map<std::pair<std::string, int>, double> Vals;    // (material, cell) -> value
static std::string h;

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 3000 : 400;
  drv::Rng g(drv::seed() * 7 + 18);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2; o.nx = 1 + g.below(4); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 3; o.seed = t + 1;
      Desc d = make(o); int nc = d.nc();
      auto tm = std::make_shared<TestMesh>(d, true, false, false, false, false);
      std::shared_ptr<Mesh> mesh = tm;
      std::vector<int> own; for (int c = 0; c < nc; c++) if (d.ct[c] == ET::PARALLEL_OWNED) own.push_back(c);
      auto tile = make_meshtile(*mesh, own, 0, true, false, false, false, false);
      if (t % 4 == 0) {     // a cell set of that name is already in the mesh
        std::vector<int> a, b; for (int c = 0; c < nc; c++) if (g.below(2)) (d.ct[c] == ET::PARALLEL_OWNED ? a : b).push_back(c);
        make_meshset("m1", *mesh, Entity_kind::CELL, a, b, true);
      }
      auto s = State::create(mesh);
      drv::check(s->num_materials() == 0 && s->material_cells(0).empty() && s->num_material_cells(0) == 0 && s->material_index_by_name("m1") == -1 && !s->material_set_by_name("m1") && s->material_name(0) == "UNDEFINED_MATERIAL", "empty", "queries without materials");
      std::vector<Mat> M; std::vector<Vals> V; std::vector<bool> onTile;
      int ops = 2 + g.below(14); h = "";
      auto sv = [&](int i) { char b[20]; snprintf(b, sizeof b, "v%d", i); return std::string(b); };
      auto get = [&](int v) -> std::vector<std::vector<double>> & {
        if (onTile[v]) { std::shared_ptr<MultiStateVector<double, MeshTile>> p; s->get(sv(v), tile, Entity_kind::CELL, ET::ALL, &p); return *p->get_data(); }
        std::shared_ptr<MultiStateVector<double, Mesh>> p; s->get(sv(v), mesh, Entity_kind::CELL, ET::ALL, &p); return *p->get_data();
      };
      for (int i = 0; i < ops; i++) {
        int w = g.below(8); char b[60]; std::vector<int> touched; std::vector<Vals> before = V;
        std::vector<int> cells; for (int c = 0; c < nc; c++) if (g.below(3) == 0) cells.push_back(c);
        for (int j = (int)cells.size() - 1; j > 0; j--) std::swap(cells[j], cells[g.below(j + 1)]);
        if (g.below(3) == 0) { std::vector<int> f; ET ty = g.below(2) ? ET::PARALLEL_OWNED : ET::PARALLEL_GHOST; for (int c : cells) if (d.ct[c] == ty) f.push_back(c); cells = f; }
        std::string cl = drv::show(cells);
        if (w < 3) {
          snprintf(b, sizeof b, "m%d", g.below(5)); h += std::string(" add ") + b + cl; drv::at("trial %d:%s", t, h.c_str());
          bool used = false; for (auto &m : M) used = used || m.name == b;
          s->add_material(b, cells);
          if (!used) { M.push_back({b, std::set<int>(cells.begin(), cells.end())}); for (auto &v : V) for (int c : cells) v[{b, c}] = NAN; }
        } else if (w == 3 && M.size()) {
          int m = g.below((int)M.size()); h += " rem " + std::to_string(m); drv::at("trial %d:%s", t, h.c_str());
          if (g.below(2)) s->rem_material(m); else s->rem_material_by_name(M[m].name);
          for (auto &v : V) for (auto it = v.begin(); it != v.end();) if (it->first.first == M[m].name) it = v.erase(it); else ++it;
          M.erase(M.begin() + m);
        } else if (w < 6 && M.size()) {
          int m = g.below((int)M.size()); h += " more " + std::to_string(m) + cl; drv::at("trial %d:%s", t, h.c_str());
          s->add_cells_to_material(m, cells);
          for (int c : cells) if (M[m].cells.insert(c).second) for (auto &v : V) v[{M[m].name, c}] = NAN;
        } else if (w == 6) {
          onTile.push_back(g.below(3) == 0); int v = onTile.size() - 1; h += onTile[v] ? " vecT" : " vec"; drv::at("trial %d:%s", t, h.c_str());
          if (onTile[v]) s->add<double, MeshTile, MultiStateVector>(sv(v), tile, Entity_kind::CELL, ET::ALL); else s->add<double, Mesh, MultiStateVector>(sv(v), mesh, Entity_kind::CELL, ET::ALL);
          V.push_back({}); for (auto &m : M) for (int c : m.cells) V[v][{m.name, c}] = NAN;
        } else { s->rem_material_by_name("no such"); s->rem_material((int)M.size() + g.below(3)); h += " nothing"; drv::at("trial %d:%s", t, h.c_str()); }
        // consistency
        if (!drv::check(s->num_materials() == (int)M.size(), "count", "%d materials, want %d", s->num_materials(), (int)M.size())) break;
        bool ok = true;
        for (int m = 0; m < (int)M.size(); m++) {
          std::vector<int> mc = s->material_cells(m); std::set<int> ms(mc.begin(), mc.end());
          ok &= drv::check(s->material_name(m) == M[m].name && s->material_index_by_name(M[m].name) == m && s->material_set_by_name(M[m].name) == s->material_set(m) && s->material_set(m), "name", "material %d is '%s', want '%s'", m, s->material_name(m).c_str(), M[m].name.c_str());
          ok &= drv::check(ms == M[m].cells && mc.size() == ms.size() && s->num_material_cells(m) == (int)ms.size(), "cells", "material %d has cells %s", m, drv::show(mc).c_str());
          for (int c = 0; c < nc; c++) {
            int p = std::find(mc.begin(), mc.end(), c) - mc.begin(); if (p == (int)mc.size()) p = -1;
            ok &= drv::check(s->cell_index_in_material(c, m) == p, "local", "index of cell %d in material %d is %d, want %d", c, m, s->cell_index_in_material(c, m), p);
            std::vector<int> cm = s->cell_materials(c); int n = std::count(cm.begin(), cm.end(), m);
            ok &= drv::check(n == (int)M[m].cells.count(c), "cellmats", "cell %d lists material %d %d times, want %d", c, m, n, (int)M[m].cells.count(c));
            int tot = 0; for (auto &x : M) tot += x.cells.count(c);
            ok &= drv::check((int)cm.size() == tot && s->num_cell_materials(c) == tot, "cellmats", "cell %d lists %d materials, want %d", c, (int)cm.size(), tot);
          }
        }
        if (!ok) break;
        for (int v = 0; v < (int)V.size(); v++) {
          auto &x = get(v);
          if (!drv::check(x.size() == M.size(), "vec-mats", "vector %d has %d materials, want %d", v, (int)x.size(), (int)M.size())) { ok = false; break; }
          for (int m = 0; m < (int)M.size(); m++) {
            auto const &mc = s->material_cells(m);
            if (!drv::check(x[m].size() == mc.size(), "vec-size", "vector %d material %d has %d values, want %d", v, m, (int)x[m].size(), (int)mc.size())) { ok = false; break; }
            for (size_t j = 0; j < mc.size(); j++) {
              double &y = V[v][{M[m].name, mc[j]}];
              if (!std::isnan(y)) ok &= drv::check(x[m][j] == y, "vec-value", "vector %d, cell %d of material %d has value %g, had %g", v, mc[j], m, x[m][j], y);
              y = x[m][j] = g.below(1000000);
            }
          }
        }
        if (!ok) break;
      }
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
