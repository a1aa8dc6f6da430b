// C09: random histories of additions and removals against a set model
#include "meshes.hh"
using namespace Jali; using namespace tmesh;
static void same(MeshSet &s, std::set<int> const &m, Mesh &mesh, Entity_kind k, bool rev, std::string const &h) {
  auto own = s.entities<ET::PARALLEL_OWNED>(), gh = s.entities<ET::PARALLEL_GHOST>(), all = s.entities<ET::ALL>();
  std::set<int> eo, eg;
  for (int e : m) (mesh.entity_get_type(k, e) == ET::PARALLEL_OWNED ? eo : eg).insert(e);
  drv::check(own.size() == eo.size() && std::set<int>(own.begin(), own.end()) == eo, "members", "owned %s after %s", drv::show(own).c_str(), h.c_str());
  drv::check(gh.size() == eg.size() && std::set<int>(gh.begin(), gh.end()) == eg, "members", "ghost %s after %s", drv::show(gh).c_str(), h.c_str());
  std::vector<int> cat = own; cat.insert(cat.end(), gh.begin(), gh.end());
  drv::check(all.size() == m.size() && std::set<int>(all.begin(), all.end()) == m, "all", "all %s after %s", drv::show(all).c_str(), h.c_str());
  bool of = true; bool g = false;
  for (int e : all) { if (mesh.entity_get_type(k, e) == ET::PARALLEL_GHOST) g = true; else if (g) of = false; }
  drv::check(of, "ownedfirst", "all list %s has a ghost before an owned entity after %s", drv::show(all).c_str(), h.c_str());
  drv::check(s.num_entities(ET::ALL) == m.size() && s.num_entities(ET::PARALLEL_OWNED) == eo.size() && s.num_entities(ET::PARALLEL_GHOST) == eg.size() &&
             s.num_entities(k, ET::ALL) == m.size(), "counts", "counts after %s", h.c_str());
  if (rev) {
    int n = mesh.num_entities(k, ET::ALL);
    for (int e = 0; e < n; e++) {
      int want = std::find(all.begin(), all.end(), e) - all.begin(); if (want == (int)all.size()) want = -1;
      if (!drv::check(s.index_in_set(e) == want, "reverse", "index of %d is %d, want %d, list %s after %s", e, s.index_in_set(e), want, drv::show(all).c_str(), h.c_str())) break;
    }
  }
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 1500 : 250;
  drv::Rng g(drv::seed() * 131 + 9);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 5 == 0 ? 0 : 1 + g.below(2); o.seed = t + 1;
      Desc d = make(o);
      bool sub = t % 7 == 0;
      TestMesh mesh(d, true, sub, sub, sub, sub);
      Entity_kind ks[] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE, Entity_kind::CORNER, Entity_kind::WEDGE};
      Entity_kind k = ks[g.below(sub ? 5 : 3)];
      int n = mesh.num_entities(k, ET::ALL);
      bool rev = g.below(4) != 0;
      std::set<int> m; std::vector<int> own, gh; std::string h = "create";
      for (int e = 0; e < n; e++) if (g.below(3) == 0) { m.insert(e); (mesh.entity_get_type(k, e) == ET::PARALLEL_OWNED ? own : gh).push_back(e); }
      drv::at("trial %d kind %d dim %d ghosts %d reverse map %d", t, (int)k, o.dim, o.ghosts, (int)rev);
      auto s = t % 2 ? make_meshset("s", mesh, k, own, gh, rev) : std::make_shared<MeshSet>("s", mesh, k, own, gh, rev);
      h += drv::show(own) + drv::show(gh);
      drv::check(s->name() == "s" && s->kind() == k, "name", "name or kind");
      same(*s, m, mesh, k, rev, h);
      int ops = 1 + g.below(12);
      for (int i = 0; i < ops; i++) {
        int w = g.below(5);
        std::vector<int> in, out;
        for (int e = 0; e < n; e++) (m.count(e) ? in : out).push_back(e);
        auto pick = [&](std::vector<int> const &from, int filter) {
          std::vector<int> r, p = from;
          for (int j = (int)p.size() - 1; j > 0; j--) std::swap(p[j], p[g.below(j + 1)]);
          int want = g.below((int)p.size() + 1); if (want > 4 && g.below(3)) want = 1 + g.below(4);
          for (int e : p) {
            if ((int)r.size() >= want) break;
            ET ty = mesh.entity_get_type(k, e);
            if (filter == 1 && ty != ET::PARALLEL_OWNED) continue;
            if (filter == 2 && ty != ET::PARALLEL_GHOST) continue;
            r.push_back(e);
          }
          return r;
        };
        if (w == 0 && out.size()) { int e = out[g.below(out.size())]; s->add_entity(e); m.insert(e); h += " add " + std::to_string(e); }
        else if (w == 1 && n) { int e = g.below(4) && in.size() ? in[g.below(in.size())] : g.below(n); s->rem_entity(e); m.erase(e); h += " rem " + std::to_string(e); }
        else if (w == 2) { auto v = pick(out, g.below(3)); s->add_entities(v); m.insert(v.begin(), v.end()); h += " add" + drv::show(v); }
        else if (w == 3) {
          auto v = pick(in, g.below(3)); if (v.size() && g.below(3) == 0) v.push_back(v[g.below(v.size())]);
          if (out.size() && g.below(3) == 0) v.insert(v.begin() + g.below((int)v.size() + 1), out[g.below(out.size())]);
          s->rem_entities(v); for (int e : v) m.erase(e); h += " rem" + drv::show(v);
        } else if (w == 4) { auto c = std::make_shared<MeshSet>(*s); if (g.below(2)) { auto old = s; std::set<int> om = m; s = c; if (out.size()) { int e = out[0]; s->add_entity(e); m.insert(e); h += " copy,add " + std::to_string(e); } same(*old, om, mesh, k, rev, h + " (source of the copy)"); } }
        same(*s, m, mesh, k, rev, h);
      }
      if (t < 3) drv::sample("%s", h.c_str());
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
