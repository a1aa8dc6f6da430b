// C10: set algebra against a model
#include "meshes.hh"
using namespace Jali; using namespace tmesh;
typedef std::shared_ptr<MeshSet> SP;
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 1500 : 300;
  drv::Rng g(drv::seed() * 77 + 10);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 5 == 0 ? 0 : 1 + g.below(2); o.seed = t + 1;
      Desc d = make(o);
      TestMesh mesh(d, true, false, false, false, false);
      Entity_kind ks[] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
      Entity_kind k = ks[g.below(3)];
      int n = mesh.num_entities(k, ET::ALL);
      bool rev = g.below(3) != 0;
      int ns = 1 + g.below(4);
      std::vector<SP> S; std::vector<std::set<int>> M; std::string txt;
      for (int i = 0; i < ns; i++) {
        std::set<int> m; std::vector<int> own, gh; int den = 1 + g.below(4);
        if (i && g.below(5) == 0) { S.push_back(S[g.below(i)]); for (int j = 0; j < i; j++) if (S[j] == S[i]) { M.push_back(M[j]); break; } continue; }
        for (int e = n - 1; e >= 0; e--) if (g.below(4) < den) { m.insert(e); (mesh.entity_get_type(k, e) == ET::PARALLEL_OWNED ? own : gh).push_back(e); }
        S.push_back(make_meshset("S" + std::to_string(i), mesh, k, own, gh, rev)); M.push_back(m);
        txt += drv::show(own) + drv::show(gh);
      }
      std::vector<std::string> names; std::vector<std::vector<int>> lo, lg, la;
      for (auto &s : S) { names.push_back(s->name()); lo.push_back(s->entities<ET::PARALLEL_OWNED>()); lg.push_back(s->entities<ET::PARALLEL_GHOST>()); la.push_back(s->entities<ET::ALL>()); }
      for (int op = 0; op < 4; op++) for (int temp = 0; temp < 2; temp++) {
        static const char *nm[] = {"merge", "subtract", "intersect", "complement"};
        if (op == 1 && ns < 2) continue;
        drv::at("trial %d %s of %d sets %s", t, nm[op], ns, txt.substr(0, 400).c_str());
        std::set<int> want;
        for (int e = 0; e < n; e++) {
          bool any = false, all = true, later = false;
          for (int i = 0; i < ns; i++) { bool in = M[i].count(e); any |= in; all &= in; if (i) later |= in; }
          bool w = op == 0 ? any : op == 1 ? M[0].count(e) && !later : op == 2 ? all : !any;
          if (w) want.insert(e);
        }
        int before = mesh.num_sets();
        SP r = op == 0 ? merge(S, temp) : op == 1 ? subtract(S[0], std::vector<SP>(S.begin() + 1, S.end()), temp) : op == 2 ? intersect(S, temp) : complement(S, temp);
        auto own = r->entities<ET::PARALLEL_OWNED>(), gh = r->entities<ET::PARALLEL_GHOST>(), all = r->entities<ET::ALL>();
        std::set<int> eo, eg;
        for (int e : want) (mesh.entity_get_type(k, e) == ET::PARALLEL_OWNED ? eo : eg).insert(e);
        drv::check(own.size() == eo.size() && std::set<int>(own.begin(), own.end()) == eo, nm[op], "owned %s", drv::show(own).c_str());
        drv::check(gh.size() == eg.size() && std::set<int>(gh.begin(), gh.end()) == eg, nm[op], "ghost %s want %s", drv::show(gh).c_str(), drv::show(eg).c_str());
        std::vector<int> cat = own; cat.insert(cat.end(), gh.begin(), gh.end());
        drv::check(all == cat, nm[op], "all list %s", drv::show(all).c_str());
        drv::check(r->kind() == k && &r->mesh() == &mesh, nm[op], "kind or mesh");
        if (rev) for (int i = 0; i < (int)all.size(); i++) drv::check(r->index_in_set(all[i]) == i, nm[op], "reverse lookup of the result");
        int grew = mesh.num_sets() - before;
        if (temp) drv::check(grew == 0, nm[op], "a temporary result was added to the mesh");
        for (int i = 0; i < ns; i++) drv::check(S[i]->name() == names[i] && S[i]->entities<ET::PARALLEL_OWNED>() == lo[i] && S[i]->entities<ET::PARALLEL_GHOST>() == lg[i] &&
            S[i]->entities<ET::ALL>() == la[i], "operands", "%s changed operand %d", nm[op], i);
      }
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
