// C11: sets built from regions against an independent evaluation of the region on every entity
#include "meshes.hh"
#include "GeometricModel.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
using namespace Jali; using namespace tmesh; using namespace JaliGeometry;
typedef std::shared_ptr<MeshSet> SP;
typedef Entity_kind EK;
static const EK KS[] = {EK::CELL, EK::FACE, EK::NODE};
struct R {                                     // what a region is supposed to hold, by name
  std::string name; int ty = 0; X3 a, b; int ax = 0; bool seg = false;   // 0 box 1 plane 2 point 3 polygon 4 label 5 logical
  EK lk = EK::CELL; int op = 0; std::vector<int> comp; bool temp = false; int dim = 0;
};
struct Model {
  int dim; std::vector<R> r; TestMesh *m = nullptr;
  bool supports(int i, EK k) const {
    R const &q = r[i];
    if (q.ty == 2) return k != EK::FACE;
    if (q.ty == 3) return k != EK::CELL;
    if (q.ty == 4) return k == q.lk;
    if (q.ty == 5) { for (int c : q.comp) if (!supports(c, k)) return false; return true; }
    return true;
  }
  bool point_in(R const &q, Point const &p) const {
    for (int i = 0; i < dim; i++) {
      if (q.ty == 0 && (p[i] < std::min(q.a[i], q.b[i]) - 1e-8 || p[i] > std::max(q.a[i], q.b[i]) + 1e-8)) return false;
      if (q.ty == 2 && std::fabs(p[i] - q.a[i]) >= 1e-12) return false;
    }
    if (q.ty == 1) { double s = 0; for (int i = 0; i < dim; i++) s += (p[i] - q.a[i]) * q.b[i]; return std::fabs(s) <= 1e-12; }
    if (q.ty == 3) { if (std::fabs(p[q.ax] - q.a[q.ax]) > 1e-12) return false; for (int i = 0; i < dim; i++) if (i != q.ax && (p[i] < q.a[i] || p[i] > q.b[i])) return false; }
    return true;
  }
  bool has(int i, EK k, int e) const {
    R const &q = r[i];
    if (q.ty == 4) return e % 3 == 0;
    if (q.ty == 5) {
      bool any = false, all = true, later = false;
      for (size_t j = 0; j < q.comp.size(); j++) { bool h = has(q.comp[j], k, e); any |= h; all &= h; if (j) later |= h; }
      return q.op == 0 ? !any : q.op == 1 ? any : q.op == 2 ? all : has(q.comp[0], k, e) && !later;
    }
    if (k == EK::NODE) return point_in(q, m->pt(e));
    if (k == EK::FACE) {
      if (q.ty == 0) return point_in(q, m->face_centroid(e));
      for (int n : m->d.fn[e]) if (!point_in(q, m->pt(n))) return false;
      return true;
    }
    if (q.ty == 0) return point_in(q, m->cell_centroid(e));
    if (q.ty == 2) { Point p = dim == 2 ? Point(q.a[0], q.a[1]) : Point(q.a[0], q.a[1], q.a[2]); return m->point_in_cell(p, e); }
    if (dim == 3) return false;                 // a solid cell does not lie on a plane
    for (int n : m->d.cn[e]) if (!point_in(q, m->pt(n))) return false;
    return true;
  }
};
struct Snap { SP s; std::string name; EK k; std::vector<int> o, g, a; };
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 12000 : 2000;
  drv::Rng g(drv::seed() * 131 + 11);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1 + g.below(2); o.ghosts = t % 3 == 0 ? 0 : 1 + g.below(2);
      o.bghost = t % 7 == 0; o.seed = t + 3; o.jit = t % 4 == 3 ? .3 : 0; o.polys = g.below(2);
      Desc d = make(o);
      int mode = g.below(3);
      if (mode == 1) for (auto &x : d.X) x[0] += 4 * x[1];
      if (mode == 2) for (auto &x : d.X) x[0] = x[0] * x[0] * 3;
      double w = mode == 1 ? o.nx + 4 * o.ny : mode == 2 ? 3 * o.nx * o.nx : o.nx;
      double ext[3] = {w, (double)o.ny, (double)o.nz};
      // the regions
      Model M; M.dim = o.dim;
      GeometricModel gm(o.dim);
      std::vector<std::unique_ptr<Region>> own;
      int nr = 1 + g.below(6); bool odd = false; std::string txt;
      for (int i = 0; i < nr; i++) {
        R r; r.name = "r" + std::to_string(i); r.ty = g.below(i ? 7 : 5); if (r.ty == 6) r.ty = 5;
        if (r.ty == 5 && i == 0) r.ty = 0;
        auto P = [&](X3 const &x) { return o.dim == 2 ? Point(x[0], x[1]) : Point(x[0], x[1], x[2]); };
        for (int k = 0; k < 3; k++) { r.a[k] = -.5 + .25 * g.below(4 * (int)ext[k] + 5); r.b[k] = -.5 + .25 * g.below(4 * (int)ext[k] + 5); }
        auto keep_ = [&](Region *p) { if ((int)p->dimension() > o.dim) p->set_dimension(o.dim); own.emplace_back(p); gm.Add_Region(p); };
        if (r.ty == 0) {
          if (g.below(3) == 0) { int k = g.below(o.dim); r.b[k] = r.a[k]; }
          r.dim = 0; for (int k = 0; k < o.dim; k++) r.dim += r.a[k] != r.b[k];
          keep_(new BoxRegion(r.name, i + 1, P(r.a), P(r.b)));
        } else if (r.ty == 1) {
          int k = g.below(o.dim); for (int j = 0; j < 3; j++) r.b[j] = j == k; r.a[k] = g.below((int)ext[k] + 1);
          if (g.below(5) == 0) { r.b[0] = 1; r.b[1] = -1; }
          r.dim = o.dim - 1;
          keep_(new PlaneRegion(r.name, i + 1, P(r.a), P(r.b)));
        } else if (r.ty == 2) {
          if (g.below(2)) r.a = d.X[g.below(d.nn())];
          else { int c = g.below(d.nc()); double wsum = 0; for (int k = 0; k < 3; k++) r.a[k] = 0; for (int n : d.cn[c]) { double w1 = 1 + g.real(0, 1); wsum += w1; for (int k = 0; k < 3; k++) r.a[k] += w1 * d.X[n][k]; } for (int k = 0; k < 3; k++) r.a[k] /= wsum; if (g.below(6) == 0) r.a[1] += 50; }
          keep_(new PointRegion(r.name, i + 1, P(r.a)));
        } else if (r.ty == 3) {
          r.ax = g.below(o.dim); double at = g.below((int)ext[r.ax] + 1);
          for (int k = 0; k < 3; k++) { double lo = -.5 + .25 * g.below(3), hi = ext[k] * (g.below(2) ? .55 : 1) + .3; r.a[k] = lo; r.b[k] = hi; }
          r.a[r.ax] = r.b[r.ax] = at; r.dim = o.dim;
          std::vector<Point> pp;
          if (o.dim == 2) { pp = {P(r.a), P(r.b)}; }
          else { int u = (r.ax + 1) % 3, v = (r.ax + 2) % 3; X3 p1 = r.a, p2 = r.b, p3 = r.a; p1[u] = r.b[u]; p3[v] = r.b[v]; pp = {P(r.a), P(p1), P(p2), P(p3)}; }
          keep_(new PolygonRegion(r.name, i + 1, pp.size(), pp));
        } else if (r.ty == 4) {
          r.lk = KS[g.below(3)]; std::string s = r.lk == EK::CELL ? "CELL" : r.lk == EK::FACE ? "FACE" : "NODE";
          keep_(new LabeledSetRegion(r.name, i + 1, g.below(2) ? s : "Entity_kind::" + s, "file", "fmt", "lab"));
        } else {
          int n = 1 + g.below(3); std::vector<std::string> nm;
          for (int j = 0; j < n; j++) { r.comp.push_back(g.below(i)); nm.push_back(M.r[r.comp.back()].name); }
          r.op = g.below(4); r.temp = g.below(4) == 0;
          keep_(new LogicalRegion(r.name, i + 1, (Bool_type)r.op, nm, r.temp ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT));
        }
        M.r.push_back(r);
        if (r.ty == 5) odd = true;
        char b[200]; snprintf(b, sizeof b, " %s:t%d[%g %g %g|%g %g %g]op%d", r.name.c_str(), r.ty, r.a[0], r.a[1], r.a[2], r.b[0], r.b[1], r.b[2], r.op); txt += b;
        for (int c : r.comp) txt += "," + std::to_string(c);
      }
      // the model lists the regions in any order
      GeometricModel gm2(o.dim); { std::vector<int> pr(nr); for (int i = 0; i < nr; i++) pr[i] = i; for (int i = nr - 1; i > 0; i--) std::swap(pr[i], pr[g.below(i + 1)]); for (int i : pr) gm2.Add_Region(own[i].get()); }
      TestMesh mesh(d, true, false, false, false, false, 0, 0, Partitioner_type::INDEX, &gm2);
      M.m = &mesh;
      std::vector<Snap> seen;
      auto verify = [&](SP s, int i, EK k) {
        if (!drv::check(!!s, "missing", "no set for %s kind %d", M.r[i].name.c_str(), (int)k)) return;
        std::vector<int> eo, eg; int n = mesh.num_entities(k, ET::ALL);
        for (int e = 0; e < n; e++) { ET ty = mesh.entity_get_type(k, e); if ((ty == ET::PARALLEL_OWNED || ty == ET::PARALLEL_GHOST) && M.has(i, k, e)) (ty == ET::PARALLEL_OWNED ? eo : eg).push_back(e); }
        auto so = s->entities<ET::PARALLEL_OWNED>(), sg = s->entities<ET::PARALLEL_GHOST>(), sa = s->entities<ET::ALL>();
        std::sort(so.begin(), so.end()); std::sort(sg.begin(), sg.end());
        drv::check(so == eo, "content", "%s kind %d owned %s want %s", M.r[i].name.c_str(), (int)k, drv::show(so).c_str(), drv::show(eo).c_str());
        drv::check(sg == eg, "content", "%s kind %d ghost %s want %s", M.r[i].name.c_str(), (int)k, drv::show(sg).c_str(), drv::show(eg).c_str());
        drv::check(s->kind() == k && s->name() == M.r[i].name, "label", "%s kind %d is called %s kind %d", M.r[i].name.c_str(), (int)k, s->name().c_str(), (int)s->kind());
        drv::check(sa.size() == eo.size() + eg.size(), "content", "full list");
      };
      auto unaltered = [&](const char *what) {
        for (auto &s : seen) drv::check(s.s->name() == s.name && s.s->kind() == s.k && s.s->entities<ET::PARALLEL_OWNED>() == s.o && s.s->entities<ET::PARALLEL_GHOST>() == s.g && s.s->entities<ET::ALL>() == s.a,
                                        "altered", "set %s changed by %s", s.name.c_str(), what);
        auto const &all = mesh.sets();
        for (size_t i = 0; i < seen.size() && i < all.size(); i++) drv::check(all[i] == seen[i].s, "altered", "set list changed by %s", what);
        drv::check(all.size() >= seen.size(), "altered", "sets disappeared");
        for (size_t i = seen.size(); i < all.size(); i++) seen.push_back({all[i], all[i]->name(), all[i]->kind(), all[i]->entities<ET::PARALLEL_OWNED>(), all[i]->entities<ET::PARALLEL_GHOST>(), all[i]->entities<ET::ALL>()});
      };
      auto lookups = [&]() {
        for (int i = 0; i <= nr; i++) for (EK k : KS) {
          std::string nm = i < nr ? M.r[i].name : "nothing";
          int n = 0; SP first; for (auto const &s : mesh.sets()) if (s->name() == nm && s->kind() == k) { if (!n) first = s; n++; }
          SP f = mesh.find_meshset(nm, k);
          drv::check(f == first, "lookup", "find_meshset(%s, %d)", nm.c_str(), (int)k);
          drv::check(n <= 1, "duplicates", "%d sets %s of kind %d", n, nm.c_str(), (int)k);
          TestMesh const &cm = mesh;
          for (ET ty : {ET::PARALLEL_OWNED, ET::PARALLEL_GHOST, ET::ALL}) {
            std::vector<int> l(3, 7), w; mesh.get_set_entities(nm, k, ty, &l);
            if (f) w = ty == ET::PARALLEL_OWNED ? f->entities<ET::PARALLEL_OWNED>() : ty == ET::PARALLEL_GHOST ? f->entities<ET::PARALLEL_GHOST>() : f->entities<ET::ALL>();
            drv::check(l == w, "query", "get_set_entities(%s, %d, %d) = %s", nm.c_str(), (int)k, (int)ty, drv::show(l).c_str());
            drv::check(mesh.get_set_size(nm, k, ty) == w.size() && cm.get_set_size(nm, k, ty) == w.size(), "query", "get_set_size(%s, %d, %d)", nm.c_str(), (int)k, (int)ty);
          }
          bool v = mesh.valid_region_name(nm, k);
          if (i == nr) drv::check(!v, "valid", "unknown name accepted");
          else if (M.r[i].ty == 4) drv::check(v == (k == M.r[i].lk), "valid", "labeled set of kind %d: valid for %d is %d", (int)M.r[i].lk, (int)k, (int)v);
          else if (k == EK::NODE) drv::check(v, "valid", "region refused for nodes");
          if (f) verify(f, i, k);
        }
        int tot = 0;
        for (EK k : KS) {
          auto l = mesh.sets(k); int n = 0; for (auto const &s : mesh.sets()) n += s->kind() == k;
          drv::check((int)l.size() == n && mesh.num_sets(k) == n, "query", "sets of kind %d", (int)k);
          for (auto const &s : l) drv::check(s->kind() == k, "query", "wrong kind in sets(kind)");
          tot += n;
        }
        drv::check(mesh.num_sets(EK::ANY_KIND) == (int)mesh.sets().size() && tot == (int)mesh.sets().size() && mesh.sets(EK::ANY_KIND) == mesh.sets(), "query", "number of sets");
      };
      int steps = 1 + g.below(4);
      for (int s = 0; s < steps; s++) {
        bool init = g.below(2);
        if (init) {
          std::map<std::string, std::vector<EK>> want; bool plain = !odd && g.below(2);
          if (!plain) for (int i = 0; i < nr; i++) if (M.r[i].ty != 4) { auto &l = want[M.r[i].name]; for (EK k : KS) if (M.supports(i, k) && (M.r[i].ty == 5 || g.below(2))) l.push_back(k); }
          // a logical region over a labeled set is built for the label's kind only: skip models where another component refuses it
          bool bad = false;
          for (int i = 0; i < nr; i++) if (M.r[i].ty == 5) for (int c : M.r[i].comp) if (M.r[c].ty == 4) bad |= !M.supports(i, M.r[c].lk);
          if (bad) continue;
          drv::at("trial %d dim %d mode %d init(%s)%s", t, o.dim, mode, plain ? "default" : "map", txt.c_str());
          if (plain) mesh.init_sets_from_geometric_model(); else mesh.init_sets_from_geometric_model(want);
          unaltered("init_sets_from_geometric_model");
          for (int i = 0; i < nr; i++) if (M.r[i].ty < 4) {
            if (plain) {
              int rd = M.r[i].ty == 3 ? o.dim - 1 : M.r[i].dim;
              if (rd == o.dim) verify(mesh.find_meshset(M.r[i].name, EK::CELL), i, EK::CELL);
              if (rd >= o.dim - 1) verify(mesh.find_meshset(M.r[i].name, EK::FACE), i, EK::FACE);
              verify(mesh.find_meshset(M.r[i].name, EK::NODE), i, EK::NODE);
            } else for (EK k : want[M.r[i].name]) verify(mesh.find_meshset(M.r[i].name, k), i, k);
          } else if (M.r[i].ty == 4) verify(mesh.find_meshset(M.r[i].name, M.r[i].lk), i, M.r[i].lk);
        } else {
          int i = g.below(nr); EK k = KS[g.below(3)];
          drv::at("trial %d dim %d mode %d build(%s,%d)%s", t, o.dim, mode, M.r[i].name.c_str(), (int)k, txt.c_str());
          if (mesh.find_meshset(M.r[i].name, k)) continue;
          bool threw = false; SP r;
          try { r = g.below(2) && mesh.valid_region_name(M.r[i].name, k) ? mesh.find_meshset_from_region(M.r[i].name, k, true) : mesh.build_set_from_region(M.r[i].name, k, g.below(2)); }
          catch (Errors::Message &) { threw = true; } catch (std::exception &) { threw = true; }
          drv::check(threw == !M.supports(i, k), "support", "%s for kind %d", threw ? "refused" : "accepted", (int)k);
          unaltered("build_set_from_region");
          if (!threw) { verify(r, i, k); drv::check(mesh.find_meshset(M.r[i].name, k) == (M.r[i].ty == 5 && M.r[i].temp ? nullptr : r), "lookup", "the set built is not the one found"); }
        }
        lookups(); unaltered("queries");
      }
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
