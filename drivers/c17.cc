// C17: random registration histories against a list model
#include "meshes.hh"
#include "JaliState.h"
#include "JaliStateVector.h"
using namespace Jali; using namespace tmesh;
struct E { std::string name; int kind, type, multi, isint, tile; void *dom; int tag; std::shared_ptr<StateVectorBase> p; };
static std::vector<E> reg;
static const int ANY = (int)Entity_kind::ANY_KIND, ALLT = (int)ET::ALL;
static int lookup(std::string const &n, int kind, int type, int multi, int isint, int tile, void *dom) {   // -1: any
  for (size_t i = 0; i < reg.size(); i++) {
    E &e = reg[i];
    if (e.name == n && (kind == ANY || e.kind == kind) && (type == ALLT || e.type == type) && (multi < 0 || e.multi == multi) && (isint < 0 || e.isint == isint) &&
        (tile < 0 || (e.tile == tile && e.dom == dom))) return (int)i;
  }
  return -1;
}
static std::string what;
template <class It> static void found(It it, It b, It e, int want, const char *f) {
  int got = it == e ? -1 : (int)(it - b);
  drv::check(got == want, f, "found entry %d, want %d: %s", got, want, what.c_str());
}
template <class T, class D, template <class, class> class V> static void fill(V<T, D> &v, int tag);
template <class T, class D> static void fillu(UniStateVector<T, D> &v, int tag) { for (int i = 0; i < (int)v.size(); i++) v[i] = (T)(tag * 100 + i); }
template <class T, class D> static void fillm(MultiStateVector<T, D> &v, int tag) { for (int m = 0; m < (int)v.size(); m++) for (int i = 0; i < (int)v.size(m); i++) v.get_matdata(m)[i] = (T)(tag * 100 + m * 10 + i); }
template <class T, class D> static bool hasu(UniStateVector<T, D> &v, int tag) { for (int i = 0; i < (int)v.size(); i++) if (v[i] != (T)(tag * 100 + i)) return false; return true; }
template <class T, class D> static bool hasm(MultiStateVector<T, D> &v, int tag) { for (int m = 0; m < (int)v.size(); m++) for (int i = 0; i < (int)v.size(m); i++) if (v.get_matdata(m)[i] != (T)(tag * 100 + m * 10 + i)) return false; return true; }

template <class T, class D>
static void lookups(State &s, State const &cs, std::string const &n, std::shared_ptr<D> dom, Entity_kind k, ET ty, int isint, int tile) {
  int kk = (int)k, tt = (int)ty; void *dp = dom.get();
  const auto U = StateVector_type::UNIVAL, M = StateVector_type::MULTIVAL;
  found(s.find(n, k, ty), s.begin(), s.end(), lookup(n, kk, tt, -1, -1, -1, 0), "find-name");
  found(cs.find(n, k, ty), cs.cbegin(), cs.cend(), lookup(n, kk, tt, -1, -1, -1, 0), "find-name");
  found(s.find(n, dom, k, ty), s.begin(), s.end(), lookup(n, kk, tt, -1, -1, tile, dp), "find-domain");
  found(cs.find(n, dom, k, ty), cs.cbegin(), cs.cend(), lookup(n, kk, tt, -1, -1, tile, dp), "find-domain");
  found(s.template find<D, U>(n, dom, k, ty), s.begin(), s.end(), lookup(n, kk, tt, 0, -1, tile, dp), "find-uni");
  found(s.template find<D, M>(n, dom, k, ty), s.begin(), s.end(), lookup(n, kk, tt, 1, -1, tile, dp), "find-multi");
  found(cs.template find<D, U>(n, dom, k, ty), cs.cbegin(), cs.cend(), lookup(n, kk, tt, 0, -1, tile, dp), "find-uni");
  found(cs.template find<D, M>(n, dom, k, ty), cs.cbegin(), cs.cend(), lookup(n, kk, tt, 1, -1, tile, dp), "find-multi");
  int wu = lookup(n, kk, tt, 0, isint, tile, dp), wm = lookup(n, kk, tt, 1, isint, tile, dp);
  found(s.template find<T, D, UniStateVector>(n, dom, k, ty), s.begin(), s.end(), wu, "find-typed");
  found(s.template find<T, D, MultiStateVector>(n, dom, k, ty), s.begin(), s.end(), wm, "find-typed");
  found(cs.template find<T, D, UniStateVector>(n, dom, k, ty), cs.cbegin(), cs.cend(), wu, "find-typed");
  found(cs.template find<T, D, MultiStateVector>(n, dom, k, ty), cs.cbegin(), cs.cend(), wm, "find-typed");
  found(s.template find<T, D, U>(n, dom, k, ty), s.begin(), s.end(), wu, "find-typed");
  found(s.template find<T, D, M>(n, dom, k, ty), s.begin(), s.end(), wm, "find-typed");
  found(cs.template find<T, D, U>(n, dom, k, ty), cs.cbegin(), cs.cend(), wu, "find-typed");
  found(cs.template find<T, D, M>(n, dom, k, ty), cs.cbegin(), cs.cend(), wm, "find-typed");
  UniStateVector<T, D> u; MultiStateVector<T, D> m; std::shared_ptr<UniStateVector<T, D>> pu; std::shared_ptr<MultiStateVector<T, D>> pm;
  bool a = s.get(n, dom, k, ty, &u), b = s.get(n, dom, k, ty, &m), c = s.get(n, dom, k, ty, &pu), d = s.get(n, dom, k, ty, &pm);
  drv::check(a == (wu >= 0) && c == a && b == (wm >= 0) && d == b, "get", "get returned %d %d %d %d, want %d %d: %s", a, c, b, d, wu, wm, what.c_str());
  if (a && wu >= 0) drv::check(u.name() == n && (int)u.entity_kind() == reg[wu].kind && (int)u.entity_type() == reg[wu].type && u.domain() == dom && hasu(u, reg[wu].tag), "get-data", "wrong vector or data: %s", what.c_str());
  if (b && wm >= 0) drv::check(m.name() == n && (int)m.entity_kind() == reg[wm].kind && m.domain() == dom && hasm(m, reg[wm].tag), "get-data", "wrong multi vector or data: %s", what.c_str());
  if (c && wu >= 0) drv::check(pu == reg[wu].p, "get-ptr", "other object: %s", what.c_str());
  if (d && wm >= 0) drv::check(pm == reg[wm].p, "get-ptr", "other object: %s", what.c_str());
  std::shared_ptr<UniStateVector<T, D>> qu; std::shared_ptr<UniStateVector<T, D> const> ru; std::shared_ptr<MultiStateVector<T, D> const> rm;
  int au = lookup(n, ANY, ALLT, 0, isint, tile, dp);
  bool e = s.get(n, dom, &qu), f = cs.get(n, dom, k, ty, &ru), h = cs.get(n, dom, k, ty, &rm);
  drv::check(e == (au >= 0) && (!e || qu == reg[au].p) && f == (wu >= 0) && (!f || ru == reg[wu].p) && h == (wm >= 0) && (!h || rm == reg[wm].p), "get-short", "get variants: %s", what.c_str());
}
template <class T>
static void shortget(State &s, std::string const &n, void *mesh, int isint) {
  UniStateVector<T, Mesh> u; MultiStateVector<T, Mesh> m;
  int wu = lookup(n, ANY, ALLT, 0, isint, 0, mesh), wm = lookup(n, ANY, ALLT, 1, isint, 0, mesh);
  bool a = s.get(n, &u), b = s.get(n, &m);
  drv::check(a == (wu >= 0) && b == (wm >= 0) && (!a || hasu(u, reg[wu].tag)) && (!b || hasm(m, reg[wm].tag)), "get-mesh", "get by name: %s", what.c_str());
}
template <class T, class D>
static void add(State &s, std::string const &n, std::shared_ptr<D> dom, Entity_kind k, ET ty, int isint, int tile, int how, int tag, drv::Rng &g) {
  bool multi = how >= 4; int old = lookup(n, (int)k, (int)ty, multi, isint, tile, dom.get());
  size_t before = s.size();
  StateVectorBase *r = 0; int num = dom->num_entities(k, ty); std::vector<T> data(num + 1); for (int i = 0; i < num; i++) data[i] = (T)(tag * 100 + i);
  UniStateVector<T, D> *u = 0; MultiStateVector<T, D> *m = 0; bool uniform = false;
  switch (how) {
    case 0: u = &s.template add<T, D, UniStateVector>(n, dom, k, ty); break;
    case 1: case 3: u = &s.add(n, dom, k, ty, (T const *)&data[0]); break;
    case 2: u = &s.template add<T, D, UniStateVector>(n, dom, k, ty, (T)(tag * 100)); uniform = true; break;
    case 4: m = &s.template add<T, D, MultiStateVector>(n, dom, k, ty); break;
    case 5: m = &s.template add<T, D, MultiStateVector>(n, dom, k, ty, (T)(tag * 100)); uniform = true; break;
    default: {
      int nm = s.num_materials(), nc = s.mesh()->num_entities(Entity_kind::CELL, ET::ALL);
      std::vector<std::vector<T>> x(nm + 1, std::vector<T>(nc, (T)(tag * 100))); std::vector<T const *> p(nm + 1); for (int i = 0; i <= nm; i++) p[i] = &x[i][0];
      m = &s.add(n, dom, k, ty, Data_layout::MATERIAL_CENTRIC, &p[0]); uniform = true;
    }
  }
  r = u ? (StateVectorBase *)u : m;
  if (old >= 0) {
    drv::check(r == reg[old].p.get(), "dup-returns", "registering again returned another vector: %s", what.c_str());
    drv::check((size_t)s.size() == before, "dup-entry", "second entry: %s", what.c_str());
    return;
  }
  if (!drv::check((size_t)s.size() == before + 1 && s[before].get() == r, "entry", "%d entries after registering, %d before: %s", s.size(), (int)before, what.c_str())) return;
  drv::check(r->name() == n && r->entity_kind() == k && r->entity_type() == ty && r->type() == (multi ? StateVector_type::MULTIVAL : StateVector_type::UNIVAL) && r->data_type() == typeid(T), "meta", "metadata: %s", what.c_str());
  if (u) {
    drv::check((int)u->size() == num && u->domain() == dom, "size", "%d values: %s", (int)u->size(), what.c_str());
    for (int i = 0; i < (int)u->size(); i++) if (how && !drv::check((*u)[i] == (uniform ? (T)(tag * 100) : data[i]), "data", "value %d: %s", i, what.c_str())) break;
    fillu(*u, tag);
  } else {
    for (int j = 0; j < (int)m->size(); j++) for (int i = 0; i < (int)m->size(j); i++) if (uniform && !drv::check(m->get_matdata(j)[i] == (T)(tag * 100), "data", "multi value: %s", what.c_str())) break;
    fillm(*m, tag);
  }
  reg.push_back(E{n, (int)k, (int)ty, multi, isint, tile, dom.get(), tag, s[before]});
}

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 600 : 80;
  drv::Rng g(drv::seed() * 13 + 17);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 3; o.seed = t + 1;
      Desc d = make(o), d2 = make(o);
      std::shared_ptr<Mesh> mesh = std::make_shared<TestMesh>(d, true, true, false, false, false), mesh2 = std::make_shared<TestMesh>(d2, true, true, false, false, false);
      std::vector<int> own; for (int c = 0; c < d.nc(); c++) if (d.ct[c] == ET::PARALLEL_OWNED) own.push_back(c);
      auto tile = make_meshtile(*mesh, own, 0, true, true, false, false, false);
      std::vector<int> none; auto tile2 = make_meshtile(*mesh, none, 0, true, true, false, false, false);
      auto s = State::create(mesh); State const &cs = *s; reg.clear();
      if (t % 2) for (int i = 0; i < 2; i++) { std::vector<int> c; for (int j = 0; j < d.nc(); j++) if (g.below(2)) c.push_back(j); s->add_material("m" + std::to_string(i), c); }
      static const char *names[] = {"a", "b", "ab", "", "temperature"};
      Entity_kind ks[] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::ANY_KIND};
      ET ts[] = {ET::PARALLEL_OWNED, ET::PARALLEL_GHOST, ET::ALL};
      int ops = 2 + g.below(14);
      for (int i = 0; i < ops; i++) {
        std::string n = names[g.below(5)]; Entity_kind k = ks[g.below(4)]; ET ty = ts[g.below(3)]; int how = g.below(7), isint = g.below(2), dm = g.below(4);
        if (how >= 4) { k = Entity_kind::CELL; ty = ET::ALL; if (dm == 1) dm = 0; }
        char b[200]; snprintf(b, sizeof b, "trial %d step %d: register '%s' kind %d type %d form %d int %d domain %d", t, i, n.c_str(), (int)k, (int)ty, how, isint, dm); what = b; drv::at("%s", b);
        if (dm < 2) { auto &dd = dm == 1 ? mesh2 : mesh; if (isint) add<int, Mesh>(*s, n, dd, k, ty, 1, 0, how, i + 1, g); else add<double, Mesh>(*s, n, dd, k, ty, 0, 0, how, i + 1, g); }
        else { auto &dd = dm == 2 ? tile : tile2; if (isint) add<int, MeshTile>(*s, n, dd, k, ty, 1, 1, how, i + 1, g); else add<double, MeshTile>(*s, n, dd, k, ty, 0, 1, how, i + 1, g); }
        if (g.below(4) == 0) {   // copies of a vector of this or of another mesh
          bool other = g.below(2); Entity_kind k2 = ks[g.below(4)]; ET t2 = ts[g.below(3)]; auto &dd = other ? mesh2 : mesh;
          UniStateVector<double, Mesh> v("cp" + n, dd, s, k2, t2); fillu(v, i + 50);
          int old = lookup("cp" + n, (int)k2, (int)t2, 0, 0, 0, mesh.get()); size_t before = s->size();
          what += other ? " then a copy from another mesh" : " then a copy";
          if (v.size() || !other) {
            auto &r = s->add(v);
            if (old >= 0) drv::check((size_t)s->size() == before && &r == reg[old].p.get(), "dup-copy", "copying again: %s", what.c_str());
            else if (drv::check((size_t)s->size() == before + 1 && &r == (*s)[before].get() && r.domain() == mesh && hasu(r, i + 50) && r.size() == v.size(), "copy", "copied vector: %s", what.c_str())) {
              if (v.size()) { v[0] = -1; drv::check(r[0] == (i + 50) * 100, "copy-alias", "copy shares data: %s", what.c_str()); }
              reg.push_back(E{"cp" + n, (int)k2, (int)t2, 0, 0, 0, mesh.get(), i + 50, (*s)[before]});
            }
          }
        }
        // the whole registry
        drv::check((size_t)s->size() == reg.size(), "count", "%d entries, want %d: %s", s->size(), (int)reg.size(), what.c_str());
        if ((size_t)s->size() != reg.size()) break;
        size_t p = 0; for (auto &v : *s) { drv::check(v == reg[p].p && (*s)[p] == v && cs[p] == v, "iterate", "entry %d: %s", (int)p, what.c_str()); p++; }
        p = 0; for (auto it = cs.cbegin(); it != cs.cend(); ++it, ++p) drv::check(*it == reg[p].p, "iterate", "entry %d: %s", (int)p, what.c_str());
        p = 0; for (auto it = s->names_begin(); it != s->names_end(); ++it, ++p) if (p < reg.size()) drv::check(*it == reg[p].name, "names", "name %d is '%s': %s", (int)p, it->c_str(), what.c_str());
        drv::check(p == reg.size(), "names", "%d names: %s", (int)p, what.c_str());
        for (auto kk : ks) {
          if (kk == Entity_kind::ANY_KIND) continue;
          std::vector<int> w; for (size_t j = 0; j < reg.size(); j++) if (reg[j].kind == (int)kk) w.push_back(j);
          size_t x = 0; auto b1 = s->entity_begin(kk), e1 = s->entity_end(kk); auto nb = s->names_entity_begin(kk), ne = s->names_entity_end(kk);
          if (!drv::check(e1 - b1 == (long)w.size() && ne - nb == (long)w.size(), "kind-count", "%d vectors on kind %d, want %d: %s", (int)(e1 - b1), (int)kk, (int)w.size(), what.c_str())) continue;
          for (; b1 != e1; ++b1, ++nb, ++x) {
            long at = &*b1 - &*s->begin();
            if (!drv::check(at == w[x], "kind-order", "position %d of kind %d is entry %ld, want %d: %s", (int)x, (int)kk, at, w[x], what.c_str())) break;
            drv::check(*nb == reg[w[x]].name, "kind-names", "name: %s", what.c_str());
          }
        }
        for (int z = 0; z < 6; z++) {
          std::string n2 = g.below(4) ? names[g.below(5)] : std::string("cp") + names[g.below(5)]; Entity_kind k2 = ks[g.below(5)]; ET t2 = ts[g.below(3)]; int dm2 = g.below(4), i2 = g.below(2);
          char b2[300]; snprintf(b2, sizeof b2, "%s; look up '%s' kind %d type %d domain %d int %d", b, n2.c_str(), (int)k2, (int)t2, dm2, i2); what = b2; drv::at("%s", b2);
          if (dm2 < 2) { auto &dd = dm2 == 1 ? mesh2 : mesh; if (i2) { lookups<int, Mesh>(*s, cs, n2, dd, k2, t2, 1, 0); shortget<int>(*s, n2, mesh.get(), 1); } else { lookups<double, Mesh>(*s, cs, n2, dd, k2, t2, 0, 0); shortget<double>(*s, n2, mesh.get(), 0); } }
          else { auto &dd = dm2 == 2 ? tile : tile2; if (i2) lookups<int, MeshTile>(*s, cs, n2, dd, k2, t2, 1, 1); else lookups<double, MeshTile>(*s, cs, n2, dd, k2, t2, 0, 1); }
        }
      }
      reg.clear();
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
