// Instantiates the templates of State so that the verifier sees their bodies (all of them from /repo's JaliState.h).
#include <memory>
#include "JaliState.h"
namespace Jali {
template <class T, class D>
void use(State &s, State const &k, std::string n, std::shared_ptr<D> d, T const *data, T const * const *mdata, T const &v) {
  const auto U = StateVector_type::UNIVAL, M = StateVector_type::MULTIVAL;
  const Entity_kind ek = Entity_kind::CELL; const Entity_type et = Entity_type::ALL;
  (void)s.find(n, ek, et); (void)k.find(n, ek, et);
  (void)s.find(n, d, ek, et); (void)k.find(n, d, ek, et);
  (void)s.template find<D, U>(n, d, ek, et); (void)k.template find<D, U>(n, d, ek, et);
  (void)s.template find<D, M>(n, d, ek, et); (void)k.template find<D, M>(n, d, ek, et);
  (void)s.template find<T, D, UniStateVector>(n, d, ek, et); (void)k.template find<T, D, UniStateVector>(n, d, ek, et);
  (void)s.template find<T, D, MultiStateVector>(n, d, ek, et); (void)k.template find<T, D, MultiStateVector>(n, d, ek, et);
  (void)s.template find<T, D, U>(n, d, ek, et); (void)k.template find<T, D, U>(n, d, ek, et);
  (void)s.template find<T, D, M>(n, d, ek, et); (void)k.template find<T, D, M>(n, d, ek, et);
  UniStateVector<T, D> u; MultiStateVector<T, D> m;
  std::shared_ptr<UniStateVector<T, D>> pu; std::shared_ptr<MultiStateVector<T, D>> pm;
  std::shared_ptr<UniStateVector<T, D> const> cu; std::shared_ptr<MultiStateVector<T, D> const> cm;
  (void)s.get(n, d, ek, et, &u); (void)s.get(n, d, ek, et, &m); (void)s.get(n, d, ek, et, &pu); (void)s.get(n, d, ek, et, &pm);
  (void)k.get(n, d, ek, et, &cu); (void)k.get(n, d, ek, et, &cm);
  (void)s.get(n, d, &pu); (void)s.get(n, d, &pm); (void)k.get(n, d, &cu); (void)k.get(n, d, &cm);
  (void)s.template add<T, D, UniStateVector>(n, d, ek, et); (void)s.template add<T, D, MultiStateVector>(n, d, ek, et);
  (void)s.add(n, d, ek, et, data); (void)s.add(n, d, ek, et, Data_layout::CELL_CENTRIC, mdata);
  (void)s.template add<T, D, UniStateVector>(n, d, ek, et, v); (void)s.template add<T, D, MultiStateVector>(n, d, ek, et, v);
}
template <class T>
void usem(State &s, std::string n) {
  UniStateVector<T, Mesh> u; MultiStateVector<T, Mesh> m;
  (void)s.get(n, &u); (void)s.get(n, &m); (void)s.add(u);
}
void use_all(State &s, State const &k, std::shared_ptr<Mesh> m, std::shared_ptr<MeshTile> t, double const *d, int const *i, double const * const *dd, int const * const *ii) {
  use<double, Mesh>(s, k, "", m, d, dd, 0.0);
  use<int, MeshTile>(s, k, "", t, i, ii, 0);
  usem<double>(s, "");
  (void)s.begin(); (void)s.end(); (void)k.cbegin(); (void)k.cend(); (void)s.names_begin(); (void)s.names_end(); (void)s.size(); (void)s[0]; (void)k[0];
  (void)s.entity_begin(Entity_kind::CELL); (void)s.entity_end(Entity_kind::CELL);
}
}
