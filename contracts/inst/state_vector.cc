// Instantiates the state vector templates of /repo so that the verifier sees their member functions.
// (No code of the library is repeated here: the bodies that are verified are those of JaliStateVector.h and JaliState.h.)
#include <memory>
#include <typeinfo>
#include "JaliStateVector.h"
#include "JaliState.h"
namespace Jali {
template <class T, class D>
void use(std::shared_ptr<D> d, std::shared_ptr<State> s, T const *data, T v) {
  UniStateVector<T, D> a("a", d, s, Entity_kind::CELL, Entity_type::ALL, data), b("b", d, s, Entity_kind::CELL, Entity_type::ALL, v), c(a), z;
  c = b;
  UniStateVector<T, D> const &k = c;
  c[0] = k[1];
  c.resize(3); c.resize(3, v); c.clear();
  (void)c.size(); (void)c.type(); (void)c.data_type(); (void)c.name(); (void)c.entity_kind(); (void)c.entity_type(); (void)c.domain();
  (void)c.begin(); (void)c.end(); (void)k.cbegin(); (void)k.cend(); (void)c.get_raw_data(); (void)k.get_raw_data(); (void)c.get_data();
}
template <class T, class D>
void usem(std::shared_ptr<D> d, std::shared_ptr<State> s, T const * const *data, T v) {
  MultiStateVector<T, D> a("a", d, s, Entity_kind::CELL, Entity_type::ALL, Data_layout::CELL_CENTRIC, data), b("b", d, s, Entity_kind::CELL, Entity_type::ALL, v), c(a);
  c = b;
  MultiStateVector<T, D> const &k = c;
  c(0, 1) = k(1, 0);
  c.allocate(); c.assign(Data_layout::CELL_CENTRIC, data); c.assign(v);
  c.resize(1, 3); c.resize(1, 3, v); c.insert(1, 2, 3); c.clear(); c.clear(1); c.add_material(4); c.rem_material(2);
  (void)c.size(); (void)c.size(1); (void)c.type(); (void)c.data_type(); (void)c.get_matdata(1); (void)k.get_matdata(1); (void)c.get_raw_data(1); (void)k.get_raw_data(1); (void)c.get_data();
  (void)c.begin(1); (void)c.end(1); (void)k.cbegin(1); (void)k.cend(1);
}
void use_all(std::shared_ptr<Mesh> m, std::shared_ptr<MeshTile> t, std::shared_ptr<State> s, double const *d, int const *i, double const * const *dd) {
  use<double, Mesh>(m, s, d, 0.0);
  use<int, MeshTile>(t, s, i, 0);
  usem<double, Mesh>(m, s, dd, 0.0);
}
}
