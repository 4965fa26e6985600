// positive and negative controls of the rule `moved`
#include <memory>
#include <type_traits>
#include <utility>
#include <dlaf/common/range2d.h>
#include <dlaf/matrix/index.h>
static_assert(std::is_trivially_copyable_v<dlaf::common::IterableRange2D<dlaf::SizeType, dlaf::matrix::LocalTile_TAG>>);
int use(std::unique_ptr<int>);
struct Own { Own(Own&&); ~Own(); int v; };
int use(Own);
int simple(std::unique_ptr<int> p, bool b) {
  int r = use(std::move(p));
  if (b) r += *p;  // moved
  return r;
}
template <class T> int generic(T p, bool b) {
  int r = 0;
  for (int i = 0; i < 3; ++i) r += use(std::move(p));  // moved
  return r;
}
template int generic(Own, bool);
int fine(std::unique_ptr<int> p, bool b) {
  int r = 0;
  if (b) r = use(std::move(p)); else r = *p;
  p = std::make_unique<int>(1);
  return r + *p;
}
