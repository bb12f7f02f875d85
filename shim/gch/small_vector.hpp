// Stand-in for gch::small_vector (absent from this sandbox): same interface,
// std::vector storage. Used only to parse/compile /repo's headers here.
#pragma once
#include <initializer_list>
#include <memory>
#include <vector>
namespace gch {
template <typename T, unsigned N = 8, typename A = std::allocator<T>>
class small_vector : public std::vector<T, A> {
 public:
  using std::vector<T, A>::vector;
  small_vector() = default;
};
template <typename T, unsigned N, typename A, typename Pred>
auto erase_if(small_vector<T, N, A>& v, Pred p) {
  return std::erase_if(static_cast<std::vector<T, A>&>(v), p);
}
}  // namespace gch
