// Stand-in for gch::small_vector (not installed in this sandbox): the same
// observable container semantics on top of std::vector.
#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <vector>

namespace gch {
template <typename T, unsigned N = 0, typename A = std::allocator<T>>
class small_vector : public std::vector<T, A> {
  using base = std::vector<T, A>;

 public:
  using base::base;
  small_vector() = default;
  small_vector(const small_vector&) = default;
  small_vector(small_vector&&) noexcept = default;
  small_vector& operator=(const small_vector&) = default;
  small_vector& operator=(small_vector&&) noexcept = default;
  template <typename U>
  void append(U&& other) {
    this->insert(this->end(), other.begin(), other.end());
  }
};
template <typename T, unsigned N, typename A, typename P>
auto erase_if(small_vector<T, N, A>& v, P p) {
  auto it = std::remove_if(v.begin(), v.end(), p);
  auto n = v.end() - it;
  v.erase(it, v.end());
  return static_cast<std::size_t>(n);
}
template <typename T, unsigned N, typename A, typename U>
auto erase(small_vector<T, N, A>& v, const U& u) {
  return gch::erase_if(v, [&](const auto& e) { return e == u; });
}
}  // namespace gch
