// Stand-in for gharveymn/small_vector (not available offline): same interface
// subset, backed by std::vector.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>
namespace gch {
template <class T, unsigned N = 8, class A = std::allocator<T>>
using small_vector = std::vector<T, A>;
}  // namespace gch
