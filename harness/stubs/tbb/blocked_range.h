// Serial stand-in for oneTBB: one range, walked in order.
#pragma once
#include <cstddef>
namespace tbb {
template <class T> class blocked_range {
    T b_, e_;
  public:
    using const_iterator = T;
    blocked_range(T b, T e, std::size_t = 1) : b_(b), e_(e) {}
    T begin() const { return b_; } T end() const { return e_; } std::size_t size() const { return static_cast<std::size_t>(e_ - b_); } bool empty() const { return !(b_ < e_); }
};
}
