#pragma once
#include "blocked_range.h"
namespace tbb {
template <class R, class C = R> class blocked_range2d {
    blocked_range<R> r_; blocked_range<C> c_;
  public:
    blocked_range2d(R rb, R re, C cb, C ce) : r_(rb, re), c_(cb, ce) {}
    blocked_range2d(R rb, R re, std::size_t, C cb, C ce, std::size_t) : r_(rb, re), c_(cb, ce) {}
    const blocked_range<R>& rows() const { return r_; } const blocked_range<C>& cols() const { return c_; }
};
}
