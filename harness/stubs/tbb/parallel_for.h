#pragma once
#include "blocked_range.h"
#include <vector>
namespace tbb {
inline unsigned (*vp_pick)(unsigned) = nullptr;   // which of the pieces of work that are left comes next, if they are taken one by one
template <class Range, class F> void parallel_for(const Range& r, const F& f) { f(r); }
template <class T, class F> void parallel_for(const blocked_range<T>& r, const F& f) { if (!vp_pick) { f(r); return; } std::vector<T> left; for (T i = r.begin(); i < r.end(); ++i) left.push_back(i); while (!left.empty()) { unsigned k = left.size() > 1 ? vp_pick((unsigned)left.size()) : 0; f(blocked_range<T>(left[k], left[k] + 1)); left.erase(left.begin() + (long)k); } }
template <class I, class F> void parallel_for(I b, I e, const F& f) { for (I i = b; i < e; ++i) f(i); }
}
