// Stand-in for the progress bar: counts.
#pragma once
#include <cstddef>
#include <string>
namespace indicators {
namespace option {
struct BarWidth { std::size_t v; }; struct Start { std::string v; }; struct Fill { std::string v; }; struct Lead { std::string v; }; struct Remainder { std::string v; }; struct End { std::string v; };
struct PrefixText { std::string v; }; struct PostfixText { std::string v; }; struct ShowPercentage { bool v; }; struct ShowElapsedTime { bool v; }; struct ShowRemainingTime { bool v; }; struct MaxProgress { int v; };
}
struct ProgressBar { int done = 0, max = 100; void take(const option::MaxProgress& m) { max = m.v; } template <class T> void take(const T&) {} template <class... A> explicit ProgressBar(A&&... a) { (take(a), ...); } template <class T> void set_option(const T&) {} void tick() { ++done; } bool is_completed() const { return done >= max; } void mark_as_completed() { done = max; } };
}
