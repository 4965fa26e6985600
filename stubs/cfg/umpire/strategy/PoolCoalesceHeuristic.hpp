#pragma once
#include <umpire/strategy/QuickPool.hpp>
namespace umpire::strategy {
template <class P>
struct PoolCoalesceHeuristic {
  long verif_result;
  template <class F> PoolCoalesceHeuristic(F f) : verif_result(static_cast<long>(f(P{}))) {}
};
}
