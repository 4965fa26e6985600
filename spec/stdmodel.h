// The out-of-line parts of std::set and std::map (plain binary search trees: the shape of the tree is not observable).
#pragma once
#include <map>
#include <set>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // only the header is red
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  }
  else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
// complex square root, away from 0
extern "C" _Complex double csqrt(_Complex double z) noexcept {
  const double a = __real__ z, b = __imag__ z, r = __builtin_sqrt(a * a + b * b), t = __builtin_sqrt((r + __builtin_fabs(a)) / 2);
  _Complex double w;
  if (a < 0) { __real__ w = __builtin_fabs(b) / (2 * t); __imag__ w = __builtin_copysign(t, b); }
  else { __real__ w = t; __imag__ w = b / (2 * t); }
  return w;
}
#include <cstdlib>
extern "C" ldiv_t ldiv(long a, long b) noexcept { return {a / b, a % b}; }
