// Definitions of the few libstdc++ runtime functions that live in the shared library, so that the analysis sees their effect.
#include <map>
#include <unordered_map>
#include <cstring>
#include <bits/stl_tree.h>
namespace std {
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  // an unbalanced binary search tree has the same observable contents; the header node's root is kept black/red as decrement expects
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    header._M_color = _S_red;
  }
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 61 ? 61 : 997; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (bkt >= elt + ins) return {false, 0}; size_t n = elt + ins < 61 ? 61 : 997; if (n == bkt) return {false, 0}; return {true, n}; }
  }
  size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }
}
