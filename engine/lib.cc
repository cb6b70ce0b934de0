// Bodies the symbolic run needs from the C++ library: explicit instantiations
// of its templates and the out-of-line container helpers.
#include <string>
#include <vector>
#include <map>
#include <list>
template class std::basic_string<char>;
namespace std {
typedef _Rb_tree_node_base NB;
NB* _Rb_tree_increment(NB* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NB* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const NB* _Rb_tree_increment(const NB* x) throw() { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NB* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const NB* _Rb_tree_decrement(const NB* x) throw() { return _Rb_tree_decrement(const_cast<NB*>(x)); }
// no rebalancing: order and links are what the code can observe
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
}
