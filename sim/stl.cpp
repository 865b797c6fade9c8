// Out-of-line container primitives of libstdc++ are not instrumented; these wrappers report what
// they touch. Reached through symbol renaming in the instrumented objects.
#include "core.h"
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
using std::_Rb_tree_node_base;
using std::__detail::_List_node_base;
namespace { struct P { P() {} }; 
inline void acc(const void* p, size_t n, bool w, const char* what) { if (sim::active() && !sim::g_quiet) sim::check_range(p, n, w, what); } }
extern "C" {
void sim_rb_insert(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) {
  acc(x, sizeof(*x), true, "(tree insert)"); acc(p, sizeof(*p), true, "(tree insert)"); acc(&h, sizeof(h), true, "(tree insert)");
  std::_Rb_tree_insert_and_rebalance(left, x, p, h);
}
_Rb_tree_node_base* sim_rb_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) {
  acc(z, sizeof(*z), true, "(tree erase)"); acc(&h, sizeof(h), true, "(tree erase)");
  return std::_Rb_tree_rebalance_for_erase(z, h);
}
_Rb_tree_node_base* sim_rb_inc(_Rb_tree_node_base* x) { acc(x, sizeof(*x), false, "(tree walk)"); return std::_Rb_tree_increment(x); }
const _Rb_tree_node_base* sim_rb_incc(const _Rb_tree_node_base* x) { acc(x, sizeof(*x), false, "(tree walk)"); return std::_Rb_tree_increment(x); }
void sim_list_hook(_List_node_base* n, _List_node_base* pos) {
  acc(n, sizeof(*n), true, "(list insert)"); acc(pos, sizeof(*pos), true, "(list insert)"); acc(pos->_M_prev, sizeof(*n), true, "(list insert)");
  n->_M_hook(pos);
}
void sim_list_unhook(_List_node_base* n) {
  acc(n, sizeof(*n), false, "(list erase)"); acc(n->_M_next, sizeof(*n), true, "(list erase)"); acc(n->_M_prev, sizeof(*n), true, "(list erase)");
  n->_M_unhook();
}
void sim_list_transfer(_List_node_base* a, _List_node_base* f, _List_node_base* l) {
  acc(a, sizeof(*a), true, "(list splice)"); if (f != l) acc(f, sizeof(*f), true, "(list splice)");
  a->_M_transfer(f, l);
}
}
