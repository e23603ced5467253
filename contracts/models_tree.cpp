// The out-of-line part of the standard containers: trees are kept as search
// trees without rebalancing (every node black, which the container code does
// not look at), lists as doubly linked rings, hash tables with one bucket.
// What the containers promise does not depend on balance or bucket count.
#include <list>
#include <map>
#include <unordered_map>
using N = std::_Rb_tree_node_base;
#define MODEL(RET, MANGLED, NAME, ...)                                                                                 \
  RET NAME(__VA_ARGS__) __asm__("__model_" MANGLED);                                                                   \
  __attribute__((used)) RET NAME(__VA_ARGS__)

MODEL(void, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", m_insert, bool left, N *x, N *p,
      N &header) {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = std::_S_black;
  if (left) {
    p->_M_left = x; // also the leftmost node when p is the header
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right)
      header._M_right = x;
  }
}
static N *next(N *x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  N *y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
static N *previous(N *x) {
  if (x->_M_color == std::_S_red) // the header
    return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right)
      x = x->_M_right;
    return x;
  }
  N *y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
MODEL(N *, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", m_increment, N *x) { return next(x); }
MODEL(const N *, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", m_incrementc, const N *x) {
  return next(const_cast<N *>(x));
}
MODEL(N *, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", m_decrement, N *x) { return previous(x); }
MODEL(const N *, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", m_decrementc, const N *x) {
  return previous(const_cast<N *>(x));
}
static void replace(N *old, N *by, N &header) {
  if (header._M_parent == old)
    header._M_parent = by;
  else if (old->_M_parent->_M_left == old)
    old->_M_parent->_M_left = by;
  else
    old->_M_parent->_M_right = by;
  if (by)
    by->_M_parent = old->_M_parent;
}
MODEL(N *, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", m_erase, N *z, N &header) {
  N *const after = z == header._M_right ? nullptr : next(z);
  N *const before = z == header._M_left ? nullptr : previous(z);
  if (z->_M_left && z->_M_right) { // its successor takes its place
    if (after->_M_parent != z) {
      replace(after, after->_M_right, header);
      after->_M_right = z->_M_right;
      z->_M_right->_M_parent = after;
    }
    replace(z, after, header);
    after->_M_left = z->_M_left;
    z->_M_left->_M_parent = after;
  } else {
    replace(z, z->_M_left ? z->_M_left : z->_M_right, header);
  }
  if (header._M_left == z)
    header._M_left = after ? after : &header;
  if (header._M_right == z)
    header._M_right = before ? before : &header;
  return z;
}

using L = std::__detail::_List_node_base;
MODEL(void, "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", m_hook, L *self, L *pos) {
  self->_M_next = pos;
  self->_M_prev = pos->_M_prev;
  pos->_M_prev->_M_next = self;
  pos->_M_prev = self;
}
MODEL(void, "_ZNSt8__detail15_List_node_base9_M_unhookEv", m_unhook, L *self) {
  self->_M_prev->_M_next = self->_M_next;
  self->_M_next->_M_prev = self->_M_prev;
}
MODEL(void, "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", m_transfer, L *self, L *first, L *last) {
  if (self == last)
    return;
  last->_M_prev->_M_next = self;
  first->_M_prev->_M_next = last;
  self->_M_prev->_M_next = first;
  L *const t = self->_M_prev;
  self->_M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}

using P = std::__detail::_Prime_rehash_policy;
using need_rehash = std::pair<bool, std::size_t>;
MODEL(need_rehash, "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", m_need,
      const P *, std::size_t, std::size_t, std::size_t) {
  return {false, 0};
}
MODEL(std::size_t, "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", m_next, const P *, std::size_t) { return 1; }
