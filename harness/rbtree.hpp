// External functions of the standard library's tree containers (libstdc++.so), by their contract: insert a node
// at the place given, keep the header's root/leftmost/rightmost, walk in order.  Balancing is not
// observable through the containers' interface and is not done.
#pragma once
#include <map>
#ifdef VP_PROOF
namespace std {
using vp_nb = _Rb_tree_node_base;
void _Rb_tree_insert_and_rebalance(const bool left, vp_nb* x, vp_nb* p, vp_nb& h) throw()
{
	x->_M_parent = p;
	x->_M_left = nullptr;
	x->_M_right = nullptr;
	x->_M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &h) {
			h._M_parent = x;
			h._M_right = x;
		} else if (p == h._M_left)
			h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
	h._M_parent->_M_color = _S_black;
	h._M_color = _S_red;
}
static vp_nb* vp_inc(vp_nb* x)
{
	if (x->_M_right) {
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
		return x;
	}
	vp_nb* y = x->_M_parent;
	while (x == y->_M_right) {
		x = y;
		y = y->_M_parent;
	}
	if (x->_M_right != y) x = y;
	return x;
}
static vp_nb* vp_dec(vp_nb* x)
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) {
		vp_nb* y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		return y;
	}
	vp_nb* y = x->_M_parent;
	while (x == y->_M_left) {
		x = y;
		y = y->_M_parent;
	}
	return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vp_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vp_inc(const_cast<vp_nb*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vp_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vp_dec(const_cast<vp_nb*>(x)); }
}
#endif
