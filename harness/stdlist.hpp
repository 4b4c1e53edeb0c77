// External functions of std::list (libstdc++.so), by their contract: link a node in front of another one, unlink it.
#pragma once
#include <list>
#ifdef VP_PROOF
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
	_M_next = p;
	_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_M_next->_M_prev = _M_prev;
	_M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this == last) return;
	_List_node_base* const f = first->_M_prev;
	_List_node_base* const l = last->_M_prev;
	_List_node_base* const b = _M_prev;
	f->_M_next = last;
	last->_M_prev = f;
	b->_M_next = first;
	first->_M_prev = b;
	l->_M_next = this;
	_M_prev = l;
}
}
}
#endif
