// Bodies of the out-of-line parts of the C++ library's containers, for the executed bitcode only
// (trees are kept ordered but not balanced, which no caller can observe).
#include <set>
#include <list>
#include <unordered_map>
#include <cmath>
namespace std {
typedef _Rb_tree_node_base* B;
static B inc(B x) { if(x->_M_right) { x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { B y=x->_M_parent; while(x==y->_M_right) { x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static B dec(B x) { if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left) { B y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { B y=x->_M_parent; while(x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
B _Rb_tree_increment(B x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<B>(x)); }
B _Rb_tree_decrement(B x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<B>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,B x,B p,_Rb_tree_node_base& h) throw() {
	x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
	if(left) { p->_M_left=x; if(p==&h) { h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
	h._M_parent->_M_color=_S_black;
}
B _Rb_tree_rebalance_for_erase(B const z,_Rb_tree_node_base& h) throw() {
	B& root=h._M_parent; B& lm=h._M_left; B& rm=h._M_right; B y=z,x=0,xp=0;
	if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
	if(y!=z) {
		z->_M_left->_M_parent=y; y->_M_left=z->_M_left;
		if(y!=z->_M_right) { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
		if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y;
		y->_M_parent=z->_M_parent; y=z;
	} else {
		xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent;
		if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
		if(lm==z) { if(z->_M_right==0) lm=z->_M_parent; else { B q=x; while(q->_M_left) q=q->_M_left; lm=q; } }
		if(rm==z) { if(z->_M_left==0) rm=z->_M_parent; else { B q=x; while(q->_M_right) q=q->_M_right; rm=q; } }
	}
	if(root) root->_M_color=_S_black; (void)xp; return y;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
	static const unsigned char fast[]={2,2,2,3,5,5,7,7,11,11,11,11,13,13}; static const unsigned long pr[]={17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541};
	if(n<sizeof(fast)) { if(n==0) return 1; _M_next_resize=(size_t)std::floor(fast[n]*(double)_M_max_load_factor); return fast[n]; }
	unsigned k=0; while(k+1<sizeof(pr)/sizeof(*pr)&&pr[k]<n) k++; _M_next_resize=(size_t)std::floor(pr[k]*(double)_M_max_load_factor); return pr[k];
}
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const {
	if(ne+ni>_M_next_resize) { double mb=std::max<size_t>(ne+ni,_M_next_resize?0:11)/(double)_M_max_load_factor; if(mb>=nb) return {true,_M_next_bkt(std::max<size_t>((size_t)std::floor(mb)+1,nb*2))}; _M_next_resize=(size_t)std::floor(nb*(double)_M_max_load_factor); return {false,0}; }
	return {false,0};
}
void _List_node_base::_M_unhook() noexcept { _List_node_base *n=_M_next,*p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* const first,_List_node_base* const last) noexcept { if(this!=last) { last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first; _List_node_base* const tmp=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=tmp; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept {
	if(x._M_next!=&x) {
		if(y._M_next!=&y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
		else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; }
	} else if(y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; }
}
}
}
