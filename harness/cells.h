// Cells whose iterators return temporary objects that stand for the elements, and know nothing of utility::iter_move.
#ifndef VP_CELLS_H
#define VP_CELLS_H
#include "elem.h"
namespace vp {
struct Cell { int key, id; };
struct CellRef {                                              // assigning to it assigns to the element
    Cell* p;
    operator Cell() const { return *p; }
    CellRef& operator=(const Cell& c) { *p = c; return *this; }
    CellRef& operator=(const CellRef& o) { *p = *o.p; return *this; }
    const CellRef& operator=(const Cell& c) const { *p = c; return *this; }
    const CellRef& operator=(const CellRef& o) const { *p = *o.p; return *this; }
    CellRef(Cell* q) : p(q) {}
    CellRef(const CellRef&) = default;
    friend void swap(CellRef a, CellRef b) { Cell t = *a.p; *a.p = *b.p; *b.p = t; }
};
inline int cell_key(const Cell& c) { return c.key; }
inline int cell_key(const CellRef& c) { return c.p->key; }
struct CellLess { template<class A, class B> bool operator()(const A& a, const B& b) const { return cell_key(a) < cell_key(b); } };
struct CellProj { template<class A> int operator()(const A& a) const { return cell_key(a); } };
struct CellSelf { template<class A> A&& operator()(A&& a) const { return static_cast<A&&>(a); } };
template<class Cat> struct CellIt {
    using value_type = Cell; using reference = CellRef; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = Cat;
    Cell* p = nullptr;
    CellRef operator*() const { return CellRef(p); }
    CellRef operator[](difference_type n) const { return CellRef(p + n); }
    CellIt& operator++() { ++p; return *this; }
    CellIt operator++(int) { return CellIt{p++}; }
    CellIt& operator--() { --p; return *this; }
    CellIt operator--(int) { return CellIt{p--}; }
    CellIt& operator+=(difference_type n) { p += n; return *this; }
    CellIt& operator-=(difference_type n) { p -= n; return *this; }
    friend CellIt operator+(CellIt a, difference_type n) { return CellIt{a.p + n}; }
    friend CellIt operator+(difference_type n, CellIt a) { return CellIt{a.p + n}; }
    friend CellIt operator-(CellIt a, difference_type n) { return CellIt{a.p - n}; }
    friend difference_type operator-(CellIt a, CellIt b) { return a.p - b.p; }
    friend bool operator==(CellIt a, CellIt b) { return a.p == b.p; }
    friend bool operator!=(CellIt a, CellIt b) { return a.p != b.p; }
    friend bool operator<(CellIt a, CellIt b) { return a.p < b.p; }
    friend bool operator>(CellIt a, CellIt b) { return a.p > b.p; }
    friend bool operator<=(CellIt a, CellIt b) { return a.p <= b.p; }
    friend bool operator>=(CellIt a, CellIt b) { return a.p >= b.p; }
};
}
#endif
