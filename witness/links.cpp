//@ preamble
#include "meshref.h"
#include <stdexcept>
using u32 = unsigned int; using u64 = unsigned long;
#define ALL(M) M(u32) M(u64)
using namespace ref;
template <class I> using F = CellBoundaryConnection<I>;
template <class I> struct St { I l, r, nl, nr; };
template <class I> St<I> get(const F<I>& f) { return {f.getCellLeftIndex(), f.getCellRightIndex(), f.getNextBElemWRTCL(), f.getNextBElemWRTCR()}; }
template <class I> bool same(const F<I>& f, const St<I>& s) { St<I> g = get(f); return g.l == s.l && g.r == s.r && g.nl == s.nl && g.nr == s.nr; }
// the documented update of a face's chain, on the plain state
template <class I> bool next(St<I>& s, I n, I c) {
    if (invalid(c)) return false;
    if (s.l == c) { s.nl = n; return true; }
    if (s.r == c) { s.nr = n; return true; }
    if (invalid(s.l)) { s.l = c; s.nl = n; return true; }
    if (invalid(s.r)) { s.r = c; s.nr = n; return true; }
    return false;
}
template <class I> bool cell(St<I>& s, I c) {
    if (invalid(c)) return false;
    if (invalid(s.l)) { s.l = c; return true; }
    if (invalid(s.r)) { s.r = c; return true; }
    return false;
}
//@ section sides
#define M(I) \
EX bool CAT(w_true_construct_, I)(I l, I r, I nl, I nr) { F<I> f(l, r, nl, nr); return same<I>(f, {l, r, nl, nr}); } \
EX bool CAT(w_true_conn_, I)(I l, I r) { CellConnection<I> f(l, r); return f.getCellLeftIndex() == l && f.getCellRightIndex() == r; } \
EX bool CAT(w_true_setleft_, I)(I l, I r, I nl, I nr, I c) { F<I> f(l, r, nl, nr); f.setCellLeftIndex(c); return same<I>(f, {c, r, nl, nr}); } \
EX bool CAT(w_true_setright_, I)(I l, I r, I nl, I nr, I c) { F<I> f(l, r, nl, nr); f.setCellRightIndex(c); return same<I>(f, {l, c, nl, nr}); } \
EX bool CAT(w_true_nextleft_, I)(I l, I r, I nl, I nr, I c) { F<I> f(l, r, nl, nr); f.setNextBElemWRTCL(c); return same<I>(f, {l, r, c, nr}); } \
EX bool CAT(w_true_nextright_, I)(I l, I r, I nl, I nr, I c) { F<I> f(l, r, nl, nr); f.setNextBElemWRTCR(c); return same<I>(f, {l, r, nl, c}); } \
EX bool CAT(w_true_swap_, I)(I l, I r, I nl, I nr) { F<I> f(l, r, nl, nr); f.swapCellsLR(); return same<I>(f, {r, l, nr, nl}); } \
EX bool CAT(w_true_swap1_, I)(I l, I r) { CellConnection<I> f(l, r); f.swapCellsLR(); return f.getCellLeftIndex() == r && f.getCellRightIndex() == l; } \
EX bool CAT(w_impl_ok_, I)(I l, I r) { F<I> f(l, r); return f.cellsOK(); } \
EX bool CAT(w_spec_ok_, I)(I l, I r) { return !invalid(l) && !invalid(r); }
ALL(M)
//@ section filling
#define M(I) \
EX bool CAT(w_impl_setcell_, I)(I l, I r, I nl, I nr, I c, I* R o) { F<I> f(l, r, nl, nr); bool b = f.setCellIndex(c); St<I> s = get(f); o[0] = s.l; o[1] = s.r; o[2] = s.nl; o[3] = s.nr; return b; } \
EX bool CAT(w_spec_setcell_, I)(I l, I r, I nl, I nr, I c, I* R o) { St<I> s{l, r, nl, nr}; bool b = cell(s, c); o[0] = s.l; o[1] = s.r; o[2] = s.nl; o[3] = s.nr; return b; } \
EX bool CAT(w_impl_setnext_, I)(I l, I r, I nl, I nr, I n, I c, I* R o) { F<I> f(l, r, nl, nr); bool b = f.setNextBElem(n, c); St<I> s = get(f); o[0] = s.l; o[1] = s.r; o[2] = s.nl; o[3] = s.nr; return b; } \
EX bool CAT(w_spec_setnext_, I)(I l, I r, I nl, I nr, I n, I c, I* R o) { St<I> s{l, r, nl, nr}; bool b = next(s, n, c); o[0] = s.l; o[1] = s.r; o[2] = s.nl; o[3] = s.nr; return b; }
ALL(M)
//@ section queries std=string,stream
// the other cell and the next boundary element of a cell the face touches; both sides naming one cell is not a valid face
#define M(I) \
EX bool CAT(w_true_other_l_, I)(I l, I r) { F<I> f(l, r); return invalid(l) || l == r || f.getOtherCellIndex(l) == r; } \
EX bool CAT(w_true_other_r_, I)(I l, I r) { F<I> f(l, r); return invalid(r) || l == r || f.getOtherCellIndex(r) == l; } \
EX bool CAT(w_true_next_l_, I)(I l, I r, I nl, I nr) { F<I> f(l, r, nl, nr); return invalid(l) || l == r || f.getNextBElem(l) == nl; } \
EX bool CAT(w_true_next_r_, I)(I l, I r, I nl, I nr) { F<I> f(l, r, nl, nr); return invalid(r) || l == r || f.getNextBElem(r) == nr; } \
EX void CAT(w_throw_other_, I)(I l, I r, I c, I* R o) { F<I> f(l, r); if (!invalid(c) && (c == l || c == r)) throw 1; *o = f.getOtherCellIndex(c); } \
EX void CAT(w_throw_next_, I)(I l, I r, I nl, I nr, I c, I* R o) { F<I> f(l, r, nl, nr); if (!invalid(c) && (c == l || c == r)) throw 1; *o = f.getNextBElem(c); }
ALL(M)
//@ section boundary_cells std=vector
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, u32, double, 4>;
using V3 = UnstructuredMesh<3, size_t, float>;
template <bool EMPLACE, class M> void spec(M& m) {
    using I = typename info<M>::index;
    for (size_t i = 0; i < m.getFaces().size(); ++i) {
        auto& f = m.getFaces()[i];
        for (int side = 0; side < 2; ++side) {
            if (!invalid(side ? f.getCellRightIndex() : f.getCellLeftIndex())) continue;
            I c = I(m.getBoundaryCells().size()) | I(I(1) << (8 * sizeof(I) - 1));
            if (side) f.setCellRightIndex(c); else f.setCellLeftIndex(c);
            if (EMPLACE) {
                m.getBoundaryCells().emplace_back();
                m.getBoundaryCells().back().setIndex(c);
                m.getBoundaryCells().back().setBoundaryElementIndex(f.getIndex());
                continue;
            }
            typename M::Cell cell;
            cell.setIndex(c);
            cell.setBoundaryElementIndex(f.getIndex());
            m.getBoundaryCells().push_back(cell);
        }
    }
    m.getBoundaryCells().shrink_to_fit();
}
template <class M> void centers(M& m) {
    for (size_t i = 0; i < m.getBoundaryCells().size(); ++i) {
        auto& c = m.getBoundaryCells()[i];
        c.setCenter(m.getFaces()[c.getBoundaryElementIndex()].getCenter());
    }
}
#define N(M) \
EX void CAT(w_impl_setup, M)(M& m) { m.setupBoundaryCells(); } \
EX void CAT(w_spec_setup, M)(M& m) { spec<false>(m); } \
EX void CAT(w_spec2_setup, M)(M& m) { spec<true>(m); } \
EX void CAT(w_impl_centers, M)(M& m) { m.setupBoundaryCellsCenters(); } \
EX void CAT(w_spec_centers, M)(M& m) { centers(m); }
N(D2) N(D3) N(V3)
