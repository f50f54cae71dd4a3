//@ preamble
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#define EX extern "C"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using u8 = unsigned char; using u16 = unsigned short; using u32 = unsigned int; using u64 = unsigned long;
#define ALL(M) M(u8) M(u16) M(u32) M(u64)
// an ordinary index: neither tag bit nor the value whose tagged form is the invalid index
template <class I> bool plain(I i) { return i < I(I(~I(0)) >> 1); }
//@ section tagging
#define M(I) \
EX bool CAT(w_true_roundtrip_, I)(I i) { return !plain(i) || extractBoundaryIndex<I>(makeBoundaryIndex<I>(i)) == i; } \
EX bool CAT(w_true_istagged_, I)(I i) { return isBoundaryIndex<I>(makeBoundaryIndex<I>(i)); } \
EX bool CAT(w_true_untagged_, I)(I i) { return !plain(i) || !isBoundaryIndex<I>(i); } \
EX bool CAT(w_true_extracted_, I)(I i) { return !isBoundaryIndex<I>(extractBoundaryIndex<I>(i)); } \
EX bool CAT(w_true_plainvalid_, I)(I i) { return !plain(i) || !isInvalidIndex<I>(i); } \
EX bool CAT(w_true_taggedvalid_, I)(I i) { I low = I(~I(0)) >> 1; return I(i & low) == low || !isInvalidIndex<I>(makeBoundaryIndex<I>(i)); } \
EX bool CAT(w_true_idempotent_, I)(I i) { return makeBoundaryIndex<I>(makeBoundaryIndex<I>(i)) == makeBoundaryIndex<I>(i); } \
EX bool CAT(w_true_invalid_, I)() { return isInvalidIndex<I>(I(~I(0))) && isInvalidIndex<I>(INVALID_INDEX(I)); } \
EX bool CAT(w_impl_onlyinvalid_, I)(I i) { return isInvalidIndex<I>(i); } \
EX bool CAT(w_spec_onlyinvalid_, I)(I i) { return i == I(~I(0)); } \
EX bool CAT(w_impl_boundary_, I)(I i) { return isBoundaryIndex<I>(i); } \
EX bool CAT(w_spec_boundary_, I)(I i) { return i >> (8 * sizeof(I) - 1); } \
EX I CAT(w_impl_make_, I)(I i) { return makeBoundaryIndex<I>(i); } \
EX I CAT(w_spec_make_, I)(I i) { return I(i | I(I(1) << (8 * sizeof(I) - 1))); } \
EX I CAT(w_impl_extract_, I)(I i) { return extractBoundaryIndex<I>(i); } \
EX I CAT(w_spec_extract_, I)(I i) { return I(i & I(I(~I(0)) >> 1)); }
ALL(M)
//@ section default_elements std=vector
// every index of a default-constructed element is the invalid one
#define M(I) \
EX bool CAT(w_true_conn_, I)() { CellBoundaryConnection<I> c; return isInvalidIndex<I>(c.getCellLeftIndex()) && isInvalidIndex<I>(c.getCellRightIndex()) && isInvalidIndex<I>(c.getNextBElemWRTCL()) && isInvalidIndex<I>(c.getNextBElemWRTCR()); } \
EX bool CAT(w_true_edge_, I)() { typename UnstructuredMesh<3, I, double>::Edge c; return isInvalidIndex<I>(c.getIndex()) && isInvalidIndex<I>(c.getVertexAIndex()) && isInvalidIndex<I>(c.getVertexBIndex()); } \
EX bool CAT(w_true_edge2_, I)() { typename UnstructuredMesh<2, I, double>::Edge c; return isInvalidIndex<I>(c.getIndex()) && isInvalidIndex<I>(c.getVertexAIndex()) && isInvalidIndex<I>(c.getVertexBIndex()) && isInvalidIndex<I>(c.getCellLeftIndex()) && isInvalidIndex<I>(c.getNextBElemWRTCL()); } \
EX bool CAT(w_true_face_, I)() { typename UnstructuredMesh<3, I, double, 6>::Face c; return isInvalidIndex<I>(c.getIndex()) && c.getSubelements().size() == 0 && isInvalidIndex<I>(c.getCellLeftIndex()) && isInvalidIndex<I>(c.getCellRightIndex()); } \
EX bool CAT(w_true_cell_, I)() { typename UnstructuredMesh<3, I, double>::Cell c; return isInvalidIndex<I>(c.getIndex()) && isInvalidIndex<I>(c.getBoundaryElementIndex()); }
M(u32) M(u64)
