//@ preamble
// written by tools/gen_macros.py
#include <GTMesh/Traits/Traits.h>
#define EX extern "C"
EX void visit(size_t, const void*, const char*);
template <class> struct Sized;
//@ section attribute_default argmem=@visit$
struct C1 { int m0; };
MAKE_ATTRIBUTE_TRAIT(C1, m0);
static_assert(DefaultTraits<C1>::size() == 1 && DefaultTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "m0"); }
struct C2 { int m0; double m1; };
MAKE_ATTRIBUTE_TRAIT(C2, m0, m1);
static_assert(DefaultTraits<C2>::size() == 2 && DefaultTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_ATTRIBUTE_TRAIT(C3, m0, m1, m2);
static_assert(DefaultTraits<C3>::size() == 3 && DefaultTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_ATTRIBUTE_TRAIT(C4, m0, m1, m2, m3);
static_assert(DefaultTraits<C4>::size() == 4 && DefaultTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_ATTRIBUTE_TRAIT(C5, m0, m1, m2, m3, m4);
static_assert(DefaultTraits<C5>::size() == 5 && DefaultTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_ATTRIBUTE_TRAIT(C6, m0, m1, m2, m3, m4, m5);
static_assert(DefaultTraits<C6>::size() == 6 && DefaultTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_ATTRIBUTE_TRAIT(C7, m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultTraits<C7>::size() == 7 && DefaultTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_ATTRIBUTE_TRAIT(C8, m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultTraits<C8>::size() == 8 && DefaultTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_ATTRIBUTE_TRAIT(C9, m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultTraits<C9>::size() == 9 && DefaultTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_ATTRIBUTE_TRAIT(C10, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultTraits<C10>::size() == 10 && DefaultTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_ATTRIBUTE_TRAIT(C11, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultTraits<C11>::size() == 11 && DefaultTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_ATTRIBUTE_TRAIT(C12, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultTraits<C12>::size() == 12 && DefaultTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_ATTRIBUTE_TRAIT(C13, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultTraits<C13>::size() == 13 && DefaultTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_ATTRIBUTE_TRAIT(C14, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultTraits<C14>::size() == 14 && DefaultTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_ATTRIBUTE_TRAIT(C15, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultTraits<C15>::size() == 15 && DefaultTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_ATTRIBUTE_TRAIT(C16, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultTraits<C16>::size() == 16 && DefaultTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_ATTRIBUTE_TRAIT(C17, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultTraits<C17>::size() == 17 && DefaultTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_ATTRIBUTE_TRAIT(C18, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultTraits<C18>::size() == 18 && DefaultTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_ATTRIBUTE_TRAIT(C19, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultTraits<C19>::size() == 19 && DefaultTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_ATTRIBUTE_TRAIT(C20, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultTraits<C20>::size() == 20 && DefaultTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_io argmem=@visit$
struct C1 { int m0; };
MAKE_ATTRIBUTE_TRAIT_IO(C1, m0);
static_assert(DefaultIOTraits<C1>::size() == 1 && DefaultIOTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultIOTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "m0"); }
struct C2 { int m0; double m1; };
MAKE_ATTRIBUTE_TRAIT_IO(C2, m0, m1);
static_assert(DefaultIOTraits<C2>::size() == 2 && DefaultIOTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultIOTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_ATTRIBUTE_TRAIT_IO(C3, m0, m1, m2);
static_assert(DefaultIOTraits<C3>::size() == 3 && DefaultIOTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultIOTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_ATTRIBUTE_TRAIT_IO(C5, m0, m1, m2, m3, m4);
static_assert(DefaultIOTraits<C5>::size() == 5 && DefaultIOTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultIOTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_ATTRIBUTE_TRAIT_IO(C11, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultIOTraits<C11>::size() == 11 && DefaultIOTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultIOTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_ATTRIBUTE_TRAIT_IO(C20, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultIOTraits<C20>::size() == 20 && DefaultIOTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultIOTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_io_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_ATTRIBUTE_TRAIT_IO(C4, m0, m1, m2, m3);
static_assert(DefaultIOTraits<C4>::size() == 4 && DefaultIOTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultIOTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_ATTRIBUTE_TRAIT_IO(C6, m0, m1, m2, m3, m4, m5);
static_assert(DefaultIOTraits<C6>::size() == 6 && DefaultIOTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultIOTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_ATTRIBUTE_TRAIT_IO(C7, m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultIOTraits<C7>::size() == 7 && DefaultIOTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultIOTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_ATTRIBUTE_TRAIT_IO(C8, m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultIOTraits<C8>::size() == 8 && DefaultIOTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultIOTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_ATTRIBUTE_TRAIT_IO(C9, m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultIOTraits<C9>::size() == 9 && DefaultIOTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultIOTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_ATTRIBUTE_TRAIT_IO(C10, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultIOTraits<C10>::size() == 10 && DefaultIOTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultIOTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_ATTRIBUTE_TRAIT_IO(C12, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultIOTraits<C12>::size() == 12 && DefaultIOTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultIOTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_ATTRIBUTE_TRAIT_IO(C13, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultIOTraits<C13>::size() == 13 && DefaultIOTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultIOTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_ATTRIBUTE_TRAIT_IO(C14, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultIOTraits<C14>::size() == 14 && DefaultIOTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultIOTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_ATTRIBUTE_TRAIT_IO(C15, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultIOTraits<C15>::size() == 15 && DefaultIOTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultIOTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_ATTRIBUTE_TRAIT_IO(C16, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultIOTraits<C16>::size() == 16 && DefaultIOTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultIOTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_ATTRIBUTE_TRAIT_IO(C17, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultIOTraits<C17>::size() == 17 && DefaultIOTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultIOTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_ATTRIBUTE_TRAIT_IO(C18, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultIOTraits<C18>::size() == 18 && DefaultIOTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultIOTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_ATTRIBUTE_TRAIT_IO(C19, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultIOTraits<C19>::size() == 19 && DefaultIOTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultIOTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
//@ section attribute_arithmetic argmem=@visit$
struct C1 { int m0; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C1, m0);
static_assert(DefaultArithmeticTraits<C1>::size() == 1 && DefaultArithmeticTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultArithmeticTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "m0"); }
struct C2 { int m0; double m1; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C2, m0, m1);
static_assert(DefaultArithmeticTraits<C2>::size() == 2 && DefaultArithmeticTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultArithmeticTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C3, m0, m1, m2);
static_assert(DefaultArithmeticTraits<C3>::size() == 3 && DefaultArithmeticTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultArithmeticTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C5, m0, m1, m2, m3, m4);
static_assert(DefaultArithmeticTraits<C5>::size() == 5 && DefaultArithmeticTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultArithmeticTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C11, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultArithmeticTraits<C11>::size() == 11 && DefaultArithmeticTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultArithmeticTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C20, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultArithmeticTraits<C20>::size() == 20 && DefaultArithmeticTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultArithmeticTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_arithmetic_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C4, m0, m1, m2, m3);
static_assert(DefaultArithmeticTraits<C4>::size() == 4 && DefaultArithmeticTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultArithmeticTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C6, m0, m1, m2, m3, m4, m5);
static_assert(DefaultArithmeticTraits<C6>::size() == 6 && DefaultArithmeticTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultArithmeticTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C7, m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultArithmeticTraits<C7>::size() == 7 && DefaultArithmeticTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultArithmeticTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C8, m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultArithmeticTraits<C8>::size() == 8 && DefaultArithmeticTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultArithmeticTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C9, m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultArithmeticTraits<C9>::size() == 9 && DefaultArithmeticTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultArithmeticTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C10, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultArithmeticTraits<C10>::size() == 10 && DefaultArithmeticTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultArithmeticTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C12, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultArithmeticTraits<C12>::size() == 12 && DefaultArithmeticTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultArithmeticTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C13, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultArithmeticTraits<C13>::size() == 13 && DefaultArithmeticTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultArithmeticTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C14, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultArithmeticTraits<C14>::size() == 14 && DefaultArithmeticTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultArithmeticTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C15, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultArithmeticTraits<C15>::size() == 15 && DefaultArithmeticTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultArithmeticTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C16, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultArithmeticTraits<C16>::size() == 16 && DefaultArithmeticTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultArithmeticTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C17, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultArithmeticTraits<C17>::size() == 17 && DefaultArithmeticTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultArithmeticTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C18, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultArithmeticTraits<C18>::size() == 18 && DefaultArithmeticTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultArithmeticTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C19, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultArithmeticTraits<C19>::size() == 19 && DefaultArithmeticTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultArithmeticTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
//@ section attribute_template_default argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C1<A, B>), (class A, class B), m0);
static_assert(DefaultTraits<C1<int, double>>::size() == 1 && DefaultTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "m0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C2<A, B>), (class A, class B), m0, m1);
static_assert(DefaultTraits<C2<int, double>>::size() == 2 && DefaultTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C3<A, B>), (class A, class B), m0, m1, m2);
static_assert(DefaultTraits<C3<int, double>>::size() == 3 && DefaultTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C5<A, B>), (class A, class B), m0, m1, m2, m3, m4);
static_assert(DefaultTraits<C5<int, double>>::size() == 5 && DefaultTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C11<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultTraits<C11<int, double>>::size() == 11 && DefaultTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C20<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultTraits<C20<int, double>>::size() == 20 && DefaultTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_template_default_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C4<A, B>), (class A, class B), m0, m1, m2, m3);
static_assert(DefaultTraits<C4<int, double>>::size() == 4 && DefaultTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C6<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5);
static_assert(DefaultTraits<C6<int, double>>::size() == 6 && DefaultTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C7<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultTraits<C7<int, double>>::size() == 7 && DefaultTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C8<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultTraits<C8<int, double>>::size() == 8 && DefaultTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C9<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultTraits<C9<int, double>>::size() == 9 && DefaultTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C10<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultTraits<C10<int, double>>::size() == 10 && DefaultTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C12<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultTraits<C12<int, double>>::size() == 12 && DefaultTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C13<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultTraits<C13<int, double>>::size() == 13 && DefaultTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C14<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultTraits<C14<int, double>>::size() == 14 && DefaultTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C15<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultTraits<C15<int, double>>::size() == 15 && DefaultTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C16<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultTraits<C16<int, double>>::size() == 16 && DefaultTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C17<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultTraits<C17<int, double>>::size() == 17 && DefaultTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C18<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultTraits<C18<int, double>>::size() == 18 && DefaultTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((C19<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultTraits<C19<int, double>>::size() == 19 && DefaultTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
//@ section attribute_template_io argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C1<A, B>), (class A, class B), m0);
static_assert(DefaultIOTraits<C1<int, double>>::size() == 1 && DefaultIOTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultIOTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "m0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C2<A, B>), (class A, class B), m0, m1);
static_assert(DefaultIOTraits<C2<int, double>>::size() == 2 && DefaultIOTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultIOTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C3<A, B>), (class A, class B), m0, m1, m2);
static_assert(DefaultIOTraits<C3<int, double>>::size() == 3 && DefaultIOTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultIOTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C5<A, B>), (class A, class B), m0, m1, m2, m3, m4);
static_assert(DefaultIOTraits<C5<int, double>>::size() == 5 && DefaultIOTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultIOTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C11<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultIOTraits<C11<int, double>>::size() == 11 && DefaultIOTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultIOTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C20<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultIOTraits<C20<int, double>>::size() == 20 && DefaultIOTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultIOTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_template_io_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C4<A, B>), (class A, class B), m0, m1, m2, m3);
static_assert(DefaultIOTraits<C4<int, double>>::size() == 4 && DefaultIOTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultIOTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C6<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5);
static_assert(DefaultIOTraits<C6<int, double>>::size() == 6 && DefaultIOTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultIOTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C7<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultIOTraits<C7<int, double>>::size() == 7 && DefaultIOTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultIOTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C8<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultIOTraits<C8<int, double>>::size() == 8 && DefaultIOTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultIOTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C9<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultIOTraits<C9<int, double>>::size() == 9 && DefaultIOTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultIOTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C10<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultIOTraits<C10<int, double>>::size() == 10 && DefaultIOTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultIOTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C12<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultIOTraits<C12<int, double>>::size() == 12 && DefaultIOTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultIOTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C13<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultIOTraits<C13<int, double>>::size() == 13 && DefaultIOTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultIOTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C14<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultIOTraits<C14<int, double>>::size() == 14 && DefaultIOTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultIOTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C15<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultIOTraits<C15<int, double>>::size() == 15 && DefaultIOTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultIOTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C16<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultIOTraits<C16<int, double>>::size() == 16 && DefaultIOTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultIOTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C17<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultIOTraits<C17<int, double>>::size() == 17 && DefaultIOTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultIOTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C18<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultIOTraits<C18<int, double>>::size() == 18 && DefaultIOTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultIOTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((C19<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultIOTraits<C19<int, double>>::size() == 19 && DefaultIOTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultIOTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
//@ section attribute_template_arithmetic argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C1<A, B>), (class A, class B), m0);
static_assert(DefaultArithmeticTraits<C1<int, double>>::size() == 1 && DefaultArithmeticTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultArithmeticTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "m0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C2<A, B>), (class A, class B), m0, m1);
static_assert(DefaultArithmeticTraits<C2<int, double>>::size() == 2 && DefaultArithmeticTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultArithmeticTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C3<A, B>), (class A, class B), m0, m1, m2);
static_assert(DefaultArithmeticTraits<C3<int, double>>::size() == 3 && DefaultArithmeticTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultArithmeticTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C5<A, B>), (class A, class B), m0, m1, m2, m3, m4);
static_assert(DefaultArithmeticTraits<C5<int, double>>::size() == 5 && DefaultArithmeticTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultArithmeticTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C11<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
static_assert(DefaultArithmeticTraits<C11<int, double>>::size() == 11 && DefaultArithmeticTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultArithmeticTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C20<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
static_assert(DefaultArithmeticTraits<C20<int, double>>::size() == 20 && DefaultArithmeticTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultArithmeticTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); visit(19, &o.m19, "m19"); }
//@ section attribute_template_arithmetic_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C4<A, B>), (class A, class B), m0, m1, m2, m3);
static_assert(DefaultArithmeticTraits<C4<int, double>>::size() == 4 && DefaultArithmeticTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultArithmeticTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C6<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5);
static_assert(DefaultArithmeticTraits<C6<int, double>>::size() == 6 && DefaultArithmeticTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultArithmeticTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C7<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6);
static_assert(DefaultArithmeticTraits<C7<int, double>>::size() == 7 && DefaultArithmeticTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultArithmeticTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C8<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7);
static_assert(DefaultArithmeticTraits<C8<int, double>>::size() == 8 && DefaultArithmeticTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultArithmeticTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C9<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8);
static_assert(DefaultArithmeticTraits<C9<int, double>>::size() == 9 && DefaultArithmeticTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultArithmeticTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C10<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
static_assert(DefaultArithmeticTraits<C10<int, double>>::size() == 10 && DefaultArithmeticTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultArithmeticTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C12<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
static_assert(DefaultArithmeticTraits<C12<int, double>>::size() == 12 && DefaultArithmeticTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultArithmeticTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C13<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
static_assert(DefaultArithmeticTraits<C13<int, double>>::size() == 13 && DefaultArithmeticTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultArithmeticTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C14<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
static_assert(DefaultArithmeticTraits<C14<int, double>>::size() == 14 && DefaultArithmeticTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultArithmeticTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C15<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
static_assert(DefaultArithmeticTraits<C15<int, double>>::size() == 15 && DefaultArithmeticTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultArithmeticTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C16<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
static_assert(DefaultArithmeticTraits<C16<int, double>>::size() == 16 && DefaultArithmeticTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultArithmeticTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C17<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
static_assert(DefaultArithmeticTraits<C17<int, double>>::size() == 17 && DefaultArithmeticTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultArithmeticTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C18<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
static_assert(DefaultArithmeticTraits<C18<int, double>>::size() == 18 && DefaultArithmeticTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultArithmeticTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C19<A, B>), (class A, class B), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
static_assert(DefaultArithmeticTraits<C19<int, double>>::size() == 19 && DefaultArithmeticTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultArithmeticTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "m0"); visit(1, &o.m1, "m1"); visit(2, &o.m2, "m2"); visit(3, &o.m3, "m3"); visit(4, &o.m4, "m4"); visit(5, &o.m5, "m5"); visit(6, &o.m6, "m6"); visit(7, &o.m7, "m7"); visit(8, &o.m8, "m8"); visit(9, &o.m9, "m9"); visit(10, &o.m10, "m10"); visit(11, &o.m11, "m11"); visit(12, &o.m12, "m12"); visit(13, &o.m13, "m13"); visit(14, &o.m14, "m14"); visit(15, &o.m15, "m15"); visit(16, &o.m16, "m16"); visit(17, &o.m17, "m17"); visit(18, &o.m18, "m18"); }
//@ section named_attribute_default argmem=@visit$
struct C1 { int m0; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C1, "name 0", m0);
static_assert(DefaultTraits<C1>::size() == 1 && DefaultTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "name 0"); }
struct C2 { int m0; double m1; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C2, "name 0", m0, "name 1", m1);
static_assert(DefaultTraits<C2>::size() == 2 && DefaultTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C3, "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultTraits<C3>::size() == 3 && DefaultTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C4, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultTraits<C4>::size() == 4 && DefaultTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C5, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultTraits<C5>::size() == 5 && DefaultTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C6, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultTraits<C6>::size() == 6 && DefaultTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C7, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultTraits<C7>::size() == 7 && DefaultTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C8, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultTraits<C8>::size() == 8 && DefaultTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C9, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultTraits<C9>::size() == 9 && DefaultTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C10, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultTraits<C10>::size() == 10 && DefaultTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C11, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultTraits<C11>::size() == 11 && DefaultTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C12, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultTraits<C12>::size() == 12 && DefaultTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C13, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultTraits<C13>::size() == 13 && DefaultTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C14, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultTraits<C14>::size() == 14 && DefaultTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C15, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultTraits<C15>::size() == 15 && DefaultTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C16, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultTraits<C16>::size() == 16 && DefaultTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C17, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultTraits<C17>::size() == 17 && DefaultTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C18, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultTraits<C18>::size() == 18 && DefaultTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C19, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultTraits<C19>::size() == 19 && DefaultTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_NAMED_ATTRIBUTE_TRAIT(C20, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultTraits<C20>::size() == 20 && DefaultTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_io argmem=@visit$
struct C1 { int m0; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C1, "name 0", m0);
static_assert(DefaultIOTraits<C1>::size() == 1 && DefaultIOTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultIOTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "name 0"); }
struct C2 { int m0; double m1; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C2, "name 0", m0, "name 1", m1);
static_assert(DefaultIOTraits<C2>::size() == 2 && DefaultIOTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultIOTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C3, "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultIOTraits<C3>::size() == 3 && DefaultIOTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultIOTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C5, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultIOTraits<C5>::size() == 5 && DefaultIOTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultIOTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C11, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultIOTraits<C11>::size() == 11 && DefaultIOTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultIOTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C20, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultIOTraits<C20>::size() == 20 && DefaultIOTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultIOTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_io_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C4, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultIOTraits<C4>::size() == 4 && DefaultIOTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultIOTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C6, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultIOTraits<C6>::size() == 6 && DefaultIOTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultIOTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C7, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultIOTraits<C7>::size() == 7 && DefaultIOTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultIOTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C8, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultIOTraits<C8>::size() == 8 && DefaultIOTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultIOTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C9, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultIOTraits<C9>::size() == 9 && DefaultIOTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultIOTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C10, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultIOTraits<C10>::size() == 10 && DefaultIOTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultIOTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C12, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultIOTraits<C12>::size() == 12 && DefaultIOTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultIOTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C13, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultIOTraits<C13>::size() == 13 && DefaultIOTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultIOTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C14, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultIOTraits<C14>::size() == 14 && DefaultIOTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultIOTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C15, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultIOTraits<C15>::size() == 15 && DefaultIOTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultIOTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C16, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultIOTraits<C16>::size() == 16 && DefaultIOTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultIOTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C17, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultIOTraits<C17>::size() == 17 && DefaultIOTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultIOTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C18, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultIOTraits<C18>::size() == 18 && DefaultIOTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultIOTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C19, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultIOTraits<C19>::size() == 19 && DefaultIOTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultIOTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
//@ section named_attribute_arithmetic argmem=@visit$
struct C1 { int m0; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C1, "name 0", m0);
static_assert(DefaultArithmeticTraits<C1>::size() == 1 && DefaultArithmeticTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultArithmeticTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "name 0"); }
struct C2 { int m0; double m1; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C2, "name 0", m0, "name 1", m1);
static_assert(DefaultArithmeticTraits<C2>::size() == 2 && DefaultArithmeticTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultArithmeticTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
struct C3 { int m0; double m1; char m2; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C3, "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultArithmeticTraits<C3>::size() == 3 && DefaultArithmeticTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultArithmeticTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C5, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultArithmeticTraits<C5>::size() == 5 && DefaultArithmeticTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultArithmeticTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C11, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultArithmeticTraits<C11>::size() == 11 && DefaultArithmeticTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultArithmeticTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C20, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultArithmeticTraits<C20>::size() == 20 && DefaultArithmeticTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultArithmeticTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_arithmetic_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C4, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultArithmeticTraits<C4>::size() == 4 && DefaultArithmeticTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultArithmeticTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C6, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultArithmeticTraits<C6>::size() == 6 && DefaultArithmeticTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultArithmeticTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C7, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultArithmeticTraits<C7>::size() == 7 && DefaultArithmeticTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultArithmeticTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C8, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultArithmeticTraits<C8>::size() == 8 && DefaultArithmeticTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultArithmeticTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C9, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultArithmeticTraits<C9>::size() == 9 && DefaultArithmeticTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultArithmeticTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C10, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultArithmeticTraits<C10>::size() == 10 && DefaultArithmeticTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultArithmeticTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C12, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultArithmeticTraits<C12>::size() == 12 && DefaultArithmeticTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultArithmeticTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C13, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultArithmeticTraits<C13>::size() == 13 && DefaultArithmeticTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultArithmeticTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C14, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultArithmeticTraits<C14>::size() == 14 && DefaultArithmeticTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultArithmeticTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C15, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultArithmeticTraits<C15>::size() == 15 && DefaultArithmeticTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultArithmeticTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C16, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultArithmeticTraits<C16>::size() == 16 && DefaultArithmeticTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultArithmeticTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C17, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultArithmeticTraits<C17>::size() == 17 && DefaultArithmeticTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultArithmeticTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C18, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultArithmeticTraits<C18>::size() == 18 && DefaultArithmeticTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultArithmeticTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(C19, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultArithmeticTraits<C19>::size() == 19 && DefaultArithmeticTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultArithmeticTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
//@ section named_attribute_template_default argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C1<A, B>), (class A, class B), "name 0", m0);
static_assert(DefaultTraits<C1<int, double>>::size() == 1 && DefaultTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "name 0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C2<A, B>), (class A, class B), "name 0", m0, "name 1", m1);
static_assert(DefaultTraits<C2<int, double>>::size() == 2 && DefaultTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C3<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultTraits<C3<int, double>>::size() == 3 && DefaultTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C5<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultTraits<C5<int, double>>::size() == 5 && DefaultTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C11<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultTraits<C11<int, double>>::size() == 11 && DefaultTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C20<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultTraits<C20<int, double>>::size() == 20 && DefaultTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_template_default_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C4<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultTraits<C4<int, double>>::size() == 4 && DefaultTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C6<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultTraits<C6<int, double>>::size() == 6 && DefaultTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C7<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultTraits<C7<int, double>>::size() == 7 && DefaultTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C8<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultTraits<C8<int, double>>::size() == 8 && DefaultTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C9<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultTraits<C9<int, double>>::size() == 9 && DefaultTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C10<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultTraits<C10<int, double>>::size() == 10 && DefaultTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C12<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultTraits<C12<int, double>>::size() == 12 && DefaultTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C13<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultTraits<C13<int, double>>::size() == 13 && DefaultTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C14<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultTraits<C14<int, double>>::size() == 14 && DefaultTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C15<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultTraits<C15<int, double>>::size() == 15 && DefaultTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C16<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultTraits<C16<int, double>>::size() == 16 && DefaultTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C17<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultTraits<C17<int, double>>::size() == 17 && DefaultTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C18<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultTraits<C18<int, double>>::size() == 18 && DefaultTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((C19<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultTraits<C19<int, double>>::size() == 19 && DefaultTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
//@ section named_attribute_template_io argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C1<A, B>), (class A, class B), "name 0", m0);
static_assert(DefaultIOTraits<C1<int, double>>::size() == 1 && DefaultIOTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultIOTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "name 0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C2<A, B>), (class A, class B), "name 0", m0, "name 1", m1);
static_assert(DefaultIOTraits<C2<int, double>>::size() == 2 && DefaultIOTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultIOTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C3<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultIOTraits<C3<int, double>>::size() == 3 && DefaultIOTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultIOTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C5<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultIOTraits<C5<int, double>>::size() == 5 && DefaultIOTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultIOTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C11<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultIOTraits<C11<int, double>>::size() == 11 && DefaultIOTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultIOTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C20<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultIOTraits<C20<int, double>>::size() == 20 && DefaultIOTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultIOTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_template_io_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C4<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultIOTraits<C4<int, double>>::size() == 4 && DefaultIOTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultIOTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C6<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultIOTraits<C6<int, double>>::size() == 6 && DefaultIOTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultIOTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C7<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultIOTraits<C7<int, double>>::size() == 7 && DefaultIOTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultIOTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C8<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultIOTraits<C8<int, double>>::size() == 8 && DefaultIOTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultIOTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C9<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultIOTraits<C9<int, double>>::size() == 9 && DefaultIOTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultIOTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C10<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultIOTraits<C10<int, double>>::size() == 10 && DefaultIOTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultIOTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C12<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultIOTraits<C12<int, double>>::size() == 12 && DefaultIOTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultIOTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C13<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultIOTraits<C13<int, double>>::size() == 13 && DefaultIOTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultIOTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C14<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultIOTraits<C14<int, double>>::size() == 14 && DefaultIOTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultIOTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C15<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultIOTraits<C15<int, double>>::size() == 15 && DefaultIOTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultIOTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C16<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultIOTraits<C16<int, double>>::size() == 16 && DefaultIOTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultIOTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C17<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultIOTraits<C17<int, double>>::size() == 17 && DefaultIOTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultIOTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C18<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultIOTraits<C18<int, double>>::size() == 18 && DefaultIOTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultIOTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((C19<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultIOTraits<C19<int, double>>::size() == 19 && DefaultIOTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultIOTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
//@ section named_attribute_template_arithmetic argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C1<A, B>), (class A, class B), "name 0", m0);
static_assert(DefaultArithmeticTraits<C1<int, double>>::size() == 1 && DefaultArithmeticTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultArithmeticTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "name 0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C2<A, B>), (class A, class B), "name 0", m0, "name 1", m1);
static_assert(DefaultArithmeticTraits<C2<int, double>>::size() == 2 && DefaultArithmeticTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultArithmeticTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C3<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2);
static_assert(DefaultArithmeticTraits<C3<int, double>>::size() == 3 && DefaultArithmeticTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultArithmeticTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C5<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
static_assert(DefaultArithmeticTraits<C5<int, double>>::size() == 5 && DefaultArithmeticTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultArithmeticTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C11<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
static_assert(DefaultArithmeticTraits<C11<int, double>>::size() == 11 && DefaultArithmeticTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultArithmeticTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C20<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
static_assert(DefaultArithmeticTraits<C20<int, double>>::size() == 20 && DefaultArithmeticTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultArithmeticTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); visit(19, &o.m19, "name 19"); }
//@ section named_attribute_template_arithmetic_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C4<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
static_assert(DefaultArithmeticTraits<C4<int, double>>::size() == 4 && DefaultArithmeticTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultArithmeticTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C6<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
static_assert(DefaultArithmeticTraits<C6<int, double>>::size() == 6 && DefaultArithmeticTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultArithmeticTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C7<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
static_assert(DefaultArithmeticTraits<C7<int, double>>::size() == 7 && DefaultArithmeticTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultArithmeticTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C8<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
static_assert(DefaultArithmeticTraits<C8<int, double>>::size() == 8 && DefaultArithmeticTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultArithmeticTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C9<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
static_assert(DefaultArithmeticTraits<C9<int, double>>::size() == 9 && DefaultArithmeticTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultArithmeticTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C10<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
static_assert(DefaultArithmeticTraits<C10<int, double>>::size() == 10 && DefaultArithmeticTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultArithmeticTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C12<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
static_assert(DefaultArithmeticTraits<C12<int, double>>::size() == 12 && DefaultArithmeticTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultArithmeticTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C13<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
static_assert(DefaultArithmeticTraits<C13<int, double>>::size() == 13 && DefaultArithmeticTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultArithmeticTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C14<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
static_assert(DefaultArithmeticTraits<C14<int, double>>::size() == 14 && DefaultArithmeticTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultArithmeticTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C15<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
static_assert(DefaultArithmeticTraits<C15<int, double>>::size() == 15 && DefaultArithmeticTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultArithmeticTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C16<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
static_assert(DefaultArithmeticTraits<C16<int, double>>::size() == 16 && DefaultArithmeticTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultArithmeticTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C17<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
static_assert(DefaultArithmeticTraits<C17<int, double>>::size() == 17 && DefaultArithmeticTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultArithmeticTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C18<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
static_assert(DefaultArithmeticTraits<C18<int, double>>::size() == 18 && DefaultArithmeticTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultArithmeticTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((C19<A, B>), (class A, class B), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
static_assert(DefaultArithmeticTraits<C19<int, double>>::size() == 19 && DefaultArithmeticTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultArithmeticTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "name 0"); visit(1, &o.m1, "name 1"); visit(2, &o.m2, "name 2"); visit(3, &o.m3, "name 3"); visit(4, &o.m4, "name 4"); visit(5, &o.m5, "name 5"); visit(6, &o.m6, "name 6"); visit(7, &o.m7, "name 7"); visit(8, &o.m8, "name 8"); visit(9, &o.m9, "name 9"); visit(10, &o.m10, "name 10"); visit(11, &o.m11, "name 11"); visit(12, &o.m12, "name 12"); visit(13, &o.m13, "name 13"); visit(14, &o.m14, "name 14"); visit(15, &o.m15, "name 15"); visit(16, &o.m16, "name 16"); visit(17, &o.m17, "name 17"); visit(18, &o.m18, "name 18"); }
//@ section custom_default argmem=@visit$
struct C1 { int m0; };
MAKE_CUSTOM_TRAIT(C1, "n0", &C1::m0);
static_assert(DefaultTraits<C1>::size() == 1 && DefaultTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "n0"); }
struct C2 { int m0; double m1; };
MAKE_CUSTOM_TRAIT(C2, "n0", &C2::m0, "n7", &C2::m1);
static_assert(DefaultTraits<C2>::size() == 2 && DefaultTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
struct C3 { int m0; double m1; char m2; };
MAKE_CUSTOM_TRAIT(C3, "n0", &C3::m0, "n7", &C3::m1, "n14", &C3::m2);
static_assert(DefaultTraits<C3>::size() == 3 && DefaultTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_CUSTOM_TRAIT(C4, "n0", &C4::m0, "n7", &C4::m1, "n14", &C4::m2, "n21", &C4::m3);
static_assert(DefaultTraits<C4>::size() == 4 && DefaultTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_CUSTOM_TRAIT(C5, "n0", &C5::m0, "n7", &C5::m1, "n14", &C5::m2, "n21", &C5::m3, "n28", &C5::m4);
static_assert(DefaultTraits<C5>::size() == 5 && DefaultTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_CUSTOM_TRAIT(C6, "n0", &C6::m0, "n7", &C6::m1, "n14", &C6::m2, "n21", &C6::m3, "n28", &C6::m4, "n35", &C6::m5);
static_assert(DefaultTraits<C6>::size() == 6 && DefaultTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_CUSTOM_TRAIT(C7, "n0", &C7::m0, "n7", &C7::m1, "n14", &C7::m2, "n21", &C7::m3, "n28", &C7::m4, "n35", &C7::m5, "n42", &C7::m6);
static_assert(DefaultTraits<C7>::size() == 7 && DefaultTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_CUSTOM_TRAIT(C8, "n0", &C8::m0, "n7", &C8::m1, "n14", &C8::m2, "n21", &C8::m3, "n28", &C8::m4, "n35", &C8::m5, "n42", &C8::m6, "n49", &C8::m7);
static_assert(DefaultTraits<C8>::size() == 8 && DefaultTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_CUSTOM_TRAIT(C9, "n0", &C9::m0, "n7", &C9::m1, "n14", &C9::m2, "n21", &C9::m3, "n28", &C9::m4, "n35", &C9::m5, "n42", &C9::m6, "n49", &C9::m7, "n56", &C9::m8);
static_assert(DefaultTraits<C9>::size() == 9 && DefaultTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_CUSTOM_TRAIT(C10, "n0", &C10::m0, "n7", &C10::m1, "n14", &C10::m2, "n21", &C10::m3, "n28", &C10::m4, "n35", &C10::m5, "n42", &C10::m6, "n49", &C10::m7, "n56", &C10::m8, "n63", &C10::m9);
static_assert(DefaultTraits<C10>::size() == 10 && DefaultTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_CUSTOM_TRAIT(C11, "n0", &C11::m0, "n7", &C11::m1, "n14", &C11::m2, "n21", &C11::m3, "n28", &C11::m4, "n35", &C11::m5, "n42", &C11::m6, "n49", &C11::m7, "n56", &C11::m8, "n63", &C11::m9, "n70", &C11::m10);
static_assert(DefaultTraits<C11>::size() == 11 && DefaultTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_CUSTOM_TRAIT(C12, "n0", &C12::m0, "n7", &C12::m1, "n14", &C12::m2, "n21", &C12::m3, "n28", &C12::m4, "n35", &C12::m5, "n42", &C12::m6, "n49", &C12::m7, "n56", &C12::m8, "n63", &C12::m9, "n70", &C12::m10, "n77", &C12::m11);
static_assert(DefaultTraits<C12>::size() == 12 && DefaultTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_CUSTOM_TRAIT(C13, "n0", &C13::m0, "n7", &C13::m1, "n14", &C13::m2, "n21", &C13::m3, "n28", &C13::m4, "n35", &C13::m5, "n42", &C13::m6, "n49", &C13::m7, "n56", &C13::m8, "n63", &C13::m9, "n70", &C13::m10, "n77", &C13::m11, "n84", &C13::m12);
static_assert(DefaultTraits<C13>::size() == 13 && DefaultTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_CUSTOM_TRAIT(C14, "n0", &C14::m0, "n7", &C14::m1, "n14", &C14::m2, "n21", &C14::m3, "n28", &C14::m4, "n35", &C14::m5, "n42", &C14::m6, "n49", &C14::m7, "n56", &C14::m8, "n63", &C14::m9, "n70", &C14::m10, "n77", &C14::m11, "n84", &C14::m12, "n91", &C14::m13);
static_assert(DefaultTraits<C14>::size() == 14 && DefaultTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_CUSTOM_TRAIT(C15, "n0", &C15::m0, "n7", &C15::m1, "n14", &C15::m2, "n21", &C15::m3, "n28", &C15::m4, "n35", &C15::m5, "n42", &C15::m6, "n49", &C15::m7, "n56", &C15::m8, "n63", &C15::m9, "n70", &C15::m10, "n77", &C15::m11, "n84", &C15::m12, "n91", &C15::m13, "n98", &C15::m14);
static_assert(DefaultTraits<C15>::size() == 15 && DefaultTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_CUSTOM_TRAIT(C16, "n0", &C16::m0, "n7", &C16::m1, "n14", &C16::m2, "n21", &C16::m3, "n28", &C16::m4, "n35", &C16::m5, "n42", &C16::m6, "n49", &C16::m7, "n56", &C16::m8, "n63", &C16::m9, "n70", &C16::m10, "n77", &C16::m11, "n84", &C16::m12, "n91", &C16::m13, "n98", &C16::m14, "n105", &C16::m15);
static_assert(DefaultTraits<C16>::size() == 16 && DefaultTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_CUSTOM_TRAIT(C17, "n0", &C17::m0, "n7", &C17::m1, "n14", &C17::m2, "n21", &C17::m3, "n28", &C17::m4, "n35", &C17::m5, "n42", &C17::m6, "n49", &C17::m7, "n56", &C17::m8, "n63", &C17::m9, "n70", &C17::m10, "n77", &C17::m11, "n84", &C17::m12, "n91", &C17::m13, "n98", &C17::m14, "n105", &C17::m15, "n112", &C17::m16);
static_assert(DefaultTraits<C17>::size() == 17 && DefaultTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_CUSTOM_TRAIT(C18, "n0", &C18::m0, "n7", &C18::m1, "n14", &C18::m2, "n21", &C18::m3, "n28", &C18::m4, "n35", &C18::m5, "n42", &C18::m6, "n49", &C18::m7, "n56", &C18::m8, "n63", &C18::m9, "n70", &C18::m10, "n77", &C18::m11, "n84", &C18::m12, "n91", &C18::m13, "n98", &C18::m14, "n105", &C18::m15, "n112", &C18::m16, "n119", &C18::m17);
static_assert(DefaultTraits<C18>::size() == 18 && DefaultTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_CUSTOM_TRAIT(C19, "n0", &C19::m0, "n7", &C19::m1, "n14", &C19::m2, "n21", &C19::m3, "n28", &C19::m4, "n35", &C19::m5, "n42", &C19::m6, "n49", &C19::m7, "n56", &C19::m8, "n63", &C19::m9, "n70", &C19::m10, "n77", &C19::m11, "n84", &C19::m12, "n91", &C19::m13, "n98", &C19::m14, "n105", &C19::m15, "n112", &C19::m16, "n119", &C19::m17, "n126", &C19::m18);
static_assert(DefaultTraits<C19>::size() == 19 && DefaultTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_CUSTOM_TRAIT(C20, "n0", &C20::m0, "n7", &C20::m1, "n14", &C20::m2, "n21", &C20::m3, "n28", &C20::m4, "n35", &C20::m5, "n42", &C20::m6, "n49", &C20::m7, "n56", &C20::m8, "n63", &C20::m9, "n70", &C20::m10, "n77", &C20::m11, "n84", &C20::m12, "n91", &C20::m13, "n98", &C20::m14, "n105", &C20::m15, "n112", &C20::m16, "n119", &C20::m17, "n126", &C20::m18, "n133", &C20::m19);
static_assert(DefaultTraits<C20>::size() == 20 && DefaultTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_io argmem=@visit$
struct C1 { int m0; };
MAKE_CUSTOM_TRAIT_IO(C1, "n0", &C1::m0);
static_assert(DefaultIOTraits<C1>::size() == 1 && DefaultIOTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultIOTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "n0"); }
struct C2 { int m0; double m1; };
MAKE_CUSTOM_TRAIT_IO(C2, "n0", &C2::m0, "n7", &C2::m1);
static_assert(DefaultIOTraits<C2>::size() == 2 && DefaultIOTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultIOTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
struct C3 { int m0; double m1; char m2; };
MAKE_CUSTOM_TRAIT_IO(C3, "n0", &C3::m0, "n7", &C3::m1, "n14", &C3::m2);
static_assert(DefaultIOTraits<C3>::size() == 3 && DefaultIOTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultIOTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_CUSTOM_TRAIT_IO(C5, "n0", &C5::m0, "n7", &C5::m1, "n14", &C5::m2, "n21", &C5::m3, "n28", &C5::m4);
static_assert(DefaultIOTraits<C5>::size() == 5 && DefaultIOTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultIOTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_CUSTOM_TRAIT_IO(C11, "n0", &C11::m0, "n7", &C11::m1, "n14", &C11::m2, "n21", &C11::m3, "n28", &C11::m4, "n35", &C11::m5, "n42", &C11::m6, "n49", &C11::m7, "n56", &C11::m8, "n63", &C11::m9, "n70", &C11::m10);
static_assert(DefaultIOTraits<C11>::size() == 11 && DefaultIOTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultIOTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_CUSTOM_TRAIT_IO(C20, "n0", &C20::m0, "n7", &C20::m1, "n14", &C20::m2, "n21", &C20::m3, "n28", &C20::m4, "n35", &C20::m5, "n42", &C20::m6, "n49", &C20::m7, "n56", &C20::m8, "n63", &C20::m9, "n70", &C20::m10, "n77", &C20::m11, "n84", &C20::m12, "n91", &C20::m13, "n98", &C20::m14, "n105", &C20::m15, "n112", &C20::m16, "n119", &C20::m17, "n126", &C20::m18, "n133", &C20::m19);
static_assert(DefaultIOTraits<C20>::size() == 20 && DefaultIOTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultIOTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_io_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_CUSTOM_TRAIT_IO(C4, "n0", &C4::m0, "n7", &C4::m1, "n14", &C4::m2, "n21", &C4::m3);
static_assert(DefaultIOTraits<C4>::size() == 4 && DefaultIOTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultIOTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_CUSTOM_TRAIT_IO(C6, "n0", &C6::m0, "n7", &C6::m1, "n14", &C6::m2, "n21", &C6::m3, "n28", &C6::m4, "n35", &C6::m5);
static_assert(DefaultIOTraits<C6>::size() == 6 && DefaultIOTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultIOTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_CUSTOM_TRAIT_IO(C7, "n0", &C7::m0, "n7", &C7::m1, "n14", &C7::m2, "n21", &C7::m3, "n28", &C7::m4, "n35", &C7::m5, "n42", &C7::m6);
static_assert(DefaultIOTraits<C7>::size() == 7 && DefaultIOTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultIOTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_CUSTOM_TRAIT_IO(C8, "n0", &C8::m0, "n7", &C8::m1, "n14", &C8::m2, "n21", &C8::m3, "n28", &C8::m4, "n35", &C8::m5, "n42", &C8::m6, "n49", &C8::m7);
static_assert(DefaultIOTraits<C8>::size() == 8 && DefaultIOTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultIOTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_CUSTOM_TRAIT_IO(C9, "n0", &C9::m0, "n7", &C9::m1, "n14", &C9::m2, "n21", &C9::m3, "n28", &C9::m4, "n35", &C9::m5, "n42", &C9::m6, "n49", &C9::m7, "n56", &C9::m8);
static_assert(DefaultIOTraits<C9>::size() == 9 && DefaultIOTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultIOTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_CUSTOM_TRAIT_IO(C10, "n0", &C10::m0, "n7", &C10::m1, "n14", &C10::m2, "n21", &C10::m3, "n28", &C10::m4, "n35", &C10::m5, "n42", &C10::m6, "n49", &C10::m7, "n56", &C10::m8, "n63", &C10::m9);
static_assert(DefaultIOTraits<C10>::size() == 10 && DefaultIOTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultIOTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_CUSTOM_TRAIT_IO(C12, "n0", &C12::m0, "n7", &C12::m1, "n14", &C12::m2, "n21", &C12::m3, "n28", &C12::m4, "n35", &C12::m5, "n42", &C12::m6, "n49", &C12::m7, "n56", &C12::m8, "n63", &C12::m9, "n70", &C12::m10, "n77", &C12::m11);
static_assert(DefaultIOTraits<C12>::size() == 12 && DefaultIOTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultIOTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_CUSTOM_TRAIT_IO(C13, "n0", &C13::m0, "n7", &C13::m1, "n14", &C13::m2, "n21", &C13::m3, "n28", &C13::m4, "n35", &C13::m5, "n42", &C13::m6, "n49", &C13::m7, "n56", &C13::m8, "n63", &C13::m9, "n70", &C13::m10, "n77", &C13::m11, "n84", &C13::m12);
static_assert(DefaultIOTraits<C13>::size() == 13 && DefaultIOTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultIOTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_CUSTOM_TRAIT_IO(C14, "n0", &C14::m0, "n7", &C14::m1, "n14", &C14::m2, "n21", &C14::m3, "n28", &C14::m4, "n35", &C14::m5, "n42", &C14::m6, "n49", &C14::m7, "n56", &C14::m8, "n63", &C14::m9, "n70", &C14::m10, "n77", &C14::m11, "n84", &C14::m12, "n91", &C14::m13);
static_assert(DefaultIOTraits<C14>::size() == 14 && DefaultIOTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultIOTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_CUSTOM_TRAIT_IO(C15, "n0", &C15::m0, "n7", &C15::m1, "n14", &C15::m2, "n21", &C15::m3, "n28", &C15::m4, "n35", &C15::m5, "n42", &C15::m6, "n49", &C15::m7, "n56", &C15::m8, "n63", &C15::m9, "n70", &C15::m10, "n77", &C15::m11, "n84", &C15::m12, "n91", &C15::m13, "n98", &C15::m14);
static_assert(DefaultIOTraits<C15>::size() == 15 && DefaultIOTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultIOTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_CUSTOM_TRAIT_IO(C16, "n0", &C16::m0, "n7", &C16::m1, "n14", &C16::m2, "n21", &C16::m3, "n28", &C16::m4, "n35", &C16::m5, "n42", &C16::m6, "n49", &C16::m7, "n56", &C16::m8, "n63", &C16::m9, "n70", &C16::m10, "n77", &C16::m11, "n84", &C16::m12, "n91", &C16::m13, "n98", &C16::m14, "n105", &C16::m15);
static_assert(DefaultIOTraits<C16>::size() == 16 && DefaultIOTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultIOTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_CUSTOM_TRAIT_IO(C17, "n0", &C17::m0, "n7", &C17::m1, "n14", &C17::m2, "n21", &C17::m3, "n28", &C17::m4, "n35", &C17::m5, "n42", &C17::m6, "n49", &C17::m7, "n56", &C17::m8, "n63", &C17::m9, "n70", &C17::m10, "n77", &C17::m11, "n84", &C17::m12, "n91", &C17::m13, "n98", &C17::m14, "n105", &C17::m15, "n112", &C17::m16);
static_assert(DefaultIOTraits<C17>::size() == 17 && DefaultIOTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultIOTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_CUSTOM_TRAIT_IO(C18, "n0", &C18::m0, "n7", &C18::m1, "n14", &C18::m2, "n21", &C18::m3, "n28", &C18::m4, "n35", &C18::m5, "n42", &C18::m6, "n49", &C18::m7, "n56", &C18::m8, "n63", &C18::m9, "n70", &C18::m10, "n77", &C18::m11, "n84", &C18::m12, "n91", &C18::m13, "n98", &C18::m14, "n105", &C18::m15, "n112", &C18::m16, "n119", &C18::m17);
static_assert(DefaultIOTraits<C18>::size() == 18 && DefaultIOTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultIOTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_CUSTOM_TRAIT_IO(C19, "n0", &C19::m0, "n7", &C19::m1, "n14", &C19::m2, "n21", &C19::m3, "n28", &C19::m4, "n35", &C19::m5, "n42", &C19::m6, "n49", &C19::m7, "n56", &C19::m8, "n63", &C19::m9, "n70", &C19::m10, "n77", &C19::m11, "n84", &C19::m12, "n91", &C19::m13, "n98", &C19::m14, "n105", &C19::m15, "n112", &C19::m16, "n119", &C19::m17, "n126", &C19::m18);
static_assert(DefaultIOTraits<C19>::size() == 19 && DefaultIOTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultIOTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
//@ section custom_arithmetic argmem=@visit$
struct C1 { int m0; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C1, "n0", &C1::m0);
static_assert(DefaultArithmeticTraits<C1>::size() == 1 && DefaultArithmeticTraits<C1>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1>::traitsType, Traits<C1, int C1::*>>::value, "members");
EX void w_impl_1(C1& o) { auto t = DefaultArithmeticTraits<C1>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1& o) { visit(0, &o.m0, "n0"); }
struct C2 { int m0; double m1; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C2, "n0", &C2::m0, "n7", &C2::m1);
static_assert(DefaultArithmeticTraits<C2>::size() == 2 && DefaultArithmeticTraits<C2>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2>::traitsType, Traits<C2, int C2::*, double C2::*>>::value, "members");
EX void w_impl_2(C2& o) { auto t = DefaultArithmeticTraits<C2>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
struct C3 { int m0; double m1; char m2; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C3, "n0", &C3::m0, "n7", &C3::m1, "n14", &C3::m2);
static_assert(DefaultArithmeticTraits<C3>::size() == 3 && DefaultArithmeticTraits<C3>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3>::traitsType, Traits<C3, int C3::*, double C3::*, char C3::*>>::value, "members");
EX void w_impl_3(C3& o) { auto t = DefaultArithmeticTraits<C3>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
struct C5 { int m0; double m1; char m2; long m3; short m4; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C5, "n0", &C5::m0, "n7", &C5::m1, "n14", &C5::m2, "n21", &C5::m3, "n28", &C5::m4);
static_assert(DefaultArithmeticTraits<C5>::size() == 5 && DefaultArithmeticTraits<C5>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5>::traitsType, Traits<C5, int C5::*, double C5::*, char C5::*, long C5::*, short C5::*>>::value, "members");
EX void w_impl_5(C5& o) { auto t = DefaultArithmeticTraits<C5>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
struct C11 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C11, "n0", &C11::m0, "n7", &C11::m1, "n14", &C11::m2, "n21", &C11::m3, "n28", &C11::m4, "n35", &C11::m5, "n42", &C11::m6, "n49", &C11::m7, "n56", &C11::m8, "n63", &C11::m9, "n70", &C11::m10);
static_assert(DefaultArithmeticTraits<C11>::size() == 11 && DefaultArithmeticTraits<C11>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11>::traitsType, Traits<C11, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*, double C11::*, char C11::*, long C11::*, short C11::*, int C11::*>>::value, "members");
EX void w_impl_11(C11& o) { auto t = DefaultArithmeticTraits<C11>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
struct C20 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; short m19; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C20, "n0", &C20::m0, "n7", &C20::m1, "n14", &C20::m2, "n21", &C20::m3, "n28", &C20::m4, "n35", &C20::m5, "n42", &C20::m6, "n49", &C20::m7, "n56", &C20::m8, "n63", &C20::m9, "n70", &C20::m10, "n77", &C20::m11, "n84", &C20::m12, "n91", &C20::m13, "n98", &C20::m14, "n105", &C20::m15, "n112", &C20::m16, "n119", &C20::m17, "n126", &C20::m18, "n133", &C20::m19);
static_assert(DefaultArithmeticTraits<C20>::size() == 20 && DefaultArithmeticTraits<C20>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20>::traitsType, Traits<C20, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*, int C20::*, double C20::*, char C20::*, long C20::*, short C20::*>>::value, "members");
EX void w_impl_20(C20& o) { auto t = DefaultArithmeticTraits<C20>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_arithmetic_all argmem=@visit$ thorough
struct C4 { int m0; double m1; char m2; long m3; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C4, "n0", &C4::m0, "n7", &C4::m1, "n14", &C4::m2, "n21", &C4::m3);
static_assert(DefaultArithmeticTraits<C4>::size() == 4 && DefaultArithmeticTraits<C4>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4>::traitsType, Traits<C4, int C4::*, double C4::*, char C4::*, long C4::*>>::value, "members");
EX void w_impl_4(C4& o) { auto t = DefaultArithmeticTraits<C4>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
struct C6 { int m0; double m1; char m2; long m3; short m4; int m5; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C6, "n0", &C6::m0, "n7", &C6::m1, "n14", &C6::m2, "n21", &C6::m3, "n28", &C6::m4, "n35", &C6::m5);
static_assert(DefaultArithmeticTraits<C6>::size() == 6 && DefaultArithmeticTraits<C6>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6>::traitsType, Traits<C6, int C6::*, double C6::*, char C6::*, long C6::*, short C6::*, int C6::*>>::value, "members");
EX void w_impl_6(C6& o) { auto t = DefaultArithmeticTraits<C6>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
struct C7 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C7, "n0", &C7::m0, "n7", &C7::m1, "n14", &C7::m2, "n21", &C7::m3, "n28", &C7::m4, "n35", &C7::m5, "n42", &C7::m6);
static_assert(DefaultArithmeticTraits<C7>::size() == 7 && DefaultArithmeticTraits<C7>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7>::traitsType, Traits<C7, int C7::*, double C7::*, char C7::*, long C7::*, short C7::*, int C7::*, double C7::*>>::value, "members");
EX void w_impl_7(C7& o) { auto t = DefaultArithmeticTraits<C7>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
struct C8 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C8, "n0", &C8::m0, "n7", &C8::m1, "n14", &C8::m2, "n21", &C8::m3, "n28", &C8::m4, "n35", &C8::m5, "n42", &C8::m6, "n49", &C8::m7);
static_assert(DefaultArithmeticTraits<C8>::size() == 8 && DefaultArithmeticTraits<C8>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8>::traitsType, Traits<C8, int C8::*, double C8::*, char C8::*, long C8::*, short C8::*, int C8::*, double C8::*, char C8::*>>::value, "members");
EX void w_impl_8(C8& o) { auto t = DefaultArithmeticTraits<C8>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
struct C9 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C9, "n0", &C9::m0, "n7", &C9::m1, "n14", &C9::m2, "n21", &C9::m3, "n28", &C9::m4, "n35", &C9::m5, "n42", &C9::m6, "n49", &C9::m7, "n56", &C9::m8);
static_assert(DefaultArithmeticTraits<C9>::size() == 9 && DefaultArithmeticTraits<C9>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9>::traitsType, Traits<C9, int C9::*, double C9::*, char C9::*, long C9::*, short C9::*, int C9::*, double C9::*, char C9::*, long C9::*>>::value, "members");
EX void w_impl_9(C9& o) { auto t = DefaultArithmeticTraits<C9>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
struct C10 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C10, "n0", &C10::m0, "n7", &C10::m1, "n14", &C10::m2, "n21", &C10::m3, "n28", &C10::m4, "n35", &C10::m5, "n42", &C10::m6, "n49", &C10::m7, "n56", &C10::m8, "n63", &C10::m9);
static_assert(DefaultArithmeticTraits<C10>::size() == 10 && DefaultArithmeticTraits<C10>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10>::traitsType, Traits<C10, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*, int C10::*, double C10::*, char C10::*, long C10::*, short C10::*>>::value, "members");
EX void w_impl_10(C10& o) { auto t = DefaultArithmeticTraits<C10>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
struct C12 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C12, "n0", &C12::m0, "n7", &C12::m1, "n14", &C12::m2, "n21", &C12::m3, "n28", &C12::m4, "n35", &C12::m5, "n42", &C12::m6, "n49", &C12::m7, "n56", &C12::m8, "n63", &C12::m9, "n70", &C12::m10, "n77", &C12::m11);
static_assert(DefaultArithmeticTraits<C12>::size() == 12 && DefaultArithmeticTraits<C12>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12>::traitsType, Traits<C12, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*, char C12::*, long C12::*, short C12::*, int C12::*, double C12::*>>::value, "members");
EX void w_impl_12(C12& o) { auto t = DefaultArithmeticTraits<C12>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
struct C13 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C13, "n0", &C13::m0, "n7", &C13::m1, "n14", &C13::m2, "n21", &C13::m3, "n28", &C13::m4, "n35", &C13::m5, "n42", &C13::m6, "n49", &C13::m7, "n56", &C13::m8, "n63", &C13::m9, "n70", &C13::m10, "n77", &C13::m11, "n84", &C13::m12);
static_assert(DefaultArithmeticTraits<C13>::size() == 13 && DefaultArithmeticTraits<C13>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13>::traitsType, Traits<C13, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*, long C13::*, short C13::*, int C13::*, double C13::*, char C13::*>>::value, "members");
EX void w_impl_13(C13& o) { auto t = DefaultArithmeticTraits<C13>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
struct C14 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C14, "n0", &C14::m0, "n7", &C14::m1, "n14", &C14::m2, "n21", &C14::m3, "n28", &C14::m4, "n35", &C14::m5, "n42", &C14::m6, "n49", &C14::m7, "n56", &C14::m8, "n63", &C14::m9, "n70", &C14::m10, "n77", &C14::m11, "n84", &C14::m12, "n91", &C14::m13);
static_assert(DefaultArithmeticTraits<C14>::size() == 14 && DefaultArithmeticTraits<C14>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14>::traitsType, Traits<C14, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*, short C14::*, int C14::*, double C14::*, char C14::*, long C14::*>>::value, "members");
EX void w_impl_14(C14& o) { auto t = DefaultArithmeticTraits<C14>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
struct C15 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C15, "n0", &C15::m0, "n7", &C15::m1, "n14", &C15::m2, "n21", &C15::m3, "n28", &C15::m4, "n35", &C15::m5, "n42", &C15::m6, "n49", &C15::m7, "n56", &C15::m8, "n63", &C15::m9, "n70", &C15::m10, "n77", &C15::m11, "n84", &C15::m12, "n91", &C15::m13, "n98", &C15::m14);
static_assert(DefaultArithmeticTraits<C15>::size() == 15 && DefaultArithmeticTraits<C15>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15>::traitsType, Traits<C15, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*, int C15::*, double C15::*, char C15::*, long C15::*, short C15::*>>::value, "members");
EX void w_impl_15(C15& o) { auto t = DefaultArithmeticTraits<C15>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
struct C16 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C16, "n0", &C16::m0, "n7", &C16::m1, "n14", &C16::m2, "n21", &C16::m3, "n28", &C16::m4, "n35", &C16::m5, "n42", &C16::m6, "n49", &C16::m7, "n56", &C16::m8, "n63", &C16::m9, "n70", &C16::m10, "n77", &C16::m11, "n84", &C16::m12, "n91", &C16::m13, "n98", &C16::m14, "n105", &C16::m15);
static_assert(DefaultArithmeticTraits<C16>::size() == 16 && DefaultArithmeticTraits<C16>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16>::traitsType, Traits<C16, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*, double C16::*, char C16::*, long C16::*, short C16::*, int C16::*>>::value, "members");
EX void w_impl_16(C16& o) { auto t = DefaultArithmeticTraits<C16>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
struct C17 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C17, "n0", &C17::m0, "n7", &C17::m1, "n14", &C17::m2, "n21", &C17::m3, "n28", &C17::m4, "n35", &C17::m5, "n42", &C17::m6, "n49", &C17::m7, "n56", &C17::m8, "n63", &C17::m9, "n70", &C17::m10, "n77", &C17::m11, "n84", &C17::m12, "n91", &C17::m13, "n98", &C17::m14, "n105", &C17::m15, "n112", &C17::m16);
static_assert(DefaultArithmeticTraits<C17>::size() == 17 && DefaultArithmeticTraits<C17>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17>::traitsType, Traits<C17, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*, char C17::*, long C17::*, short C17::*, int C17::*, double C17::*>>::value, "members");
EX void w_impl_17(C17& o) { auto t = DefaultArithmeticTraits<C17>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
struct C18 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C18, "n0", &C18::m0, "n7", &C18::m1, "n14", &C18::m2, "n21", &C18::m3, "n28", &C18::m4, "n35", &C18::m5, "n42", &C18::m6, "n49", &C18::m7, "n56", &C18::m8, "n63", &C18::m9, "n70", &C18::m10, "n77", &C18::m11, "n84", &C18::m12, "n91", &C18::m13, "n98", &C18::m14, "n105", &C18::m15, "n112", &C18::m16, "n119", &C18::m17);
static_assert(DefaultArithmeticTraits<C18>::size() == 18 && DefaultArithmeticTraits<C18>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18>::traitsType, Traits<C18, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*, long C18::*, short C18::*, int C18::*, double C18::*, char C18::*>>::value, "members");
EX void w_impl_18(C18& o) { auto t = DefaultArithmeticTraits<C18>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
struct C19 { int m0; double m1; char m2; long m3; short m4; int m5; double m6; char m7; long m8; short m9; int m10; double m11; char m12; long m13; short m14; int m15; double m16; char m17; long m18; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(C19, "n0", &C19::m0, "n7", &C19::m1, "n14", &C19::m2, "n21", &C19::m3, "n28", &C19::m4, "n35", &C19::m5, "n42", &C19::m6, "n49", &C19::m7, "n56", &C19::m8, "n63", &C19::m9, "n70", &C19::m10, "n77", &C19::m11, "n84", &C19::m12, "n91", &C19::m13, "n98", &C19::m14, "n105", &C19::m15, "n112", &C19::m16, "n119", &C19::m17, "n126", &C19::m18);
static_assert(DefaultArithmeticTraits<C19>::size() == 19 && DefaultArithmeticTraits<C19>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19>::traitsType, Traits<C19, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*, short C19::*, int C19::*, double C19::*, char C19::*, long C19::*>>::value, "members");
EX void w_impl_19(C19& o) { auto t = DefaultArithmeticTraits<C19>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
//@ section custom_template_default argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C1<A, B>), (class A, class B), "n0", (&C1<A, B>::m0));
static_assert(DefaultTraits<C1<int, double>>::size() == 1 && DefaultTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "n0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C2<A, B>), (class A, class B), "n0", (&C2<A, B>::m0), "n7", (&C2<A, B>::m1));
static_assert(DefaultTraits<C2<int, double>>::size() == 2 && DefaultTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C3<A, B>), (class A, class B), "n0", (&C3<A, B>::m0), "n7", (&C3<A, B>::m1), "n14", (&C3<A, B>::m2));
static_assert(DefaultTraits<C3<int, double>>::size() == 3 && DefaultTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C5<A, B>), (class A, class B), "n0", (&C5<A, B>::m0), "n7", (&C5<A, B>::m1), "n14", (&C5<A, B>::m2), "n21", (&C5<A, B>::m3), "n28", (&C5<A, B>::m4));
static_assert(DefaultTraits<C5<int, double>>::size() == 5 && DefaultTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C11<A, B>), (class A, class B), "n0", (&C11<A, B>::m0), "n7", (&C11<A, B>::m1), "n14", (&C11<A, B>::m2), "n21", (&C11<A, B>::m3), "n28", (&C11<A, B>::m4), "n35", (&C11<A, B>::m5), "n42", (&C11<A, B>::m6), "n49", (&C11<A, B>::m7), "n56", (&C11<A, B>::m8), "n63", (&C11<A, B>::m9), "n70", (&C11<A, B>::m10));
static_assert(DefaultTraits<C11<int, double>>::size() == 11 && DefaultTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C20<A, B>), (class A, class B), "n0", (&C20<A, B>::m0), "n7", (&C20<A, B>::m1), "n14", (&C20<A, B>::m2), "n21", (&C20<A, B>::m3), "n28", (&C20<A, B>::m4), "n35", (&C20<A, B>::m5), "n42", (&C20<A, B>::m6), "n49", (&C20<A, B>::m7), "n56", (&C20<A, B>::m8), "n63", (&C20<A, B>::m9), "n70", (&C20<A, B>::m10), "n77", (&C20<A, B>::m11), "n84", (&C20<A, B>::m12), "n91", (&C20<A, B>::m13), "n98", (&C20<A, B>::m14), "n105", (&C20<A, B>::m15), "n112", (&C20<A, B>::m16), "n119", (&C20<A, B>::m17), "n126", (&C20<A, B>::m18), "n133", (&C20<A, B>::m19));
static_assert(DefaultTraits<C20<int, double>>::size() == 20 && DefaultTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_template_default_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C4<A, B>), (class A, class B), "n0", (&C4<A, B>::m0), "n7", (&C4<A, B>::m1), "n14", (&C4<A, B>::m2), "n21", (&C4<A, B>::m3));
static_assert(DefaultTraits<C4<int, double>>::size() == 4 && DefaultTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C6<A, B>), (class A, class B), "n0", (&C6<A, B>::m0), "n7", (&C6<A, B>::m1), "n14", (&C6<A, B>::m2), "n21", (&C6<A, B>::m3), "n28", (&C6<A, B>::m4), "n35", (&C6<A, B>::m5));
static_assert(DefaultTraits<C6<int, double>>::size() == 6 && DefaultTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C7<A, B>), (class A, class B), "n0", (&C7<A, B>::m0), "n7", (&C7<A, B>::m1), "n14", (&C7<A, B>::m2), "n21", (&C7<A, B>::m3), "n28", (&C7<A, B>::m4), "n35", (&C7<A, B>::m5), "n42", (&C7<A, B>::m6));
static_assert(DefaultTraits<C7<int, double>>::size() == 7 && DefaultTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C8<A, B>), (class A, class B), "n0", (&C8<A, B>::m0), "n7", (&C8<A, B>::m1), "n14", (&C8<A, B>::m2), "n21", (&C8<A, B>::m3), "n28", (&C8<A, B>::m4), "n35", (&C8<A, B>::m5), "n42", (&C8<A, B>::m6), "n49", (&C8<A, B>::m7));
static_assert(DefaultTraits<C8<int, double>>::size() == 8 && DefaultTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C9<A, B>), (class A, class B), "n0", (&C9<A, B>::m0), "n7", (&C9<A, B>::m1), "n14", (&C9<A, B>::m2), "n21", (&C9<A, B>::m3), "n28", (&C9<A, B>::m4), "n35", (&C9<A, B>::m5), "n42", (&C9<A, B>::m6), "n49", (&C9<A, B>::m7), "n56", (&C9<A, B>::m8));
static_assert(DefaultTraits<C9<int, double>>::size() == 9 && DefaultTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C10<A, B>), (class A, class B), "n0", (&C10<A, B>::m0), "n7", (&C10<A, B>::m1), "n14", (&C10<A, B>::m2), "n21", (&C10<A, B>::m3), "n28", (&C10<A, B>::m4), "n35", (&C10<A, B>::m5), "n42", (&C10<A, B>::m6), "n49", (&C10<A, B>::m7), "n56", (&C10<A, B>::m8), "n63", (&C10<A, B>::m9));
static_assert(DefaultTraits<C10<int, double>>::size() == 10 && DefaultTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C12<A, B>), (class A, class B), "n0", (&C12<A, B>::m0), "n7", (&C12<A, B>::m1), "n14", (&C12<A, B>::m2), "n21", (&C12<A, B>::m3), "n28", (&C12<A, B>::m4), "n35", (&C12<A, B>::m5), "n42", (&C12<A, B>::m6), "n49", (&C12<A, B>::m7), "n56", (&C12<A, B>::m8), "n63", (&C12<A, B>::m9), "n70", (&C12<A, B>::m10), "n77", (&C12<A, B>::m11));
static_assert(DefaultTraits<C12<int, double>>::size() == 12 && DefaultTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C13<A, B>), (class A, class B), "n0", (&C13<A, B>::m0), "n7", (&C13<A, B>::m1), "n14", (&C13<A, B>::m2), "n21", (&C13<A, B>::m3), "n28", (&C13<A, B>::m4), "n35", (&C13<A, B>::m5), "n42", (&C13<A, B>::m6), "n49", (&C13<A, B>::m7), "n56", (&C13<A, B>::m8), "n63", (&C13<A, B>::m9), "n70", (&C13<A, B>::m10), "n77", (&C13<A, B>::m11), "n84", (&C13<A, B>::m12));
static_assert(DefaultTraits<C13<int, double>>::size() == 13 && DefaultTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C14<A, B>), (class A, class B), "n0", (&C14<A, B>::m0), "n7", (&C14<A, B>::m1), "n14", (&C14<A, B>::m2), "n21", (&C14<A, B>::m3), "n28", (&C14<A, B>::m4), "n35", (&C14<A, B>::m5), "n42", (&C14<A, B>::m6), "n49", (&C14<A, B>::m7), "n56", (&C14<A, B>::m8), "n63", (&C14<A, B>::m9), "n70", (&C14<A, B>::m10), "n77", (&C14<A, B>::m11), "n84", (&C14<A, B>::m12), "n91", (&C14<A, B>::m13));
static_assert(DefaultTraits<C14<int, double>>::size() == 14 && DefaultTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C15<A, B>), (class A, class B), "n0", (&C15<A, B>::m0), "n7", (&C15<A, B>::m1), "n14", (&C15<A, B>::m2), "n21", (&C15<A, B>::m3), "n28", (&C15<A, B>::m4), "n35", (&C15<A, B>::m5), "n42", (&C15<A, B>::m6), "n49", (&C15<A, B>::m7), "n56", (&C15<A, B>::m8), "n63", (&C15<A, B>::m9), "n70", (&C15<A, B>::m10), "n77", (&C15<A, B>::m11), "n84", (&C15<A, B>::m12), "n91", (&C15<A, B>::m13), "n98", (&C15<A, B>::m14));
static_assert(DefaultTraits<C15<int, double>>::size() == 15 && DefaultTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C16<A, B>), (class A, class B), "n0", (&C16<A, B>::m0), "n7", (&C16<A, B>::m1), "n14", (&C16<A, B>::m2), "n21", (&C16<A, B>::m3), "n28", (&C16<A, B>::m4), "n35", (&C16<A, B>::m5), "n42", (&C16<A, B>::m6), "n49", (&C16<A, B>::m7), "n56", (&C16<A, B>::m8), "n63", (&C16<A, B>::m9), "n70", (&C16<A, B>::m10), "n77", (&C16<A, B>::m11), "n84", (&C16<A, B>::m12), "n91", (&C16<A, B>::m13), "n98", (&C16<A, B>::m14), "n105", (&C16<A, B>::m15));
static_assert(DefaultTraits<C16<int, double>>::size() == 16 && DefaultTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C17<A, B>), (class A, class B), "n0", (&C17<A, B>::m0), "n7", (&C17<A, B>::m1), "n14", (&C17<A, B>::m2), "n21", (&C17<A, B>::m3), "n28", (&C17<A, B>::m4), "n35", (&C17<A, B>::m5), "n42", (&C17<A, B>::m6), "n49", (&C17<A, B>::m7), "n56", (&C17<A, B>::m8), "n63", (&C17<A, B>::m9), "n70", (&C17<A, B>::m10), "n77", (&C17<A, B>::m11), "n84", (&C17<A, B>::m12), "n91", (&C17<A, B>::m13), "n98", (&C17<A, B>::m14), "n105", (&C17<A, B>::m15), "n112", (&C17<A, B>::m16));
static_assert(DefaultTraits<C17<int, double>>::size() == 17 && DefaultTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C18<A, B>), (class A, class B), "n0", (&C18<A, B>::m0), "n7", (&C18<A, B>::m1), "n14", (&C18<A, B>::m2), "n21", (&C18<A, B>::m3), "n28", (&C18<A, B>::m4), "n35", (&C18<A, B>::m5), "n42", (&C18<A, B>::m6), "n49", (&C18<A, B>::m7), "n56", (&C18<A, B>::m8), "n63", (&C18<A, B>::m9), "n70", (&C18<A, B>::m10), "n77", (&C18<A, B>::m11), "n84", (&C18<A, B>::m12), "n91", (&C18<A, B>::m13), "n98", (&C18<A, B>::m14), "n105", (&C18<A, B>::m15), "n112", (&C18<A, B>::m16), "n119", (&C18<A, B>::m17));
static_assert(DefaultTraits<C18<int, double>>::size() == 18 && DefaultTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_CUSTOM_TEMPLATE_TRAIT((C19<A, B>), (class A, class B), "n0", (&C19<A, B>::m0), "n7", (&C19<A, B>::m1), "n14", (&C19<A, B>::m2), "n21", (&C19<A, B>::m3), "n28", (&C19<A, B>::m4), "n35", (&C19<A, B>::m5), "n42", (&C19<A, B>::m6), "n49", (&C19<A, B>::m7), "n56", (&C19<A, B>::m8), "n63", (&C19<A, B>::m9), "n70", (&C19<A, B>::m10), "n77", (&C19<A, B>::m11), "n84", (&C19<A, B>::m12), "n91", (&C19<A, B>::m13), "n98", (&C19<A, B>::m14), "n105", (&C19<A, B>::m15), "n112", (&C19<A, B>::m16), "n119", (&C19<A, B>::m17), "n126", (&C19<A, B>::m18));
static_assert(DefaultTraits<C19<int, double>>::size() == 19 && DefaultTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
//@ section custom_template_io argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C1<A, B>), (class A, class B), "n0", (&C1<A, B>::m0));
static_assert(DefaultIOTraits<C1<int, double>>::size() == 1 && DefaultIOTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultIOTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultIOTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "n0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C2<A, B>), (class A, class B), "n0", (&C2<A, B>::m0), "n7", (&C2<A, B>::m1));
static_assert(DefaultIOTraits<C2<int, double>>::size() == 2 && DefaultIOTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultIOTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultIOTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C3<A, B>), (class A, class B), "n0", (&C3<A, B>::m0), "n7", (&C3<A, B>::m1), "n14", (&C3<A, B>::m2));
static_assert(DefaultIOTraits<C3<int, double>>::size() == 3 && DefaultIOTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultIOTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultIOTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C5<A, B>), (class A, class B), "n0", (&C5<A, B>::m0), "n7", (&C5<A, B>::m1), "n14", (&C5<A, B>::m2), "n21", (&C5<A, B>::m3), "n28", (&C5<A, B>::m4));
static_assert(DefaultIOTraits<C5<int, double>>::size() == 5 && DefaultIOTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultIOTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultIOTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C11<A, B>), (class A, class B), "n0", (&C11<A, B>::m0), "n7", (&C11<A, B>::m1), "n14", (&C11<A, B>::m2), "n21", (&C11<A, B>::m3), "n28", (&C11<A, B>::m4), "n35", (&C11<A, B>::m5), "n42", (&C11<A, B>::m6), "n49", (&C11<A, B>::m7), "n56", (&C11<A, B>::m8), "n63", (&C11<A, B>::m9), "n70", (&C11<A, B>::m10));
static_assert(DefaultIOTraits<C11<int, double>>::size() == 11 && DefaultIOTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultIOTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultIOTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C20<A, B>), (class A, class B), "n0", (&C20<A, B>::m0), "n7", (&C20<A, B>::m1), "n14", (&C20<A, B>::m2), "n21", (&C20<A, B>::m3), "n28", (&C20<A, B>::m4), "n35", (&C20<A, B>::m5), "n42", (&C20<A, B>::m6), "n49", (&C20<A, B>::m7), "n56", (&C20<A, B>::m8), "n63", (&C20<A, B>::m9), "n70", (&C20<A, B>::m10), "n77", (&C20<A, B>::m11), "n84", (&C20<A, B>::m12), "n91", (&C20<A, B>::m13), "n98", (&C20<A, B>::m14), "n105", (&C20<A, B>::m15), "n112", (&C20<A, B>::m16), "n119", (&C20<A, B>::m17), "n126", (&C20<A, B>::m18), "n133", (&C20<A, B>::m19));
static_assert(DefaultIOTraits<C20<int, double>>::size() == 20 && DefaultIOTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultIOTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultIOTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_template_io_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C4<A, B>), (class A, class B), "n0", (&C4<A, B>::m0), "n7", (&C4<A, B>::m1), "n14", (&C4<A, B>::m2), "n21", (&C4<A, B>::m3));
static_assert(DefaultIOTraits<C4<int, double>>::size() == 4 && DefaultIOTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultIOTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultIOTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C6<A, B>), (class A, class B), "n0", (&C6<A, B>::m0), "n7", (&C6<A, B>::m1), "n14", (&C6<A, B>::m2), "n21", (&C6<A, B>::m3), "n28", (&C6<A, B>::m4), "n35", (&C6<A, B>::m5));
static_assert(DefaultIOTraits<C6<int, double>>::size() == 6 && DefaultIOTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultIOTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultIOTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C7<A, B>), (class A, class B), "n0", (&C7<A, B>::m0), "n7", (&C7<A, B>::m1), "n14", (&C7<A, B>::m2), "n21", (&C7<A, B>::m3), "n28", (&C7<A, B>::m4), "n35", (&C7<A, B>::m5), "n42", (&C7<A, B>::m6));
static_assert(DefaultIOTraits<C7<int, double>>::size() == 7 && DefaultIOTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultIOTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultIOTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C8<A, B>), (class A, class B), "n0", (&C8<A, B>::m0), "n7", (&C8<A, B>::m1), "n14", (&C8<A, B>::m2), "n21", (&C8<A, B>::m3), "n28", (&C8<A, B>::m4), "n35", (&C8<A, B>::m5), "n42", (&C8<A, B>::m6), "n49", (&C8<A, B>::m7));
static_assert(DefaultIOTraits<C8<int, double>>::size() == 8 && DefaultIOTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultIOTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultIOTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C9<A, B>), (class A, class B), "n0", (&C9<A, B>::m0), "n7", (&C9<A, B>::m1), "n14", (&C9<A, B>::m2), "n21", (&C9<A, B>::m3), "n28", (&C9<A, B>::m4), "n35", (&C9<A, B>::m5), "n42", (&C9<A, B>::m6), "n49", (&C9<A, B>::m7), "n56", (&C9<A, B>::m8));
static_assert(DefaultIOTraits<C9<int, double>>::size() == 9 && DefaultIOTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultIOTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultIOTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C10<A, B>), (class A, class B), "n0", (&C10<A, B>::m0), "n7", (&C10<A, B>::m1), "n14", (&C10<A, B>::m2), "n21", (&C10<A, B>::m3), "n28", (&C10<A, B>::m4), "n35", (&C10<A, B>::m5), "n42", (&C10<A, B>::m6), "n49", (&C10<A, B>::m7), "n56", (&C10<A, B>::m8), "n63", (&C10<A, B>::m9));
static_assert(DefaultIOTraits<C10<int, double>>::size() == 10 && DefaultIOTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultIOTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultIOTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C12<A, B>), (class A, class B), "n0", (&C12<A, B>::m0), "n7", (&C12<A, B>::m1), "n14", (&C12<A, B>::m2), "n21", (&C12<A, B>::m3), "n28", (&C12<A, B>::m4), "n35", (&C12<A, B>::m5), "n42", (&C12<A, B>::m6), "n49", (&C12<A, B>::m7), "n56", (&C12<A, B>::m8), "n63", (&C12<A, B>::m9), "n70", (&C12<A, B>::m10), "n77", (&C12<A, B>::m11));
static_assert(DefaultIOTraits<C12<int, double>>::size() == 12 && DefaultIOTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultIOTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultIOTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C13<A, B>), (class A, class B), "n0", (&C13<A, B>::m0), "n7", (&C13<A, B>::m1), "n14", (&C13<A, B>::m2), "n21", (&C13<A, B>::m3), "n28", (&C13<A, B>::m4), "n35", (&C13<A, B>::m5), "n42", (&C13<A, B>::m6), "n49", (&C13<A, B>::m7), "n56", (&C13<A, B>::m8), "n63", (&C13<A, B>::m9), "n70", (&C13<A, B>::m10), "n77", (&C13<A, B>::m11), "n84", (&C13<A, B>::m12));
static_assert(DefaultIOTraits<C13<int, double>>::size() == 13 && DefaultIOTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultIOTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultIOTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C14<A, B>), (class A, class B), "n0", (&C14<A, B>::m0), "n7", (&C14<A, B>::m1), "n14", (&C14<A, B>::m2), "n21", (&C14<A, B>::m3), "n28", (&C14<A, B>::m4), "n35", (&C14<A, B>::m5), "n42", (&C14<A, B>::m6), "n49", (&C14<A, B>::m7), "n56", (&C14<A, B>::m8), "n63", (&C14<A, B>::m9), "n70", (&C14<A, B>::m10), "n77", (&C14<A, B>::m11), "n84", (&C14<A, B>::m12), "n91", (&C14<A, B>::m13));
static_assert(DefaultIOTraits<C14<int, double>>::size() == 14 && DefaultIOTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultIOTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultIOTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C15<A, B>), (class A, class B), "n0", (&C15<A, B>::m0), "n7", (&C15<A, B>::m1), "n14", (&C15<A, B>::m2), "n21", (&C15<A, B>::m3), "n28", (&C15<A, B>::m4), "n35", (&C15<A, B>::m5), "n42", (&C15<A, B>::m6), "n49", (&C15<A, B>::m7), "n56", (&C15<A, B>::m8), "n63", (&C15<A, B>::m9), "n70", (&C15<A, B>::m10), "n77", (&C15<A, B>::m11), "n84", (&C15<A, B>::m12), "n91", (&C15<A, B>::m13), "n98", (&C15<A, B>::m14));
static_assert(DefaultIOTraits<C15<int, double>>::size() == 15 && DefaultIOTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultIOTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultIOTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C16<A, B>), (class A, class B), "n0", (&C16<A, B>::m0), "n7", (&C16<A, B>::m1), "n14", (&C16<A, B>::m2), "n21", (&C16<A, B>::m3), "n28", (&C16<A, B>::m4), "n35", (&C16<A, B>::m5), "n42", (&C16<A, B>::m6), "n49", (&C16<A, B>::m7), "n56", (&C16<A, B>::m8), "n63", (&C16<A, B>::m9), "n70", (&C16<A, B>::m10), "n77", (&C16<A, B>::m11), "n84", (&C16<A, B>::m12), "n91", (&C16<A, B>::m13), "n98", (&C16<A, B>::m14), "n105", (&C16<A, B>::m15));
static_assert(DefaultIOTraits<C16<int, double>>::size() == 16 && DefaultIOTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultIOTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultIOTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C17<A, B>), (class A, class B), "n0", (&C17<A, B>::m0), "n7", (&C17<A, B>::m1), "n14", (&C17<A, B>::m2), "n21", (&C17<A, B>::m3), "n28", (&C17<A, B>::m4), "n35", (&C17<A, B>::m5), "n42", (&C17<A, B>::m6), "n49", (&C17<A, B>::m7), "n56", (&C17<A, B>::m8), "n63", (&C17<A, B>::m9), "n70", (&C17<A, B>::m10), "n77", (&C17<A, B>::m11), "n84", (&C17<A, B>::m12), "n91", (&C17<A, B>::m13), "n98", (&C17<A, B>::m14), "n105", (&C17<A, B>::m15), "n112", (&C17<A, B>::m16));
static_assert(DefaultIOTraits<C17<int, double>>::size() == 17 && DefaultIOTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultIOTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultIOTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C18<A, B>), (class A, class B), "n0", (&C18<A, B>::m0), "n7", (&C18<A, B>::m1), "n14", (&C18<A, B>::m2), "n21", (&C18<A, B>::m3), "n28", (&C18<A, B>::m4), "n35", (&C18<A, B>::m5), "n42", (&C18<A, B>::m6), "n49", (&C18<A, B>::m7), "n56", (&C18<A, B>::m8), "n63", (&C18<A, B>::m9), "n70", (&C18<A, B>::m10), "n77", (&C18<A, B>::m11), "n84", (&C18<A, B>::m12), "n91", (&C18<A, B>::m13), "n98", (&C18<A, B>::m14), "n105", (&C18<A, B>::m15), "n112", (&C18<A, B>::m16), "n119", (&C18<A, B>::m17));
static_assert(DefaultIOTraits<C18<int, double>>::size() == 18 && DefaultIOTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultIOTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultIOTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((C19<A, B>), (class A, class B), "n0", (&C19<A, B>::m0), "n7", (&C19<A, B>::m1), "n14", (&C19<A, B>::m2), "n21", (&C19<A, B>::m3), "n28", (&C19<A, B>::m4), "n35", (&C19<A, B>::m5), "n42", (&C19<A, B>::m6), "n49", (&C19<A, B>::m7), "n56", (&C19<A, B>::m8), "n63", (&C19<A, B>::m9), "n70", (&C19<A, B>::m10), "n77", (&C19<A, B>::m11), "n84", (&C19<A, B>::m12), "n91", (&C19<A, B>::m13), "n98", (&C19<A, B>::m14), "n105", (&C19<A, B>::m15), "n112", (&C19<A, B>::m16), "n119", (&C19<A, B>::m17), "n126", (&C19<A, B>::m18));
static_assert(DefaultIOTraits<C19<int, double>>::size() == 19 && DefaultIOTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultIOTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultIOTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
//@ section custom_template_arithmetic argmem=@visit$
template <class A, class B> struct C1 { A m0; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C1<A, B>), (class A, class B), "n0", (&C1<A, B>::m0));
static_assert(DefaultArithmeticTraits<C1<int, double>>::size() == 1 && DefaultArithmeticTraits<C1<int, double>>::traitsType::size() == 1, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C1<int, double>>::traitsType, Traits<C1<int, double>, int C1<int, double>::*>>::value, "members");
EX void w_impl_1(C1<int, double>& o) { auto t = DefaultArithmeticTraits<C1<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); }
EX void w_spec_1(C1<int, double>& o) { visit(0, &o.m0, "n0"); }
template <class A, class B> struct C2 { A m0; B m1; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C2<A, B>), (class A, class B), "n0", (&C2<A, B>::m0), "n7", (&C2<A, B>::m1));
static_assert(DefaultArithmeticTraits<C2<int, double>>::size() == 2 && DefaultArithmeticTraits<C2<int, double>>::traitsType::size() == 2, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C2<int, double>>::traitsType, Traits<C2<int, double>, int C2<int, double>::*, double C2<int, double>::*>>::value, "members");
EX void w_impl_2(C2<int, double>& o) { auto t = DefaultArithmeticTraits<C2<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); }
EX void w_spec_2(C2<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); }
template <class A, class B> struct C3 { A m0; B m1; A m2; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C3<A, B>), (class A, class B), "n0", (&C3<A, B>::m0), "n7", (&C3<A, B>::m1), "n14", (&C3<A, B>::m2));
static_assert(DefaultArithmeticTraits<C3<int, double>>::size() == 3 && DefaultArithmeticTraits<C3<int, double>>::traitsType::size() == 3, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C3<int, double>>::traitsType, Traits<C3<int, double>, int C3<int, double>::*, double C3<int, double>::*, int C3<int, double>::*>>::value, "members");
EX void w_impl_3(C3<int, double>& o) { auto t = DefaultArithmeticTraits<C3<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); }
EX void w_spec_3(C3<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); }
template <class A, class B> struct C5 { A m0; B m1; A m2; B m3; A m4; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C5<A, B>), (class A, class B), "n0", (&C5<A, B>::m0), "n7", (&C5<A, B>::m1), "n14", (&C5<A, B>::m2), "n21", (&C5<A, B>::m3), "n28", (&C5<A, B>::m4));
static_assert(DefaultArithmeticTraits<C5<int, double>>::size() == 5 && DefaultArithmeticTraits<C5<int, double>>::traitsType::size() == 5, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C5<int, double>>::traitsType, Traits<C5<int, double>, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*, double C5<int, double>::*, int C5<int, double>::*>>::value, "members");
EX void w_impl_5(C5<int, double>& o) { auto t = DefaultArithmeticTraits<C5<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); }
EX void w_spec_5(C5<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); }
template <class A, class B> struct C11 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C11<A, B>), (class A, class B), "n0", (&C11<A, B>::m0), "n7", (&C11<A, B>::m1), "n14", (&C11<A, B>::m2), "n21", (&C11<A, B>::m3), "n28", (&C11<A, B>::m4), "n35", (&C11<A, B>::m5), "n42", (&C11<A, B>::m6), "n49", (&C11<A, B>::m7), "n56", (&C11<A, B>::m8), "n63", (&C11<A, B>::m9), "n70", (&C11<A, B>::m10));
static_assert(DefaultArithmeticTraits<C11<int, double>>::size() == 11 && DefaultArithmeticTraits<C11<int, double>>::traitsType::size() == 11, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C11<int, double>>::traitsType, Traits<C11<int, double>, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*, double C11<int, double>::*, int C11<int, double>::*>>::value, "members");
EX void w_impl_11(C11<int, double>& o) { auto t = DefaultArithmeticTraits<C11<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); }
EX void w_spec_11(C11<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); }
template <class A, class B> struct C20 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; B m19; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C20<A, B>), (class A, class B), "n0", (&C20<A, B>::m0), "n7", (&C20<A, B>::m1), "n14", (&C20<A, B>::m2), "n21", (&C20<A, B>::m3), "n28", (&C20<A, B>::m4), "n35", (&C20<A, B>::m5), "n42", (&C20<A, B>::m6), "n49", (&C20<A, B>::m7), "n56", (&C20<A, B>::m8), "n63", (&C20<A, B>::m9), "n70", (&C20<A, B>::m10), "n77", (&C20<A, B>::m11), "n84", (&C20<A, B>::m12), "n91", (&C20<A, B>::m13), "n98", (&C20<A, B>::m14), "n105", (&C20<A, B>::m15), "n112", (&C20<A, B>::m16), "n119", (&C20<A, B>::m17), "n126", (&C20<A, B>::m18), "n133", (&C20<A, B>::m19));
static_assert(DefaultArithmeticTraits<C20<int, double>>::size() == 20 && DefaultArithmeticTraits<C20<int, double>>::traitsType::size() == 20, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C20<int, double>>::traitsType, Traits<C20<int, double>, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*, int C20<int, double>::*, double C20<int, double>::*>>::value, "members");
EX void w_impl_20(C20<int, double>& o) { auto t = DefaultArithmeticTraits<C20<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); visit(19, &t.getAttr<19>(o), t.getName<19>()); }
EX void w_spec_20(C20<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); visit(19, &o.m19, "n133"); }
//@ section custom_template_arithmetic_all argmem=@visit$ thorough
template <class A, class B> struct C4 { A m0; B m1; A m2; B m3; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C4<A, B>), (class A, class B), "n0", (&C4<A, B>::m0), "n7", (&C4<A, B>::m1), "n14", (&C4<A, B>::m2), "n21", (&C4<A, B>::m3));
static_assert(DefaultArithmeticTraits<C4<int, double>>::size() == 4 && DefaultArithmeticTraits<C4<int, double>>::traitsType::size() == 4, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C4<int, double>>::traitsType, Traits<C4<int, double>, int C4<int, double>::*, double C4<int, double>::*, int C4<int, double>::*, double C4<int, double>::*>>::value, "members");
EX void w_impl_4(C4<int, double>& o) { auto t = DefaultArithmeticTraits<C4<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); }
EX void w_spec_4(C4<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); }
template <class A, class B> struct C6 { A m0; B m1; A m2; B m3; A m4; B m5; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C6<A, B>), (class A, class B), "n0", (&C6<A, B>::m0), "n7", (&C6<A, B>::m1), "n14", (&C6<A, B>::m2), "n21", (&C6<A, B>::m3), "n28", (&C6<A, B>::m4), "n35", (&C6<A, B>::m5));
static_assert(DefaultArithmeticTraits<C6<int, double>>::size() == 6 && DefaultArithmeticTraits<C6<int, double>>::traitsType::size() == 6, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C6<int, double>>::traitsType, Traits<C6<int, double>, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*, int C6<int, double>::*, double C6<int, double>::*>>::value, "members");
EX void w_impl_6(C6<int, double>& o) { auto t = DefaultArithmeticTraits<C6<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); }
EX void w_spec_6(C6<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); }
template <class A, class B> struct C7 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C7<A, B>), (class A, class B), "n0", (&C7<A, B>::m0), "n7", (&C7<A, B>::m1), "n14", (&C7<A, B>::m2), "n21", (&C7<A, B>::m3), "n28", (&C7<A, B>::m4), "n35", (&C7<A, B>::m5), "n42", (&C7<A, B>::m6));
static_assert(DefaultArithmeticTraits<C7<int, double>>::size() == 7 && DefaultArithmeticTraits<C7<int, double>>::traitsType::size() == 7, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C7<int, double>>::traitsType, Traits<C7<int, double>, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*, double C7<int, double>::*, int C7<int, double>::*>>::value, "members");
EX void w_impl_7(C7<int, double>& o) { auto t = DefaultArithmeticTraits<C7<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); }
EX void w_spec_7(C7<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); }
template <class A, class B> struct C8 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C8<A, B>), (class A, class B), "n0", (&C8<A, B>::m0), "n7", (&C8<A, B>::m1), "n14", (&C8<A, B>::m2), "n21", (&C8<A, B>::m3), "n28", (&C8<A, B>::m4), "n35", (&C8<A, B>::m5), "n42", (&C8<A, B>::m6), "n49", (&C8<A, B>::m7));
static_assert(DefaultArithmeticTraits<C8<int, double>>::size() == 8 && DefaultArithmeticTraits<C8<int, double>>::traitsType::size() == 8, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C8<int, double>>::traitsType, Traits<C8<int, double>, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*, int C8<int, double>::*, double C8<int, double>::*>>::value, "members");
EX void w_impl_8(C8<int, double>& o) { auto t = DefaultArithmeticTraits<C8<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); }
EX void w_spec_8(C8<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); }
template <class A, class B> struct C9 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C9<A, B>), (class A, class B), "n0", (&C9<A, B>::m0), "n7", (&C9<A, B>::m1), "n14", (&C9<A, B>::m2), "n21", (&C9<A, B>::m3), "n28", (&C9<A, B>::m4), "n35", (&C9<A, B>::m5), "n42", (&C9<A, B>::m6), "n49", (&C9<A, B>::m7), "n56", (&C9<A, B>::m8));
static_assert(DefaultArithmeticTraits<C9<int, double>>::size() == 9 && DefaultArithmeticTraits<C9<int, double>>::traitsType::size() == 9, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C9<int, double>>::traitsType, Traits<C9<int, double>, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*, double C9<int, double>::*, int C9<int, double>::*>>::value, "members");
EX void w_impl_9(C9<int, double>& o) { auto t = DefaultArithmeticTraits<C9<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); }
EX void w_spec_9(C9<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); }
template <class A, class B> struct C10 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C10<A, B>), (class A, class B), "n0", (&C10<A, B>::m0), "n7", (&C10<A, B>::m1), "n14", (&C10<A, B>::m2), "n21", (&C10<A, B>::m3), "n28", (&C10<A, B>::m4), "n35", (&C10<A, B>::m5), "n42", (&C10<A, B>::m6), "n49", (&C10<A, B>::m7), "n56", (&C10<A, B>::m8), "n63", (&C10<A, B>::m9));
static_assert(DefaultArithmeticTraits<C10<int, double>>::size() == 10 && DefaultArithmeticTraits<C10<int, double>>::traitsType::size() == 10, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C10<int, double>>::traitsType, Traits<C10<int, double>, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*, int C10<int, double>::*, double C10<int, double>::*>>::value, "members");
EX void w_impl_10(C10<int, double>& o) { auto t = DefaultArithmeticTraits<C10<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); }
EX void w_spec_10(C10<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); }
template <class A, class B> struct C12 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C12<A, B>), (class A, class B), "n0", (&C12<A, B>::m0), "n7", (&C12<A, B>::m1), "n14", (&C12<A, B>::m2), "n21", (&C12<A, B>::m3), "n28", (&C12<A, B>::m4), "n35", (&C12<A, B>::m5), "n42", (&C12<A, B>::m6), "n49", (&C12<A, B>::m7), "n56", (&C12<A, B>::m8), "n63", (&C12<A, B>::m9), "n70", (&C12<A, B>::m10), "n77", (&C12<A, B>::m11));
static_assert(DefaultArithmeticTraits<C12<int, double>>::size() == 12 && DefaultArithmeticTraits<C12<int, double>>::traitsType::size() == 12, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C12<int, double>>::traitsType, Traits<C12<int, double>, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*, int C12<int, double>::*, double C12<int, double>::*>>::value, "members");
EX void w_impl_12(C12<int, double>& o) { auto t = DefaultArithmeticTraits<C12<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); }
EX void w_spec_12(C12<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); }
template <class A, class B> struct C13 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C13<A, B>), (class A, class B), "n0", (&C13<A, B>::m0), "n7", (&C13<A, B>::m1), "n14", (&C13<A, B>::m2), "n21", (&C13<A, B>::m3), "n28", (&C13<A, B>::m4), "n35", (&C13<A, B>::m5), "n42", (&C13<A, B>::m6), "n49", (&C13<A, B>::m7), "n56", (&C13<A, B>::m8), "n63", (&C13<A, B>::m9), "n70", (&C13<A, B>::m10), "n77", (&C13<A, B>::m11), "n84", (&C13<A, B>::m12));
static_assert(DefaultArithmeticTraits<C13<int, double>>::size() == 13 && DefaultArithmeticTraits<C13<int, double>>::traitsType::size() == 13, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C13<int, double>>::traitsType, Traits<C13<int, double>, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*, double C13<int, double>::*, int C13<int, double>::*>>::value, "members");
EX void w_impl_13(C13<int, double>& o) { auto t = DefaultArithmeticTraits<C13<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); }
EX void w_spec_13(C13<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); }
template <class A, class B> struct C14 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C14<A, B>), (class A, class B), "n0", (&C14<A, B>::m0), "n7", (&C14<A, B>::m1), "n14", (&C14<A, B>::m2), "n21", (&C14<A, B>::m3), "n28", (&C14<A, B>::m4), "n35", (&C14<A, B>::m5), "n42", (&C14<A, B>::m6), "n49", (&C14<A, B>::m7), "n56", (&C14<A, B>::m8), "n63", (&C14<A, B>::m9), "n70", (&C14<A, B>::m10), "n77", (&C14<A, B>::m11), "n84", (&C14<A, B>::m12), "n91", (&C14<A, B>::m13));
static_assert(DefaultArithmeticTraits<C14<int, double>>::size() == 14 && DefaultArithmeticTraits<C14<int, double>>::traitsType::size() == 14, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C14<int, double>>::traitsType, Traits<C14<int, double>, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*, int C14<int, double>::*, double C14<int, double>::*>>::value, "members");
EX void w_impl_14(C14<int, double>& o) { auto t = DefaultArithmeticTraits<C14<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); }
EX void w_spec_14(C14<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); }
template <class A, class B> struct C15 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C15<A, B>), (class A, class B), "n0", (&C15<A, B>::m0), "n7", (&C15<A, B>::m1), "n14", (&C15<A, B>::m2), "n21", (&C15<A, B>::m3), "n28", (&C15<A, B>::m4), "n35", (&C15<A, B>::m5), "n42", (&C15<A, B>::m6), "n49", (&C15<A, B>::m7), "n56", (&C15<A, B>::m8), "n63", (&C15<A, B>::m9), "n70", (&C15<A, B>::m10), "n77", (&C15<A, B>::m11), "n84", (&C15<A, B>::m12), "n91", (&C15<A, B>::m13), "n98", (&C15<A, B>::m14));
static_assert(DefaultArithmeticTraits<C15<int, double>>::size() == 15 && DefaultArithmeticTraits<C15<int, double>>::traitsType::size() == 15, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C15<int, double>>::traitsType, Traits<C15<int, double>, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*, double C15<int, double>::*, int C15<int, double>::*>>::value, "members");
EX void w_impl_15(C15<int, double>& o) { auto t = DefaultArithmeticTraits<C15<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); }
EX void w_spec_15(C15<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); }
template <class A, class B> struct C16 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C16<A, B>), (class A, class B), "n0", (&C16<A, B>::m0), "n7", (&C16<A, B>::m1), "n14", (&C16<A, B>::m2), "n21", (&C16<A, B>::m3), "n28", (&C16<A, B>::m4), "n35", (&C16<A, B>::m5), "n42", (&C16<A, B>::m6), "n49", (&C16<A, B>::m7), "n56", (&C16<A, B>::m8), "n63", (&C16<A, B>::m9), "n70", (&C16<A, B>::m10), "n77", (&C16<A, B>::m11), "n84", (&C16<A, B>::m12), "n91", (&C16<A, B>::m13), "n98", (&C16<A, B>::m14), "n105", (&C16<A, B>::m15));
static_assert(DefaultArithmeticTraits<C16<int, double>>::size() == 16 && DefaultArithmeticTraits<C16<int, double>>::traitsType::size() == 16, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C16<int, double>>::traitsType, Traits<C16<int, double>, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*, int C16<int, double>::*, double C16<int, double>::*>>::value, "members");
EX void w_impl_16(C16<int, double>& o) { auto t = DefaultArithmeticTraits<C16<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); }
EX void w_spec_16(C16<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); }
template <class A, class B> struct C17 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C17<A, B>), (class A, class B), "n0", (&C17<A, B>::m0), "n7", (&C17<A, B>::m1), "n14", (&C17<A, B>::m2), "n21", (&C17<A, B>::m3), "n28", (&C17<A, B>::m4), "n35", (&C17<A, B>::m5), "n42", (&C17<A, B>::m6), "n49", (&C17<A, B>::m7), "n56", (&C17<A, B>::m8), "n63", (&C17<A, B>::m9), "n70", (&C17<A, B>::m10), "n77", (&C17<A, B>::m11), "n84", (&C17<A, B>::m12), "n91", (&C17<A, B>::m13), "n98", (&C17<A, B>::m14), "n105", (&C17<A, B>::m15), "n112", (&C17<A, B>::m16));
static_assert(DefaultArithmeticTraits<C17<int, double>>::size() == 17 && DefaultArithmeticTraits<C17<int, double>>::traitsType::size() == 17, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C17<int, double>>::traitsType, Traits<C17<int, double>, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*, double C17<int, double>::*, int C17<int, double>::*>>::value, "members");
EX void w_impl_17(C17<int, double>& o) { auto t = DefaultArithmeticTraits<C17<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); }
EX void w_spec_17(C17<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); }
template <class A, class B> struct C18 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C18<A, B>), (class A, class B), "n0", (&C18<A, B>::m0), "n7", (&C18<A, B>::m1), "n14", (&C18<A, B>::m2), "n21", (&C18<A, B>::m3), "n28", (&C18<A, B>::m4), "n35", (&C18<A, B>::m5), "n42", (&C18<A, B>::m6), "n49", (&C18<A, B>::m7), "n56", (&C18<A, B>::m8), "n63", (&C18<A, B>::m9), "n70", (&C18<A, B>::m10), "n77", (&C18<A, B>::m11), "n84", (&C18<A, B>::m12), "n91", (&C18<A, B>::m13), "n98", (&C18<A, B>::m14), "n105", (&C18<A, B>::m15), "n112", (&C18<A, B>::m16), "n119", (&C18<A, B>::m17));
static_assert(DefaultArithmeticTraits<C18<int, double>>::size() == 18 && DefaultArithmeticTraits<C18<int, double>>::traitsType::size() == 18, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C18<int, double>>::traitsType, Traits<C18<int, double>, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*, int C18<int, double>::*, double C18<int, double>::*>>::value, "members");
EX void w_impl_18(C18<int, double>& o) { auto t = DefaultArithmeticTraits<C18<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); }
EX void w_spec_18(C18<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); }
template <class A, class B> struct C19 { A m0; B m1; A m2; B m3; A m4; B m5; A m6; B m7; A m8; B m9; A m10; B m11; A m12; B m13; A m14; B m15; A m16; B m17; A m18; };
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((C19<A, B>), (class A, class B), "n0", (&C19<A, B>::m0), "n7", (&C19<A, B>::m1), "n14", (&C19<A, B>::m2), "n21", (&C19<A, B>::m3), "n28", (&C19<A, B>::m4), "n35", (&C19<A, B>::m5), "n42", (&C19<A, B>::m6), "n49", (&C19<A, B>::m7), "n56", (&C19<A, B>::m8), "n63", (&C19<A, B>::m9), "n70", (&C19<A, B>::m10), "n77", (&C19<A, B>::m11), "n84", (&C19<A, B>::m12), "n91", (&C19<A, B>::m13), "n98", (&C19<A, B>::m14), "n105", (&C19<A, B>::m15), "n112", (&C19<A, B>::m16), "n119", (&C19<A, B>::m17), "n126", (&C19<A, B>::m18));
static_assert(DefaultArithmeticTraits<C19<int, double>>::size() == 19 && DefaultArithmeticTraits<C19<int, double>>::traitsType::size() == 19, "number of members");
static_assert(std::is_same<DefaultArithmeticTraits<C19<int, double>>::traitsType, Traits<C19<int, double>, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*, double C19<int, double>::*, int C19<int, double>::*>>::value, "members");
EX void w_impl_19(C19<int, double>& o) { auto t = DefaultArithmeticTraits<C19<int, double>>::getTraits(); visit(0, &t.getAttr<0>(o), t.getName<0>()); visit(1, &t.getAttr<1>(o), t.getName<1>()); visit(2, &t.getAttr<2>(o), t.getName<2>()); visit(3, &t.getAttr<3>(o), t.getName<3>()); visit(4, &t.getAttr<4>(o), t.getName<4>()); visit(5, &t.getAttr<5>(o), t.getName<5>()); visit(6, &t.getAttr<6>(o), t.getName<6>()); visit(7, &t.getAttr<7>(o), t.getName<7>()); visit(8, &t.getAttr<8>(o), t.getName<8>()); visit(9, &t.getAttr<9>(o), t.getName<9>()); visit(10, &t.getAttr<10>(o), t.getName<10>()); visit(11, &t.getAttr<11>(o), t.getName<11>()); visit(12, &t.getAttr<12>(o), t.getName<12>()); visit(13, &t.getAttr<13>(o), t.getName<13>()); visit(14, &t.getAttr<14>(o), t.getName<14>()); visit(15, &t.getAttr<15>(o), t.getName<15>()); visit(16, &t.getAttr<16>(o), t.getName<16>()); visit(17, &t.getAttr<17>(o), t.getName<17>()); visit(18, &t.getAttr<18>(o), t.getName<18>()); }
EX void w_spec_19(C19<int, double>& o) { visit(0, &o.m0, "n0"); visit(1, &o.m1, "n7"); visit(2, &o.m2, "n14"); visit(3, &o.m3, "n21"); visit(4, &o.m4, "n28"); visit(5, &o.m5, "n35"); visit(6, &o.m6, "n42"); visit(7, &o.m7, "n49"); visit(8, &o.m8, "n56"); visit(9, &o.m9, "n63"); visit(10, &o.m10, "n70"); visit(11, &o.m11, "n77"); visit(12, &o.m12, "n84"); visit(13, &o.m13, "n91"); visit(14, &o.m14, "n98"); visit(15, &o.m15, "n105"); visit(16, &o.m16, "n112"); visit(17, &o.m17, "n119"); visit(18, &o.m18, "n126"); }
