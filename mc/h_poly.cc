// Configurations of polymorphic.
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#include "adapt_poly.hpp"
#include "h_new.hpp"

#ifndef MC_GROUP
#define MC_GROUP 0
#endif
#ifdef MC_CXX20
#define DIALECT "20/"
#else
#define DIALECT "14/"
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define COMMA ,
#define POL_(B, A, NAME, NAL, CONS, MORE, ...)                               \
  static Reg CAT(reg_, __COUNTER__)((new PolyAd<B, A, __VA_ARGS__>(          \
      "polymorphic" DIALECT NAME, "polymorphic/" NAME, NAL, CONS)) MORE);
// dynamic types: the base itself, a larger one, a copy-only one with the base
// at an offset
#define POL(F, NAL, MORE)                                                    \
  POL_(PB, Al<PB COMMA(F)>, "PB/" #F, NAL, ((F) & A_CONS) != 0, MORE, PB, PD1, PD2)
#define POLV(F, NAL, MORE)                                                   \
  POL_(PB, Al<PB COMMA(F)>, "PBv/" #F, NAL, ((F) & A_CONS) != 0, MORE, PD3, PD4, PD5)
#define POLQ(F, NAL, MORE)                                                   \
  POL_(QB, Al<QB COMMA(F)>, "QB/" #F, NAL, ((F) & A_CONS) != 0, MORE, QD1, QD2)
#define POLI(F, NAL, MORE)                                                   \
  POL_(IB, Al<IB COMMA(F)>, "IB/" #F, NAL, ((F) & A_CONS) != 0, MORE, ID1, ID2)
#define POLN(F, NAL, MORE)                                                   \
  POL_(NB, Al<NB COMMA(F)>, "NB/" #F, NAL, ((F) & A_CONS) != 0, MORE, NB, ND1, ND2)
#define POLM(F, NAL, MORE)                                                   \
  POL_(NB, Al<NB COMMA(F)>, "NBm/" #F, NAL, ((F) & A_CONS) != 0, MORE, NB, ND3)
#define POLW(F, NAL, MORE)                                                   \
  POL_(PB, Al<PB COMMA(F)>, "PBw/" #F, NAL, ((F) & A_CONS) != 0, MORE, PB, PD6)
#define POLE(F, NAL, MORE)                                                   \
  POL_(EB, Al<EB COMMA(F)>, "EB/" #F, NAL, ((F) & A_CONS) != 0, MORE, EB, ED1, ED2)
#define POLS(F, NAL, MORE)                                                   \
  POL_(SB, Al<SB COMMA(F)>, "SB/" #F, NAL, ((F) & A_CONS) != 0, MORE, SB, SD1, SD2)

#if MC_GROUP == 0 || MC_GROUP == 1
POL(0, 3, )
POL(A_CCA, 3, )
POL(A_CMA, 3, )
POL(A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 2
POL(A_CCA | A_CMA, 3, )
POL(A_CCA | A_CS, 3, )
POL(A_CMA | A_CS, 3, )
POL(A_CCA | A_CMA | A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 3
POL(A_AE, 2, )
POL(A_AE | A_CCA, 2, )
POL(A_AE | A_CMA, 2, )
POL(A_AE | A_CS, 2, )
POL(A_AE | A_CCA | A_CMA, 2, )
POL(A_AE | A_CCA | A_CS, 2, )
POL(A_AE | A_CMA | A_CS, 2, )
POL(A_AE | A_CCA | A_CMA | A_CS, 2, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 4
POL(A_SOC3, 3, ->soc(3))
POLQ(A_SOCEQ | A_CCA, 3, ->soc(1))
POLQ(A_SOC3 | A_AE | A_CMA, 2, ->soc(3))
POLQ(A_CONS, 3, )
POLV(A_CONS | A_CCA | A_CMA | A_CS, 3, )
POLN(A_CONS | A_CMA | A_SOC3, 3, ->soc(3))
#endif
#if MC_GROUP == 0 || MC_GROUP == 5
POLQ(A_NODEF | A_CCA, 3, )
POLN(A_NODEF | A_CONS | A_CMA, 3, )
POLQ(A_EMPTY | A_AE, 1, )
POLQ(A_EMPTY | A_AE | A_FINAL | A_CMA, 1, )
POLN(A_EMPTY | A_AE | A_CONS | A_CCA | A_CS, 1, )
POLQ(A_FINAL, 3, )
POLQ(A_FINAL | A_CCA | A_CMA | A_CS, 3, )
POLQ(A_NOASSIGN, 3, )
POLQ(A_NOASSIGN | A_AE, 2, )
POLQ(A_ADLSWAP | A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 6
POLV(0, 3, )
POLV(A_CMA | A_CS, 3, )
POLN(0, 3, )
POLN(A_CCA | A_CMA | A_CS, 3, )
POLQ(0, 3, )
POLS(0, 3, )
POLS(A_CCA | A_CMA | A_CS, 3, )
POLS(A_CONS | A_CMA, 3, )
POLS(A_AE | A_CCA, 2, )
POLQ(A_CCA | A_CMA | A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 8
POLM(0, 3, )
POLI(0, 3, )
POLI(A_CCA | A_CMA | A_CS | A_CONS, 3, )
POLI(A_AE | A_NODEF, 2, )
POLM(A_CCA | A_CMA | A_CS, 3, )
POLM(A_AE | A_CONS, 2, )
POLW(0, 3, )
POLW(A_CCA | A_CMA | A_CS | A_CONS, 3, )
POLE(0, 3, )
POLE(A_CCA | A_CMA | A_CS, 3, )
POLE(A_CONS | A_CCA, 3, )
POLE(A_EMPTY | A_AE, 1, )
POLE(A_EMPTY | A_FINAL | A_AE | A_CMA, 1, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 7
POL_(PB, std::allocator<PB>, "PB/std", 1, false, , PB, PD1, PD2)
POL_(QB, std::allocator<QB>, "QB/std", 1, false, , QD1, QD2)
POL_(IB, std::allocator<IB>, "IB/std", 1, false, , ID1, ID2)
POL_(SB, std::allocator<SB>, "SB/std", 1, false, , SB, SD1, SD2)
POL_(EB, std::allocator<EB>, "EB/std", 1, false, , EB, ED1, ED2)
POL_(NB, std::allocator<NB>, "NBm/std", 1, false, , NB, ND3)
#if __cplusplus >= 201703L
POL_(PB, std::allocator<PB>, "PBv/std", 1, false, , PD3, PD4, PD5)
POL_(PB, std::pmr::polymorphic_allocator<PB>, "PB/pmr", 3, false, ->soc(3)->def(3), PB,
     PD1, PD2)
POL_(PB, std::pmr::polymorphic_allocator<PB>, "PBv/pmr", 3, false, ->soc(3)->def(3), PD3,
     PD4, PD5)
#endif
#endif
