// Configurations of indirect.  MC_CXX20: the C++20 header; otherwise the C++14
// one.  MC_GROUP selects a part (0: everything).
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#include "adapt_indirect.hpp"
#include "h_new.hpp"

#ifndef MC_GROUP
#define MC_GROUP 0
#endif
#ifdef MC_CXX20
#define DIALECT "20/"
#else
#define DIALECT "14/"
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define IND_(T, A, NAME, NAL, CONS, MORE) \
  static Reg CAT(reg_, __COUNTER__)(      \
      (new IndirectAd<T, A>("indirect" DIALECT NAME, "indirect/" NAME, NAL, CONS)) MORE);
#define COMMA ,
#define IND(T, F, NAL, MORE)                                                       \
  IND_(T, Al<T COMMA(F)>, #T "/" #F, NAL, ((F) & A_CONS) != 0, MORE)

#if MC_GROUP == 0 || MC_GROUP == 1
IND(TFull, 0, 3, )
IND(TFull, A_CCA, 3, )
IND(TFull, A_CMA, 3, )
IND(TFull, A_CS, 3, )
IND(TFull, A_CCA | A_CMA, 3, )
IND(TFull, A_CCA | A_CS, 3, )
IND(TFull, A_CMA | A_CS, 3, )
IND(TFull, A_CCA | A_CMA | A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 2
IND(TFull, A_AE, 2, )
IND(TFull, A_AE | A_CCA, 2, )
IND(TFull, A_AE | A_CMA, 2, )
IND(TFull, A_AE | A_CS, 2, )
IND(TFull, A_AE | A_CCA | A_CMA, 2, )
IND(TFull, A_AE | A_CCA | A_CS, 2, )
IND(TFull, A_AE | A_CMA | A_CS, 2, )
IND(TFull, A_AE | A_CCA | A_CMA | A_CS, 2, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 3
IND(TFull, A_SOC3, 3, ->soc(3))
IND(TFull, A_SOCEQ | A_CCA, 3, ->soc(1))
IND(TFull, A_SOC3 | A_AE | A_CMA, 2, ->soc(3))
IND(TFull, A_CONS, 3, )
IND(TFull, A_CONS | A_CCA | A_CMA | A_CS, 3, )
IND(TFull, A_CONS | A_CMA | A_SOC3, 3, ->soc(3))
IND(TFull, A_NODEF | A_CCA, 3, )
IND(TFull, A_NODEF | A_CONS | A_CMA, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 4
IND(TFull, A_EMPTY | A_AE, 1, )
IND(TFull, A_EMPTY | A_AE | A_FINAL | A_CMA, 1, )
IND(TFull, A_EMPTY | A_AE | A_CONS | A_CCA | A_CS, 1, )
IND(TFull, A_FINAL, 3, )
IND(TFull, A_FINAL | A_CCA | A_CMA | A_CS, 3, )
IND(TFull, A_NOASSIGN, 3, )
IND(TFull, A_NOASSIGN | A_AE, 2, )
IND(TFull, A_ADLSWAP | A_CS, 3, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 5
IND(TNoexcept, 0, 3, )
IND(TNoexcept, A_CCA | A_CMA | A_CS, 3, )
IND(TNoexcept, A_AE, 2, )
IND(TNothrow, 0, 3, )
IND(TNothrow, A_CCA | A_CMA | A_CS, 3, )
IND(TNothrow, A_AE | A_CS, 2, )
IND(TCopyOnly, 0, 3, )
IND(TCopyOnly, A_CCA | A_CMA | A_CS, 3, )
IND(TMoveOnly, 0, 3, )
IND(TMoveOnly, A_CMA | A_CONS, 3, )
IND(TMoveOnly, A_CS | A_AE, 2, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 6
IND(TBig, 0, 3, )
IND(TBig, A_CCA | A_CMA | A_CS, 3, )
IND(TBig, A_CONS | A_SOC3, 3, ->soc(3))
IND(int, 0, 3, )
IND(int, A_CCA | A_CMA | A_CS | A_CONS, 3, )
IND(int, A_EMPTY | A_AE, 1, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 8
IND(TEmpty, 0, 3, )
IND(TEmpty, A_CCA | A_CMA | A_CS, 3, )
IND(TEmpty, A_CONS | A_CMA, 3, )
IND(TEmpty, A_EMPTY | A_AE, 1, )
IND(TPlain, 0, 3, )
IND(TPlain, A_CMA | A_CS | A_CONS, 3, )
IND(TPlain, A_AE, 2, )
#endif
#if MC_GROUP == 0 || MC_GROUP == 7
IND_(TFull, std::allocator<TFull>, "TFull/std", 1, false, )
IND_(TMoveOnly, std::allocator<TMoveOnly>, "TMoveOnly/std", 1, false, )
IND_(int, std::allocator<int>, "int/std", 1, false, )
IND_(TPlain, std::allocator<TPlain>, "TPlain/std", 1, false, )
IND_(TEmpty, std::allocator<TEmpty>, "TEmpty/std", 1, false, )
IND_(TNothrow, std::allocator<TNothrow>, "TNothrow/std", 1, false, )
#if __cplusplus >= 201703L
IND_(TBig, std::allocator<TBig>, "TBig/std", 1, false, )
IND_(TFull, std::pmr::polymorphic_allocator<TFull>, "TFull/pmr", 3, false,
     ->soc(3)->def(3))
IND_(TBig, std::pmr::polymorphic_allocator<TBig>, "TBig/pmr", 3, false,
     ->soc(3)->def(3))
#endif
#ifdef MC_CXX20
IND(TFull, A_FANCY | A_CMA, 3, )
IND(TFull, A_FANCY | A_CONS | A_CCA | A_CS, 3, )
#endif
#endif
