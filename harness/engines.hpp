// Engine instantiations under test, in groups (VERIF_GROUP selects one per TU).
#ifndef VERIF_ENGINES_HPP
#define VERIF_ENGINES_HPP
#include "ref.hpp"
namespace br = boost::random;
// predefined
typedef br::minstd_rand0 E_minstd_rand0; typedef br::minstd_rand E_minstd_rand; typedef br::rand48 E_rand48;
typedef br::ecuyer1988 E_ecuyer1988; typedef br::knuth_b E_knuth_b; typedef br::kreutzer1986 E_kreutzer1986;
typedef br::taus88 E_taus88; typedef br::hellekalek1995 E_hellekalek1995; typedef br::mt11213b E_mt11213b;
typedef br::mt19937 E_mt19937; typedef br::mt19937_64 E_mt19937_64;
typedef br::lagged_fibonacci607 E_lf607; typedef br::lagged_fibonacci1279 E_lf1279; typedef br::lagged_fibonacci2281 E_lf2281;
typedef br::lagged_fibonacci3217 E_lf3217; typedef br::lagged_fibonacci4423 E_lf4423; typedef br::lagged_fibonacci9689 E_lf9689;
typedef br::lagged_fibonacci19937 E_lf19937; typedef br::lagged_fibonacci23209 E_lf23209; typedef br::lagged_fibonacci44497 E_lf44497;
typedef br::ranlux3 E_ranlux3; typedef br::ranlux4 E_ranlux4; typedef br::ranlux64_3 E_ranlux64_3; typedef br::ranlux64_4 E_ranlux64_4;
typedef br::ranlux3_01 E_ranlux3_01; typedef br::ranlux4_01 E_ranlux4_01; typedef br::ranlux64_3_01 E_ranlux64_3_01; typedef br::ranlux64_4_01 E_ranlux64_4_01;
typedef br::ranlux24_base E_ranlux24_base; typedef br::ranlux48_base E_ranlux48_base; typedef br::ranlux24 E_ranlux24; typedef br::ranlux48 E_ranlux48;
typedef br::mixmax E_mixmax; typedef br::splitmix64 E_splitmix64;
// recurrences with other parameters
#define LCG(n,T,a,c,m) typedef br::linear_congruential_engine<T,a,c,m> E_##n;
LCG(lcg8p2,uint8_t,141,3,0) LCG(lcg8,uint8_t,33,0,251) LCG(lcg8c,uint8_t,16,43,255)
LCG(lcg16p2,uint16_t,25173,13849,0) LCG(lcg16,uint16_t,17364,0,65521)
LCG(lcg32p2,uint32_t,1664525u,1013904223u,0) LCG(lcg32p2m,uint32_t,69069u,0,0) LCG(lcg32hi,uint32_t,1588635695u,0,4294967291u) LCG(lcg32hic,uint32_t,4294967290u,4294967289u,4294967291u)
LCG(lcg32top,uint32_t,1223106847u,5u,4294967295u) LCG(lcg32half,uint32_t,742938285u,0,2147483648u) LCG(lcg32c,uint32_t,1366,150889,714025) LCG(lcg32c2,uint32_t,2416,374441,1771875)
LCG(lcgi32,int32_t,16807,0,2147483647) LCG(lcgi32s,int32_t,742938285,0,2147483647) LCG(lcgi32c,int32_t,8121,28411,134456) LCG(lcgi32d,int32_t,950706376,1234567,2147483647)
LCG(lcg64p2,uint64_t,6364136223846793005ull,1442695040888963407ull,0) LCG(lcg64p2m,uint64_t,2862933555777941757ull,0,0)
LCG(lcg64hi,uint64_t,13891176665706064842ull,0,18446744073709551557ull) LCG(lcg64hic,uint64_t,18446744073709551556ull,18446744073709551555ull,18446744073709551557ull)
LCG(lcg64top,uint64_t,9234567890123456789ull,3ull,18446744073709551615ull) LCG(lcg64half,uint64_t,3935559000370003845ull,2691343689449507681ull,9223372036854775808ull)
LCG(lcg64m63,uint64_t,7567382564398743215ull,0,9223372036854775783ull) LCG(lcg64m48,uint64_t,44485709377909ull,0,281474976710656ull) LCG(lcg64m32,uint64_t,1099087573ull,0,4294967296ull)
LCG(lcgi64,int64_t,4645906587823291368ll,0,9223372036854775783ll) LCG(lcgi64s,int64_t,48271,0,2147483647) LCG(lcgi64c,int64_t,25214903917ll,11,281474976710656ll)
#define ICG(n,T,a,b,p) typedef br::inversive_congruential_engine<T,a,b,p> E_##n;
ICG(icg32,uint32_t,9102,2147483647u-36884165u,2147483647u) ICG(icg32hi,uint32_t,4294967290u,4294967289u,4294967291u) ICG(icg32s,uint32_t,3,5,101) ICG(icgi32,int32_t,9102,36884165,2147483647)
ICG(icg64,uint64_t,1288490188ull,1ull,2305843009213693951ull) ICG(icgi64,int64_t,1288490188ll,1ll,9223372036854775783ll) ICG(icg64hi,uint64_t,18446744073709551556ull,18446744073709551555ull,18446744073709551557ull)
typedef br::inversive_congruential_engine<uint16_t,1024,9,65521> E_icg16;
#define SWC(n,T,w,s,r) typedef br::subtract_with_carry_engine<T,w,s,r> E_##n;
SWC(swc31,uint32_t,31,3,7) SWC(swc64,uint64_t,63,3,9) SWC(swc8,uint32_t,8,1,2) SWC(swc24w,uint64_t,24,10,24) SWC(swc33,uint64_t,33,7,8) SWC(swc16,uint32_t,16,19,20) SWC(swci,int32_t,24,10,24)
#define SWC01(n,T,w,s,r) typedef br::subtract_with_carry_01_engine<T,w,s,r> E_##n;
SWC01(swc01a,double,32,2,5) SWC01(swc01b,float,16,1,3) SWC01(swc01c,double,52,5,12) SWC01(swc01d,double,24,10,24) SWC01(swc01e,long double,60,3,7)
#define LFI(n,T,w,p,q) typedef br::lagged_fibonacci_engine<T,w,p,q> E_##n;
LFI(lfi32,uint32_t,32,607,273) LFI(lfi31,uint32_t,31,17,5) LFI(lfi64,uint64_t,64,55,24) LFI(lfi20,uint32_t,20,3,2) LFI(lfi33,uint64_t,33,5,1) LFI(lfi16,uint16_t,16,17,5)
#define LF01(n,T,w,p,q) typedef br::lagged_fibonacci_01_engine<T,w,p,q> E_##n;
LF01(lf01a,double,48,17,5) LF01(lf01b,float,23,17,5) LF01(lf01c,double,32,3,1) LF01(lf01d,double,52,5,2) LF01(lf01e,long double,63,7,3)
#define LFSR(n,T,w,k,q,s) typedef br::linear_feedback_shift_engine<T,w,k,q,s> E_##n;
LFSR(lfsr32a,uint32_t,32,31,13,12) LFSR(lfsr32b,uint32_t,32,28,3,17) LFSR(lfsr64,uint64_t,64,63,1,10) LFSR(lfsr64b,uint64_t,64,25,7,12) LFSR(lfsr64w32,uint64_t,32,29,2,4) LFSR(lfsr31,uint32_t,31,29,2,4) LFSR(lfsr40,uint64_t,40,37,5,9) LFSR(lfsr17,uint32_t,17,15,1,8)
#define MT(n_,T,w,n,m,r,a,u,d,s,b,t,c,l,f) typedef br::mersenne_twister_engine<T,w,n,m,r,a,u,d,s,b,t,c,l,f> E_##n_;
MT(mts,uint32_t,32,5,2,31,0x9908b0dfu,11,0xffffffffu,7,0x9d2c5680u,15,0xefc60000u,18,1812433253u)
MT(mts1,uint32_t,32,3,1,7,0xb0dfu|0x80000000u,11,0xfffffffu,7,0x9d2c5680u,15,0xefc60000u,18,1812433253u)
MT(mtsn,uint32_t,32,7,6,19,0xccab8ee7u,11,0xffffffffu,7,0x31b6ab00u,15,0xffe50000u,17,1812433253u)
MT(mtw64,uint64_t,32,624,397,31,0x9908b0dfu,11,0xffffffffu,7,0x9d2c5680u,15,0xefc60000u,18,1812433253u)
MT(mt31,uint32_t,31,25,11,10,0x7908b0dfu,9,0x7fffffffu,5,0x1d2c5680u,13,0x6fc60000u,16,1664525u)
MT(mts64,uint64_t,64,11,5,33,0xb5026f5aa96619e9ull,29,0x5555555555555555ull,17,0x71d67fffeda60000ull,37,0xfff7eee000000000ull,43,6364136223846793005ull)
MT(mt40,uint64_t,40,9,4,21,0xb5026f5aa9ull,17,0x5555555555ull,11,0x71d67fff00ull,23,0xfff7e00000ull,27,636413622384679ull)
// adaptors
#define SHUF(n,B,k) typedef br::shuffle_order_engine<E_##B,k> E_##n;
SHUF(sh1,minstd_rand,1) SHUF(sh2,minstd_rand,2) SHUF(sh7,mt19937,7) SHUF(sh16,mt19937_64,16) SHUF(sh3,mt19937_64,3) SHUF(sh1000,lcg64hi,1000) SHUF(sh8,lcg8,5) SHUF(shi,lcgi32,13) SHUF(sh64,lcg32p2,64) SHUF(shk,kreutzer1986,97)
#define DISC(n,B,p,r) typedef br::discard_block_engine<E_##B,p,r> E_##n;
DISC(db11,minstd_rand,1,1) DISC(db55,minstd_rand,5,5) DISC(db71,minstd_rand,7,1) DISC(db136,mt19937,13,6) DISC(dblf,lf01a,11,4) DISC(dbsh,sh7,9,8) DISC(db97,ranlux24_base,97,24) DISC(dbswc,swc01a,10,3) DISC(dbdb,db71,3,2)
SHUF(shdb,db71,10)
#define IND(n,B,w,U) typedef br::independent_bits_engine<E_##B,w,U> E_##n;
IND(ib1,minstd_rand,1,uint32_t) IND(ib15,minstd_rand,15,uint32_t) IND(ib30,minstd_rand,30,uint32_t) IND(ib31,minstd_rand,31,uint32_t) IND(ib32,minstd_rand,32,uint32_t) IND(ib64,minstd_rand,64,uint64_t) IND(ib63,mt19937,63,uint64_t)
IND(ib33,mt19937,33,uint64_t) IND(ibm32,mt19937,32,uint32_t) IND(ibm64,mt19937,64,uint64_t) IND(ibm17,mt19937,17,uint64_t) IND(ib64to32,mt19937_64,32,uint32_t) IND(ib64to64,mt19937_64,64,uint64_t) IND(ib64to5,mt19937_64,5,uint64_t)
IND(ibk17,kreutzer1986,17,uint32_t) IND(ibk32,kreutzer1986,32,uint32_t) IND(ibk64,kreutzer1986,64,uint64_t) IND(ib8_16,lcg8,16,uint32_t) IND(ib8_7,lcg8,7,uint32_t) IND(ib8_64,lcg8p2,64,uint64_t) IND(ibhi,lcg64hi,64,uint64_t) IND(ibhi2,lcg32hi,31,uint32_t) IND(ibr48,rand48,31,uint32_t) IND(ibdb,db136,24,uint32_t)
typedef br::linear_congruential_engine<uint32_t,3,0,7> E_lcg7; typedef br::linear_congruential_engine<uint32_t,4,1,9> E_lcg9; typedef br::linear_congruential_engine<uint32_t,1,1,1000003> E_lcgcnt;
typedef br::linear_congruential_engine<uint32_t,1,1,3> E_lcg3; IND(ibt3,lcg3,32,uint32_t) IND(ibt3b,lcg3,3,uint32_t)
IND(ibt7,lcg7,11,uint32_t) IND(ibt9,lcg9,32,uint32_t) IND(ibt9b,lcg9,3,uint32_t)
SHUF(shib,ib31,50) DISC(dbib,ib64,7,5)
#define XORC(n,A,s1,B,s2) typedef br::xor_combine_engine<E_##A,s1,E_##B,s2> E_##n;
XORC(xo1,lfsr32a,0,lfsr32b,0) XORC(xo2,minstd_rand,0,minstd_rand0,0) XORC(xo3,lcg32p2,3,lcg32c,1) XORC(xo4,mt19937,0,minstd_rand,1) XORC(xo5,mt19937_64,0,lcg64p2,7) XORC(xo6,rand48,1,rand48,0)
typedef br::additive_combine_engine<E_minstd_rand0,E_minstd_rand> E_ac1;
typedef br::additive_combine_engine<E_lcg64hi,E_lcg64m63> E_ac2;
typedef br::additive_combine_engine<E_lcgi32,E_lcgi32s> E_ac3;
typedef br::additive_combine_engine<E_lcg32hi,E_lcg32c> E_ac4;
// small enough to go through every state
typedef br::linear_congruential_engine<uint32_t,5,0,97> E_lcg97; typedef br::linear_congruential_engine<uint32_t,7,0,71> E_lcg71; typedef br::linear_congruential_engine<int32_t,2,0,101> E_lcg101; typedef br::linear_congruential_engine<int32_t,3,0,101> E_lcg101b;
typedef br::additive_combine_engine<E_lcg97,E_lcg71> E_ac5;
typedef br::additive_combine_engine<E_lcg101,E_lcg101b> E_ac6;

#define GRP_PRE0(X) X(minstd_rand0) X(minstd_rand) X(rand48) X(ecuyer1988) X(knuth_b) X(kreutzer1986) X(taus88) X(hellekalek1995)
#define GRP_PRE1(X) X(mt11213b) X(mt19937) X(mt19937_64) X(mixmax) X(splitmix64)
#define GRP_PRE2(X) X(lf607) X(lf1279) X(lf2281) X(lf3217) X(lf4423)
#define GRP_PRE3(X) X(lf9689) X(lf19937) X(lf23209) X(lf44497)
#define GRP_PRE4(X) X(ranlux3) X(ranlux4) X(ranlux64_3) X(ranlux64_4) X(ranlux24_base) X(ranlux48_base) X(ranlux24) X(ranlux48)
#define GRP_PRE5(X) X(ranlux3_01) X(ranlux4_01) X(ranlux64_3_01) X(ranlux64_4_01)
#define GRP_REC0(X) X(lcg16p2) X(lcg16) X(lcg8p2) X(lcg8) X(lcg8c) X(lcg32p2) X(lcg32p2m) X(lcg32hi) X(lcg32hic) X(lcg32top) X(lcg32half) X(lcg32c) X(lcg32c2)
#define GRP_REC1(X) X(lcgi32) X(lcgi32s) X(lcgi32c) X(lcgi32d) X(lcg64p2) X(lcg64p2m) X(lcg64hi) X(lcg64hic) X(lcg64top) X(lcg64half) X(lcg64m63) X(lcg64m48) X(lcg64m32) X(lcgi64) X(lcgi64s) X(lcgi64c)
#define GRP_REC2(X) X(icg32) X(icg32hi) X(icg32s) X(icgi32) X(icg64) X(icgi64) X(icg64hi) X(lfsr32a) X(lfsr32b) X(lfsr64) X(lfsr64b) X(lfsr64w32) X(lfsr31) X(lfsr40) X(lfsr17)
#define GRP_REC3(X) X(swc31) X(swc64) X(swc8) X(swc24w) X(swc33) X(swc16) X(swci) X(swc01a) X(swc01b) X(swc01c) X(swc01d) X(swc01e)
#define GRP_REC4(X) X(lfi32) X(lfi31) X(lfi64) X(lfi20) X(lfi33) X(lfi16) X(lf01a) X(lf01b) X(lf01c) X(lf01d) X(lf01e)
#ifdef VERIF_NOM1
#define GRP_REC5M(X)
#else
#define GRP_REC5M(X) X(mts1)
#endif
#define GRP_REC5(X) X(mts) GRP_REC5M(X) X(mtsn) X(mtw64) X(mt31) X(mts64) X(mt40)
#define GRP_ADP0(X) X(sh1) X(sh2) X(sh7) X(sh16) X(sh3) X(sh1000) X(sh8) X(shi) X(sh64) X(shk)
#define GRP_ADP1(X) X(db11) X(db55) X(db71) X(db136) X(dblf) X(dbsh) X(db97) X(dbswc) X(dbdb) X(shdb)
#define GRP_ADP2(X) X(ib1) X(ib15) X(ib30) X(ib31) X(ib32) X(ib64) X(ib63) X(ib33) X(ibm32) X(ibm64) X(ibm17) X(ib64to32) X(ib64to64) X(ib64to5)
#define GRP_ADP3(X) X(ibk17) X(ibk32) X(ibk64) X(ib8_16) X(ib8_7) X(ib8_64) X(ibhi) X(ibhi2) X(ibr48) X(ibdb) X(ibt3) X(ibt3b) X(ibt7) X(ibt9) X(ibt9b) X(shib) X(dbib)
#define GRP_ADP4(X) X(xo1) X(xo2) X(xo3) X(xo4) X(xo5) X(xo6) X(ac1) X(ac2) X(ac3) X(ac4) X(ac5) X(ac6)

#endif
