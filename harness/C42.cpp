//@ oracle an engine of the configured type freshly constructed with the seed
//@ bounds the three engines (mt19937_64, Xoshiro256ss, AES_RNG); seeds: every value of one of the 16 nibbles of the seed, the others zero or one; 0 to 3 draws and a seeding before; 2 raw draws, a bit and a bounded draw per seed
//@ outside seeds which differ in several nibbles from zero or all ones
//@ case seed quick=0-31 reach=done canon=8
//@ case start reach=done
#include "reseed.h"
VP_CASE(seed) { int a = (int)vp_arg(); std::uint64_t s = (a / 16 ? ~0ull : 0) ^ vp_bits("nibble", 4) << (a % 16 * 4); int h = (int)vp_choose("history", 0, 2); reseed(s, h, 2); vp_reach("done"); }
VP_CASE(start) { initial(); vp_reach("done"); }
