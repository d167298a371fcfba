#include "hash_world.hpp"
using namespace vf;
#ifndef CFG
#define CFG 0
#endif
#if CFG == 0
#define SPECS X(FMapIntObj) X(FMapObjObjA) X(FSetStr)
#elif CFG == 1
#define SPECS X(NMapStrStr) X(NMapObjObjA) X(NSetObj)
#elif CFG == 2
#define SPECS X(FMapObjObj) X(FMapIntM) X(FSetInt)
#elif CFG == 3
#define SPECS X(FMapStrStr) X(FSetObjA) X(NSetStrA)
#elif CFG == 4
#define SPECS X(FMapIntInt) X(FMapIntOver)
#elif CFG == 5
#define SPECS X(NMapIntIntA) X(NSetInt) X(FSetIntA) X(FMapNslNslA)
#elif CFG == 10
#define SPECS X(PFMapIntObj) X(PFMapObjObjA) X(PFMapObjM)
#elif CFG == 11
#define SPECS X(PNMapStrStr) X(PFSetObj0) X(PFSetInt)
#elif CFG == 12
#define SPECS X(PNMapObjObj) X(PNSetStr) X(PNMapIntIntA)
#endif
template<class F> void choose(uint64_t idx, F f) {
    constexpr int n = 0
#define X(S) + 1
    SPECS
#undef X
    ;
    int k = int(idx % n), q = 0;
#define X(S) if (k == q++) { f(S{}); return; }
    SPECS
#undef X
}
int main(int argc, char** argv) {
    return run_main(argc, argv, {
        { "model", [](Rng& r, uint64_t i) { choose(i, [&](auto s) { using S = decltype(s); world_case<S>(r, PR_MIX, 600, 600, false); }); } },
        { "churn", [](Rng& r, uint64_t i) { choose(i, [&](auto s) { using S = decltype(s); world_case<S>(r, PR_CHURN, 4000, 900, false); }); } },
        { "big", [](Rng& r, uint64_t i) { choose(i, [&](auto s) { using S = decltype(s); world_case<S>(r, r.chance(50) ? PR_GROW : PR_CHURN, 60000, 30000, false, 200); }); } },
        { "value", [](Rng& r, uint64_t i) { choose(i, [&](auto s) { using S = decltype(s); world_case<S>(r, PR_VALUE, 250, 300, true); }); } },
        { "stable", [](Rng& r, uint64_t i) { choose(i, [&](auto s) { using S = decltype(s); world_case<S>(r, PR_MIX, 300, 150, true); }); } },
    });
}
