// compiled once per configuration with -DCFG_ID=n
#include "driver.hpp"
#include "model.hpp"
namespace sim {
#define X(id, name, q, e, tl, tr, m, lim, ie, ih, ...) \
    struct Conf##id { static void add() { Reg<id, __VA_ARGS__>::add(); } };
// only the selected one is instantiated
template <int N> struct Pick;
#undef X
#define X(id, name, q, e, tl, tr, m, lim, ie, ih, ...) \
    template <> struct Pick<id> { template <int N> static void add() { Reg<N, __VA_ARGS__>::add(); } };
#include "configs.def"
#undef X
namespace {
struct Init {
    Init() {
        Pick<CFG_ID>::add<CFG_ID>();
#ifdef SSP_DISABLE_FAST_FLOAT
        without_fast_float = true;
#endif
    }
} init_;
} // namespace
} // namespace sim
