#include "configs.hpp"
namespace pbt {
static Register r(CFG_NAME, &Machine<Cfg>::unit);
}
