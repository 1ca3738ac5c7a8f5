#include "wide_ops.h"

namespace sim
{
void wide_group_0()
{
    WIDE10()
    WIDE(10)
}
} // namespace sim
