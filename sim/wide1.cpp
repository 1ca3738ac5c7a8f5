#include "wide_ops.h"

namespace sim
{
void wide_group_1()
{
    WIDE10(1)
    WIDE(20)
}
} // namespace sim
