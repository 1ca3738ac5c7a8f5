#include "wide_ops.h"

namespace sim
{
void wide_group_2()
{
    WIDE10(2)
    WIDE(30)
}
} // namespace sim
