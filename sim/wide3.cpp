#include "wide_ops.h"

namespace sim
{
void wide_group_3()
{
    WIDE10(3)
    WIDE(40)
}
} // namespace sim
