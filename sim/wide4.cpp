#include "wide_ops.h"

namespace sim
{
void wide_group_4()
{
    WIDE10(4)
    WIDE(50)
}
} // namespace sim
