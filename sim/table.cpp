#include "items.h"
#include "configs.h"
namespace sim
{
#ifndef NO_ITEMS
void items_group_0(ItemOps *);
void items_group_1(ItemOps *);
void items_group_2(ItemOps *);
void items_group_3(ItemOps *);
static ItemOps * build()
{
    static ItemOps t[N_ITEMS];
    items_group_0(t);
    items_group_1(t);
    items_group_2(t);
    items_group_3(t);
    return t;
}
const ItemOps * const item_ops = build();
#endif
const char * code_name(int c)
{
    switch (c) {
    case OK:
        return "success";
    case RANGE:
        return "result_out_of_range";
    case MSGSIZE:
        return "message_size";
    case BADMSG:
        return "bad_message";
    case TOOLARGE:
        return "value_too_large";
    case PROTO:
        return "protocol_error";
    case INVALID:
        return "invalid_argument";
    case NOSPACE:
        return "no_buffer_space";
    case NOTSUP:
        return "not_supported";
    default:
        return "other code";
    }
}
} // namespace sim
