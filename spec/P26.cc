// P26: the order in which hypotheses reach the matcher.
#include "tool.h"
PREPARE(order, "RegisterArgument 0,RegisterOptArgument 0,sort")
PREPARE(order_selected, "RegisterArgument 0,sort,query_set")
