// P19: failing runs.
#include "tool.h"
RUN(inputs, "RegisterArgument 0,RegisterOptArgument 0")
RUN(query_set, "RegisterArgument 0,query_set")
RUN(query_groups, "RegisterArgument 0,query_groups")
RUN(dump, "RegisterArgument 0,dump_matches")
