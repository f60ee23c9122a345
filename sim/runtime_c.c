// The library's own fatal entry point lives beside the simulator's, which forwards to it.
#define embc_fatal embc_fatal_real
#include "lib.c"
#undef embc_fatal
// every level is compiled in
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_ALL
#undef EMBC_LOG_GLOBAL_LEVEL
#define EMBC_LOG_GLOBAL_LEVEL EMBC_LOG_LEVEL_ALL

#define CALLS(L) \
    case 0: *line = __LINE__; EMBC_LOG_##L("%s", s); break; \
    case 1: *line = __LINE__; EMBC_LOG_##L("%d:%s", i, s); break; \
    case 2: *line = __LINE__; EMBC_LOG_##L("fixed text"); break; \
    default: *line = __LINE__; EMBC_LOG_##L("%c %d %s %u %d %d %d %d %d", 'x', i, s, (unsigned) i, 1, 2, 3, 4, 5); break;
#define LEVEL(N, L) case N: switch (form) { CALLS(L) } break;

void runtime_log(int level, int form, int i, char const * s, int * line) {
    switch (level) {
        LEVEL(0, EMERGENCY)
        LEVEL(1, ALERT)
        LEVEL(2, CRITICAL)
        LEVEL(3, ERROR)
        LEVEL(4, WARNING)
        LEVEL(5, NOTICE)
        LEVEL(6, INFO)
        LEVEL(7, DEBUG1)
        LEVEL(8, DEBUG2)
        LEVEL(9, DEBUG3)
    }
}

// below the level of this part: not logged
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_WARNING
void runtime_log_quiet(int level, int form, int i, char const * s, int * line) {
    switch (level) {
        LEVEL(0, EMERGENCY)
        LEVEL(1, ALERT)
        LEVEL(2, CRITICAL)
        LEVEL(3, ERROR)
        LEVEL(4, WARNING)
        LEVEL(5, NOTICE)
        LEVEL(6, INFO)
        LEVEL(7, DEBUG1)
        LEVEL(8, DEBUG2)
        LEVEL(9, DEBUG3)
    }
}

void * runtime_alloc_clr(embc_size_t sz) { return embc_alloc_clr(sz); }

// contract checks: each goes on, or reports
void embc_fatal(char const * file, int line, char const * msg);
#include "embc/assert.h"
#include "embc/dbc.h"
#include "embc/argchk.h"
void runtime_contract(int which, int value, int low, int high, void const * place) {
    switch (which) {
        case 0: EMBC_ASSERT(value) break;
        case 1: EMBC_ASSERT_ALLOC(place) break;
        case 2: EMBC_DBC_ASSERT(value, "the value of the caller"); break;
        case 3: EMBC_DBC_TRUE(value); break;
        case 4: EMBC_DBC_FALSE(value); break;
        case 5: EMBC_DBC_NOT_NULL(place); break;
        case 6: EMBC_DBC_EQUAL(value, low); break;
        case 7: EMBC_DBC_GT(value, low); break;
        case 8: EMBC_DBC_GTE(value, low); break;
        case 9: EMBC_DBC_NE(value, low); break;
        case 10: EMBC_DBC_LT(value, low); break;
        case 11: EMBC_DBC_LTE(value, low); break;
        case 12: EMBC_DBC_GT_ZERO(value); break;
        case 13: EMBC_DBC_GTE_ZERO(value); break;
        case 14: EMBC_DBC_NE_ZERO(value); break;
        case 15: EMBC_DBC_LT_ZERO(value); break;
        case 16: EMBC_DBC_LTE_ZERO(value); break;
        case 17: EMBC_DBC_RANGE_INT(value, low, high); break;
        case 18: EMBC_DBC_REQUIRE(value); break;
        default: EMBC_FATAL("the value of the caller");
    }
}

#define ARGUMENTS(NAME) \
int NAME(int which, int value, int low, int high, void const * place) { \
    switch (which) { \
        case 0: EMBC_ARGCHK_ASSERT(value, "value"); break; \
        case 1: EMBC_ARGCHK_TRUE(value); break; \
        case 2: EMBC_ARGCHK_FALSE(value); break; \
        case 3: EMBC_ARGCHK_NOT_NULL(place); break; \
        case 4: EMBC_ARGCHK_GT_ZERO(value); break; \
        case 5: EMBC_ARGCHK_GTE_ZERO(value); break; \
        case 6: EMBC_ARGCHK_NE_ZERO(value); break; \
        case 7: EMBC_ARGCHK_LT_ZERO(value); break; \
        case 8: EMBC_ARGCHK_LTE_ZERO(value); break; \
        case 9: EMBC_ARGCHK_RANGE_INT(value, low, high); break; \
        default: EMBC_ARGCHK_REQUIRE(value); break; \
    } \
    return 0; \
}
ARGUMENTS(runtime_argument_quiet)
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_ALL
ARGUMENTS(runtime_argument)
