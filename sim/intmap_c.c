// The typed wrappers, as a user of the macros gets them.
#include "embc/collections/intmap.h"
#include <stdlib.h>
EMBC_INTMAP_DECLARE(typed, char *)
EMBC_INTMAP_DEFINE_STRUCT(typed)
EMBC_INTMAP_DEFINE(typed, char *)
