/* Variables of the kinds cthread.h offers, one a thread. */
#include "raii.h"
typedef struct { long a; char pad[40]; long b; } rec_t;
