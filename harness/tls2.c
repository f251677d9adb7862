/* The variables others refer to by thrd_local_extern and thrd_local_external. */
#include "tlsv.h"
thrd_local(rec_t, vrec, NULL)
thrd_local(int, vint, NULL)
typedef long *longp;
thrd_local_plain(longp, vptr, NULL)
