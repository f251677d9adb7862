"""Which family decides which property."""
import fam_ctl, fam_str, fam_args, fam_fut, fam_arena, fam_atom, fam_mt, fam_order, fam_tls
PROPS = {}
CTL_ASSUME = ['glibc on Linux/x86-64; the library is compiled from /repo/src with gcc -O3 and its allocator macros pointed at an instrumented allocator',
              'programs of the shapes lib/ctlgen.py and lib/ctlenum.py make']
for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C27']:
    PROPS[p] = (fam_ctl, 'model_checking', CTL_ASSUME)
STR_ASSUME = ['little-endian x86-64, gcc -O3', 'inputs of the kinds lib/strgen.py makes; those the documentation calls junk (more digits than fit, empty patterns) are not given']
for p in ['C19', 'C20', 'C21', 'C23']:
    PROPS[p] = (fam_str, 'model_checking', STR_ASSUME)
PROPS['C17'] = (fam_args, 'model_checking', ['System V x86-64 calling convention, gcc -O3', 'lists are read while their owner has not ended'])
FUT_ASSUME = ['sequentially consistent memory; a thread is preempted only at memory accesses of the library code', 'a future is got once, by a thread its creator waits for, and a scope is destroyed after it was synced', 'each program is run by at most one thread']
for p in ['C13', 'C14', 'C15', 'C26']:
    PROPS[p] = (fam_fut, 'model_checking', FUT_ASSUME)
PROPS['C18'] = (fam_arena, 'model_checking', ['gcc -O3 x86-64; blocks are written only within the size asked for', 'an arena is used by one thread at a time unless the program is a scheduled one'])
PROPS['C22'] = (fam_atom, 'model_checking', ['gcc on x86-64, the branch of catomic.h it takes', 'values read are those of a sequentially consistent memory; weaker orders are judged by the happens-before they give'])
PROPS['C16'] = (fam_mt, 'model_checking', ['threads are preempted only at memory accesses of the library code; sequentially consistent memory', 'programs of the shapes lib/ctlgen.py and lib/fam_mt.py make, two to four threads; a thread leaves its scope by raii_destroy'])
PROPS['C24'] = (fam_order, 'model_checking', ['executions are sequentially consistent, the memory orders are judged by the happens-before they give', 'accesses made by the C library (memcpy, realloc) are not seen', FUT_ASSUME[1]])
PROPS['C25'] = (fam_tls, 'model_checking', ['the compiler has thread-local variables (cthread.h as built here); the emulation for compilers without is not judged', 'what a deleted variable\'s room holds is nobody\'s'])
NA = {}
