"""Writes the C functions with one try statement each that ctl.c chooses from:
every list of up to two catch clauses, a selection of longer ones, with and
without finally.  Keys: clause letters, then 'F' or '-'."""
import itertools, sys
L = {'o': 'out_of_range', 'b': 'bad_alloc', 'y': 'my_error', 'p': 'panic', 's': 'sig_segv', 'f': 'sig_fpe', 'i': 'sig_int',
     'n': 'an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_it', 'Y': 'My_error'}
SINGLES = 'obypsfi*?'
FINALITY = ['!', 'o!', 'y!', '?!', 'pb!', 's!', '?o!']   # these have a finally block
def keys():
    out = ['']
    out += list(SINGLES)
    out += [a + b for a in SINGLES for b in SINGLES if not (a == '*' and b not in 'o*?')]
    out += ['oby', 'ob*', 'ob?', 'yp*', 'o?*', '?o*', '??*', '???', 'o*?', 'bo*', 'pso', 'sf*', 'sfi', 'yob', '?yb', 'o?b',
            'n', 'Yn', 'nY', 'Yy', 'n*', 'yY*', 'Yn?',
            *FINALITY,
            'oby*', 'oby?', '?o?b', 'sfip*']
    return out
def main(path):
    w = []
    tab = []
    n = 0
    for k in keys():
        for fin in (0, 1):
            if '!' in k and not fin:
                continue
            n += 1
            w.append('static __attribute__((noinline)) void try_%d(frame *f) {\n    try { TRY_BODY }' % n)
            for ci, c in enumerate(k):
                if c == '!':
                    w.append('    finality { TRY_FIN }')
                    continue
                m = {'*': 'catch_any', '?': 'catch_if'}.get(c) or 'catch(%s)' % L[c]
                w.append('    %s { TRY_CATCH(%d, %d) }' % (m, ci, 1 if c == '?' else 0))
            if fin and '!' not in k:
                w.append('    finally { TRY_FIN }')
            w.append('    end_try;\n}')
            cl = ','.join('\\"%s\\"' % L.get(c, c) for c in k)
            tab.append('    {"%s", "%s", %d, try_%d},' % (k + ('F' if fin else '-'), cl, fin, n))
    w.append('static const struct tmpl tmpls[] = {')
    w += tab
    w.append('};')
    open(path, 'w').write('\n'.join(w) + '\n')
if __name__ == '__main__':
    main(sys.argv[1])
