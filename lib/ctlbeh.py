"""Programs TLC has made up from spec/RaiiMC.tla, as scripts for harness/ctl.c.
A behaviour is a sequence of events; the calls in it are put back where they
stand in the program: in the body, a clause or the finally of a try, in a
section, or in a defer."""
import json

KEY = {'my_error': 'y', 'out_of_range': 'o', '*': '*', '?': '?', '!': '!'}

class Node:
    def __init__(self, head, blocks=()):
        self.head, self.blocks = head, list(blocks)     # blocks: lists of nodes
        self.num = None
    def text(self):
        if self.num is None and not self.blocks:
            return self.head
        n = '' if self.num is None else ' %d' % self.num
        return self.head + n + ''.join(' { %s }' % ' '.join(x.text() for x in b) if b else ' { }' for b in self.blocks)

def script(beh):
    """behaviour -> (script, calls and answers that must be seen)"""
    main = []
    stack = [('base', 0, main)]          # what is being run: kind, id, block
    tries, defers = {}, {}
    label = fail = 0
    for e in beh:
        k = e['e']
        cur = stack[-1][2]
        add = lambda t, *b: cur.append(Node(t, b))
        if k == 'rinit': add('I')
        elif k == 'new': add('N ' + e['s'])
        elif k == 'defer':
            n = Node('D %s %d %d' % (e['s'][:1] if e['s'][0] == 'G' else e['s'], e['i'], e['i'] & 1), [[]])
            defers[e['i']] = n
            cur.append(n)
        elif k == 'malloc': add('M %s %d %d %d' % (e['s'][:1] if e['s'][0] == 'G' else e['s'], e['i'], 8 + e['i'] % 3 * 40, e['i'] % 4))
        elif k == 'cancel': add('K %d' % e['i'])
        elif k == 'fire': add('F %d' % e['i'])
        elif k == 'clean': add('Z ' + (e['s'][:1] if e['s'][0] == 'G' else e['s']))
        elif k == 'del':
            if not (len(stack) == 1): add('X ' + e['s'])
            else: add('X ' + e['s'])
        elif k == 'throw':
            if stack[-1][:2] != ('run', -1):
                add('P ' + e['msg'] if e['n'] == 'panic' else 'T ' + e['n'])
        elif k in ('sig', 'sigblk'): add('S %s 0' % e['n'])
        elif k == 'rethrow': add('R')
        elif k == 'try':
            key = ''.join(KEY[c] for c in e['cl']) + ('F' if e['fin'] else '-')
            n = Node('Y %s %d' % (key, e['id']), [[] for _ in range(1 + len(e['cl']) + e['fin'])])
            n.num = len(n.blocks)
            tries[e['id']] = (n, [x for x in stack])
            cur.append(n)
            stack.append(('try', e['id'], n.blocks[0]))
        elif k == 'catch':
            n, st = tries[e['id']]
            stack = list(st) + [('catch', e['id'], n.blocks[e['ci']])]
        elif k == 'fin':
            n, st = tries[e['id']]
            stack = list(st) + [('fin', e['id'], n.blocks[-1])]
        elif k in ('tbody', 'cend', 'fend'): stack.pop()
        elif k == 'guard':
            n = Node('G %d %d' % (e['id'], e['id'] % 3), [[]])
            tries[e['id']] = (n, list(stack))
            cur.append(n)
            stack.append(('guard', e['id'], n.blocks[0]))
        elif k == 'gret': add('V 5'); stack[-1] = ('left', e['id'], [])
        elif k == 'gend': stack[-1] = ('left', e['id'], [])
        elif k == 'gdone': stack = list(tries[e['id']][1])
        elif k == 'run': stack.append(('run', e['i'], defers[e['i']].blocks[0]))
        elif k == 'termcb': stack.append(('run', -1, []))
        elif k == 'ret': stack.pop()
        elif k == 'recov': add('r ' + e['n'])
        elif k == 'caught': add('c ' + e['n'])
        elif k == 'prot': add('p %d %d' % (e['p'], e['v']))
        elif k == 'pset': add('q %d %d' % (e['p'], e['v']))
        elif k == 'unprot': add('u %d' % e['p'])
        elif k == 'arm': add('a' if e['v'] else 'A')
        elif k == 'named': add('h sig_fpe my_error')
        elif k == 'hook': add('x %s %d' % (e['s'] or '-', e['f']))
        elif k == 'cbs': add('H %d %d' % (e['t'], e['c']))
        elif k == 'msg': add('m')
        elif k == 'unc': add('w')
        elif k == 'afail':
            add('L 1')
            if e['op'] == 'malloc':
                label += 1
                add('M %s %d 8 0' % (e['s'][:1] if e['s'][0] == 'G' else e['s'], 900 + label))
    return '{ ' + ' '.join(x.text() for x in main) + ' }'
