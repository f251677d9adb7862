"""Scripts for harness/str.c: calls of the string, number and base64 functions."""
import random, itertools

def hx(b):
    b = bytes(b)
    return b.hex() if b else '-'

FILL = [0x01, 0x61, 0x7f, 0x80, 0x81, 0xff, 0xfe]
PR = b'abcxyz019 .,=-/'

def nozero(rnd, n, alpha=None):
    if alpha is None:
        return bytes(rnd.randint(1, 255) for _ in range(n))
    return bytes(rnd.choice(alpha) for _ in range(n))

def c23(rnd, tier):
    big = tier == 'thorough'
    # lengths at all alignments, with bytes near those a word-wise search takes for zero
    for n in range(0, 65 if big else 34):
        for off in range(8):
            yield 'strlen %d %s' % (off, hx([rnd.choice(FILL)] * n))
            yield 'strlen %d %s' % (off, hx(nozero(rnd, n, [1, 0x80, 0x81, 0xff])))
    # all pairs of short texts
    al = [0x61, 0x62, 0x80, 0xff]
    short = [bytes(x) for k in range(4 if big else 3) for x in itertools.product(al, repeat=k)]
    for a in short:
        for b in short:
            yield 'strcmp %d %d %s %s' % (rnd.randint(0, 7), rnd.randint(0, 7), hx(a), hx(b))
    # equal but for one place, or one a prefix of the other
    for n in range(0, 40 if big else 27):
        for _ in range(12 if big else 4):
            a = nozero(rnd, n, [0x61, 0x62, 1, 0xff])
            yield 'strcmp %d %d %s %s' % (rnd.randint(0, 7), rnd.randint(0, 7), hx(a), hx(a))
            yield 'strcmp %d %d %s %s' % (rnd.randint(0, 7), rnd.randint(0, 7), hx(a), hx(a + nozero(rnd, rnd.randint(1, 9))))
            yield 'strcmp %d %d %s %s' % (rnd.randint(0, 7), rnd.randint(0, 7), hx(a + nozero(rnd, rnd.randint(1, 9))), hx(a))
        for i in range(n):
            a = bytearray(nozero(rnd, n))
            b = bytearray(a)
            b[i] = a[i] ^ rnd.choice([1, 0x80, 0x40]) or 1
            if a[i] != b[i]:
                yield 'strcmp %d %d %s %s' % (rnd.randint(0, 7), rnd.randint(0, 7), hx(a), hx(b))
    # one byte sought: every length and place, absent, present more than once, present behind the end
    for op in ('memchr', 'memrchr'):
        for n in range(0, 41 if big else 29):
            for c in ([0, 1, 0x61, 0x7f, 0x80, 0xff] if big else [0, 0x61, 0x80, rnd.randint(1, 255)]):
                near = [c ^ 1, c ^ 0x80, (c + 1) & 255, (c - 1) & 255, rnd.randint(0, 255)]
                near = [x for x in near if x != c]
                def text():
                    return bytearray(rnd.choice(near) for _ in range(n))
                yield '%s %d %d %d %s' % (op, rnd.randint(0, 7), c, c, hx(text()))
                yield '%s %d %d %d %s' % (op, rnd.randint(0, 7), c, near[0], hx(text()))
                for i in range(n):
                    t = text()
                    t[i] = c
                    yield '%s %d %d %d %s' % (op, rnd.randint(0, 7), c, rnd.choice([c, near[0]]), hx(t))
                for _ in range(3 if n > 1 else 0):
                    t = text()
                    for _ in range(rnd.randint(2, 4)):
                        t[rnd.randrange(n)] = c
                    yield '%s %d %d %d %s' % (op, rnd.randint(0, 7), c, c, hx(t))
    for c in [0, 1, 0x3d, 0x61, 0x7f, 0x80, 0x81, 0xff]:
        for m in range(256):
            t = bytes(c if m >> i & 1 else rnd.choice([c ^ 1, c ^ 0x80, (c + 1) & 255]) for i in range(8))
            yield 'memchr8 %d %d %s' % (rnd.randint(0, 7), c, hx(t))
    for n in range(1, 34):
        for i in range(n):
            t = bytearray(rnd.choice(PR[:8]) for _ in range(n))
            t[i] = ord('=')
            if rnd.random() < .3:
                t[rnd.randrange(n)] = ord('=')
            yield 'known %d %d %s' % (rnd.randint(0, 7), ord('='), hx(t))
            c = rnd.choice([0, 1, 3, 0x3d, 0x61, 0x7f, 0x80, 0x83, 0xff])
            t = bytearray(rnd.choice([0, c ^ 1, c ^ 0x80, (c + 1) & 255, rnd.randint(128, 255)]) for _ in range(n))
            t[i] = c
            yield 'knownb %d %d %s' % (rnd.randint(0, 7), c, hx(t))
    # substrings
    ab = [bytes(x) for k in range(6 if big else 5) for x in itertools.product(b'ab', repeat=k)]
    for s in ab:
        for p in ab:
            if len(p) <= 3:
                yield 'strpos %d %s %s' % (rnd.randint(0, 7), hx(s), hx(p))
    for _ in range(6000 if big else 800):
        s = nozero(rnd, rnd.randint(0, 40), b'abc' if rnd.random() < .6 else None)
        if s and rnd.random() < .6:
            i = rnd.randrange(len(s))
            p = s[i:i + rnd.randint(1, 12)]
            if rnd.random() < .3:
                p = p[:-1] + b'\xfe'
        else:
            p = nozero(rnd, rnd.randint(0, 6), b'abc')
        yield 'strpos %d %s %s' % (rnd.randint(0, 7), hx(s), hx(p))
    for _ in range(4000 if big else 500):
        n = rnd.randint(0, 8)
        yield 'cast8 %d %s' % (rnd.randint(0, 7), hx(bytes(rnd.randint(0, 255) for _ in range(n))))
    for i in range(64):
        for v in (1 << i, (1 << i) | (1 << rnd.randint(0, 63)), rnd.getrandbits(64) >> i, (2 ** 64 - 1) << i & (2 ** 64 - 1),
                  0x0101010101010101 ^ (1 << i), rnd.getrandbits(64) & ~(255 << (i // 8 * 8))):
            yield 'bits %016x' % v
    yield 'bits ' + '0' * 16

def c19(rnd, tier):
    big = tier == 'thorough'
    sc = lambda two=True: rnd.choice([0, 1, 2] if two else [1, 2])
    texts = [bytes(x) for k in range(1, 6 if big else 5) for x in itertools.product(b'a,b', repeat=k)]
    delims = [bytes(x) for k in range(1, 3) for x in itertools.product(b'a,', repeat=k)]
    for s in texts:
        for d in delims:
            yield 'split %d 0 %d %s %s' % (sc(), rnd.randint(0, 7), hx(s), hx(d))
    yield 'split 1 0 0 - 2c'
    yield 'split 0 0 3 - 2c'
    yield 'split 2 0 3 - 2c'
    for _ in range(6000 if big else 700):
        s = nozero(rnd, rnd.randint(0, 60), b'ab ,;' if rnd.random() < .7 else None)
        d = rnd.choice([b',', b' ', b', ', b';;', b'ab', b'aba', b'ab a', b'zz', nozero(rnd, rnd.randint(1, 3))])
        if rnd.random() < .5:
            s = d.join(nozero(rnd, rnd.randint(0, 9), b'abc,x') for _ in range(rnd.randint(1, 8)))
        yield 'split %d %d %d %s %s' % (sc(), int(rnd.random() < .15), rnd.randint(0, 7), hx(s), hx(d))
    for s in texts:
        for p in [b'a', b',', b'aa', b'a,', b'ab', b'aba']:
            for w in [b'', b'x', b'a', b'aa', b'xyz', b'a,a']:
                if big or rnd.random() < .25:
                    yield 'replace %d %d %s %s %s' % (sc(), rnd.randint(0, 7), hx(s), hx(p), hx(w))
    for _ in range(6000 if big else 700):
        p = nozero(rnd, rnd.randint(1, 9), b'abc')
        s = b''.join(rnd.choice([p, nozero(rnd, rnd.randint(0, 6), b'abc'), p[:-1]]) for _ in range(rnd.randint(0, 7)))
        yield 'replace %d %d %s %s %s' % (sc(), rnd.randint(0, 7), hx(s), hx(p), hx(nozero(rnd, rnd.randint(0, 14))))
    for n in range(0, 7):
        for _ in range(400 if big else 60):
            yield 'concat %d %d %s' % (sc(), n, ' '.join(hx(nozero(rnd, rnd.choice([0, 0, 1, 2, 7, 8, 9, 20]))) for _ in range(n)))
    for n in list(range(0, 30)) + [63, 64, 65, 200]:
        for _ in range(20 if big else 4):
            yield 'memdup %d %d %s' % (sc(False), rnd.randint(0, 7), hx(bytes(rnd.randint(0, 255) for _ in range(n))))
            s = nozero(rnd, n)
            yield 'copy %d %s' % (rnd.choice([0, 0, n, max(0, n - 1), n // 2]), hx(s))

B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
def c20(rnd, tier):
    import base64
    big = tier == 'thorough'
    sc = lambda: rnd.choice([1, 2])
    for a in range(1, 256):
        yield 'enc %d %d %02x' % (sc(), a & 7, a)
        yield 'dec %d %d %s' % (sc(), a & 7, hx([a]))
        yield 'dec %d %d %s' % (sc(), a & 7, hx(b'QU' + bytes([a]) + b'B'))
        yield 'dec %d %d %s' % (sc(), a & 7, hx(b'QU' + bytes([a]) + b'JD'))
    # every value of every sextet
    for x in range(64):
        for pos in range(4):
            q = [rnd.randrange(64) for _ in range(4)]
            q[pos] = x
            yield 'dec %d 0 %s' % (sc(), hx(bytes(B64[i] for i in q)))
            b = base64.b64decode(bytes(B64[i] for i in q))
            if 0 not in b:
                yield 'enc %d 0 %s' % (sc(), hx(b))
    for _ in range(20000 if big else 3000):
        b = nozero(rnd, rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, rnd.randint(0, 60)]))
        yield 'enc %d %d %s' % (sc(), rnd.randint(0, 7), hx(b))
        e = base64.b64encode(bytes(rnd.randint(0, 255) for _ in range(rnd.randint(0, 40))))
        r = rnd.random()
        if r < .2:
            i = rnd.randint(0, len(e))
            e = e[:i] + nozero(rnd, rnd.randint(1, 3), b'\n\r -!?@[`{\x80\xff:.') + e[i:]
        elif r < .4 and e:
            e = e.rstrip(b'=')[:-rnd.randint(1, 3)]
        elif r < .6 and r >= .48:   # letters whose last bits mean nothing, and are not nought
            e = bytes(rnd.choice(B64) for _ in range(4 * rnd.choice([0, 0, 1, 2, 5]) + rnd.choice([2, 3])))
            e += b'=' * (-len(e) % 4)
        elif r < .48:           # too much padding
            e = bytes(rnd.choice(B64) for _ in range(4 * rnd.choice([0, 0, 1, 2, 5]))) + rnd.choice([b'A===', b'====', b'=B==', b'==C=', b'===D', b'E==='])
            if rnd.random() < .3:
                e += b'QUJD'
        yield 'dec %d %d %s' % (sc(), rnd.randint(0, 7), hx(e))

def c21(rnd, tier):
    big = tier == 'thorough'
    vals = set()
    for i in range(64):
        for d in (-1, 0, 1):
            vals.add(((1 << i) + d) & (2 ** 64 - 1))
            vals.add((-(1 << i) + d) & (2 ** 64 - 1))
    for k in range(20):
        for d in (-1, 0, 1):
            for s in (1, -1):
                vals.add((s * (10 ** k + d)) & (2 ** 64 - 1))
                vals.add((s * (9 * 10 ** k + d)) & (2 ** 64 - 1))
    for _ in range(8000 if big else 1200):
        vals.add(rnd.getrandbits(rnd.randint(1, 64)))
        vals.add((-rnd.getrandbits(rnd.randint(1, 63))) & (2 ** 64 - 1))
        vals.add(int(''.join(rnd.choice('09' if rnd.random() < .3 else '0123456789') for _ in range(rnd.randint(1, 19)))))
    vals = sorted(vals)
    rnd.shuffle(vals)
    for v in vals:
        yield 'itoa %016x' % v
        s = v - 2 ** 64 if v >> 63 else v
        if abs(s) <= 99999999:
            yield 'itoa8 %016x' % v
        n = rnd.randint(1, 20)
        yield 'utoap %d %016x' % (n, v)
        yield 'utoap %d %016x' % (min(20, len(str(v))), v)
        u = str(v)
        if rnd.random() < .3:
            u = u.zfill(rnd.randint(len(u), 20))
        yield 'atou %d %d %s' % (rnd.randint(0, 7), rnd.choice([0, 0x30, 0x39, 0xff]), hx(u.encode()))
        t = str(s)
        if s >= 0 and rnd.random() < .3:
            t = '+' + t
        if len(t) <= 20:
            yield 'atoi %d %d %s' % (rnd.randint(0, 7), rnd.choice([0, 0x30, 0x39, 0xff]), hx(t.encode()))
        h = '%x' % v
        if rnd.random() < .3:
            h = h.zfill(rnd.randint(len(h), 16))
        h = ''.join(rnd.choice([c, c.upper()]) for c in h)
        yield 'htou %d %d %s' % (rnd.randint(0, 7), rnd.choice([0, 0x30, 0x39, 0xff, 0x61]), hx(h.encode()))
        yield 'atou8 %d %d %s' % (rnd.randint(0, 7), rnd.choice([0, 0x39, 0xff]), hx(u[-rnd.randint(0, 8):][:8].encode()))
        yield 'htou8 %d %d %s' % (rnd.randint(0, 7), rnd.choice([0, 0x39, 0xff]), hx(h[-rnd.randint(0, 8):][:8].encode()))
    decs = set()
    for i in ('', '0', '1', '9', '10', '99', '100', '12345678', '123456789', '99999999', '1000000000'):
        for d in (None, '', '0', '1', '5', '9', '05', '50', '99', '001', '125', '999'):
            for sg in ('', '-', '+'):
                if i or d:
                    decs.add((sg, i, d))
    for _ in range(8000 if big else 1500):
        n = rnd.randint(1, 14)
        k = rnd.randint(0, n)
        t = ''.join(rnd.choice('09' if rnd.random() < .2 else '0123456789') for _ in range(n))
        decs.add((rnd.choice(['', '-', '+']), t[:k], t[k:]))
    # more digits than fit into a double: whole part of 18 digits, 19 decimals
    for _ in range(6000 if big else 1000):
        i = rnd.choice([0, 1, 2, 5, 9, 12, 16, 17, 18, rnd.randint(0, 18)])
        d = rnd.choice([0, 1, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, rnd.randint(0, 19)])
        if i + d > 14:
            t = ''.join(rnd.choice('09' if rnd.random() < .2 else '0123456789') for _ in range(i + d))
            if rnd.random() < .2:
                t = rnd.choice('09') * i + t[i:]
            if rnd.random() < .2:
                t = t[:i] + rnd.choice('09') * (d - 1) + t[-1:] if d else t
            decs.add((rnd.choice(['', '-', '+']), t[:i], t[i:i + d]))
    for sg, i, d in sorted(decs, key=str):
        t = sg + i + ('' if d is None else '.' + d)
        yield 'atod %d %d %s %d' % (rnd.randint(0, 7), rnd.choice([0, 0x2e, 0x39, 0xff]), hx(t.encode()), len(d or ''))
    for x in range(100):
        yield 'utoa2p %d' % x
    for op in ('atou', 'atoi', 'atou8', 'htou', 'htou8'):
        yield op + ' 0 57 -'
    for n in range(1, 21):
        for v in (0, 10 ** (n - 1), 10 ** n - 1, 10 ** n // 7, 2 ** 64 - 1):
            yield 'utoap %d %016x' % (n, v & (2 ** 64 - 1))

# sizes past those of a byte, of two, of a page
def sizes(rnd, tier):
    s = [254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, rnd.randint(300, 9000)]
    huge = [32767, 32768, 32769, 65535, 65536, 65537, rnd.randint(65538, 80000)]
    if tier == 'thorough':
        s += [rnd.randint(100, 9000) for _ in range(60)]
        huge += [rnd.randint(20000, 150000) for _ in range(8)]
    else:
        huge = rnd.sample(huge[:3], 1) + rnd.sample(huge[3:], 2)
    return s, huge

def big23(rnd, tier):
    s, huge = sizes(rnd, tier)
    o = lambda: rnd.randint(0, 7)
    for n in s + huge:
        t = nozero(rnd, n)
        yield 'strlen %d %s' % (o(), hx(t))
        b = bytearray(t)
        i = rnd.choice([n - 1, n - 2, rnd.randrange(n), min(n - 1, rnd.choice([255, 256, 65535, 65536]))])
        b[i] ^= 0x80 if b[i] != 0x80 else 1
        yield 'strcmp %d %d %s %s' % (o(), o(), hx(t), hx(b))
        yield 'strcmp %d %d %s %s' % (o(), o(), hx(t), hx(t))
        yield 'strcmp %d %d %s %s' % (o(), o(), hx(t), hx(t[:n - rnd.choice([1, 8, 16, 100, 255, n])]) if n < 256 else hx(t[:n - rnd.choice([1, 8, 64, 255, 256])]))
        for op in ('memchr', 'memrchr'):
            c = rnd.choice([0, 0x61, 0x80, 0xff])
            u = bytearray(rnd.choice([c ^ 1, c ^ 0x80, (c + 1) & 255]) for _ in range(n))
            yield '%s %d %d %d %s' % (op, o(), c, c, hx(u))
            at = [rnd.randrange(n), n - 1, 0]
            for i in at[:3 if n < 2000 else 2]:
                w = bytearray(u)
                w[i] = c
                yield '%s %d %d %d %s' % (op, o(), c, c, hx(w))
        w = bytearray(rnd.choice(PR[:8]) for _ in range(n))
        w[rnd.choice([n - 1, 0, rnd.randrange(n)])] = ord('=')
        yield 'known %d %d %s' % (o(), ord('='), hx(w))
        c = rnd.choice([0, 1, 0x80, 0xff])
        w = bytearray((c + rnd.randint(1, 255)) & 255 for _ in range(n))
        w[rnd.choice([n - 1, 0, rnd.randrange(n)])] = c
        yield 'knownb %d %d %s' % (o(), c, hx(w))
        for k in (1, 3, 20, 260) if n < 20000 else (2, 300):
            t = nozero(rnd, n, b'ab')
            k = min(k, n)
            i = rnd.choice([n - k, rnd.randint(0, n - k)])
            m = b'c' * rnd.randint(1, k)
            p = (t[:k - len(m)] + m)
            yield 'strpos %d %s %s' % (o(), hx(t[:i] + p + t[i + k:]), hx(p))
            yield 'strpos %d %s %s' % (o(), hx(t), hx(p))

def big19(rnd, tier):
    sc = lambda two=True: rnd.choice([0, 1, 2] if two else [1, 2])
    s, huge = sizes(rnd, tier)
    o = lambda: rnd.randint(0, 7)
    for n in s + huge:
        # as many pieces as n, up to a point, then long ones
        k = n if n < 1100 else rnd.choice([255, 256, 257, 400])
        d = rnd.choice([b',', b', ', b'<==>'])
        for pieces in (k, k + 1, rnd.randint(1, 4)):
            room = max(0, n - (pieces - 1) * len(d)) if pieces < n else 0
            q = [bytearray() for _ in range(pieces)]
            for _ in range(room if pieces > 4 else 0):
                rnd.choice(q).append(rnd.choice(b'abx'))
            if pieces <= 4:
                cut = sorted(rnd.randint(0, room) for _ in range(pieces - 1))
                w = nozero(rnd, room, b'abx')
                q = [w[a:b] for a, b in zip([0] + cut, cut + [room])]
            t = d.join(bytes(x) for x in q)
            if not t:
                continue
            yield 'split %d 0 %d %s %s' % (sc(), o(), hx(t), hx(d))
            w = rnd.choice([b'', b'x', b',,', b'<===>+', nozero(rnd, rnd.choice([1, 255, 256, 300]) if pieces < 5 else 3)])
            yield 'replace %d %d %s %s %s' % (sc(), o(), hx(t), hx(d), hx(w))
        m = rnd.randint(1, 6)
        yield 'concat %d %d %s' % (sc(), m, ' '.join(hx(nozero(rnd, rnd.choice([0, 1, n // m, n]) if n < 9000 else n // m)) for _ in range(m)))
        yield 'concat %d 1 %s' % (sc(), hx(nozero(rnd, n)))
        yield 'concat %d 2 %s %s' % (sc(), hx(nozero(rnd, n // 2)), hx(nozero(rnd, n - n // 2)))
        yield 'memdup %d %d %s' % (sc(False), o(), hx(bytes(rnd.randint(0, 255) for _ in range(n))))
        yield 'copy %d %s' % (rnd.choice([0, n, n - 1, n // 2, 255, 256]) % (n + 1), hx(nozero(rnd, n)))

def big20(rnd, tier):
    import base64
    sc = lambda: rnd.choice([1, 2])
    s, huge = sizes(rnd, tier)
    for n in s + [n + 1 for n in s] + huge + [n // 4 * 3 + rnd.randint(-2, 2) for n in s + huge]:
        yield 'enc %d %d %s' % (sc(), rnd.randint(0, 7), hx(nozero(rnd, n)))
        e = base64.b64encode(bytes(rnd.randint(0, 255) for _ in range(n // rnd.choice([1, 1, 1, 2]))))
        yield 'dec %d %d %s' % (sc(), rnd.randint(0, 7), hx(e))
        if n < 9000:
            for k in (64, 76, 255):
                yield 'dec %d %d %s' % (sc(), rnd.randint(0, 7), hx(b'\r\n'.join(e[i:i + k] for i in range(0, len(e), k))))
            yield 'dec %d %d %s' % (sc(), rnd.randint(0, 7), hx(e[:-rnd.randint(1, 3)]))

BIG = {'C19': big19, 'C20': big20, 'C23': big23}
GEN = {'C19': c19, 'C20': c20, 'C21': c21, 'C23': c23}

def scripts(pid, tier, seed):
    rnd = random.Random('%s/%s' % (pid, seed))
    calls = list(GEN[pid](rnd, tier))
    rnd.shuffle(calls)
    out = []
    for i in range(0, len(calls), 14):
        out.append(' ; '.join(calls[i:i + 14]))
    more = list(BIG[pid](rnd, tier)) if pid in BIG else []
    for i in range(0, len(more), 2):
        out.append(' ; '.join(more[i:i + 2]))
    rnd.shuffle(out)
    return ['%d %s' % (i, s) for i, s in enumerate(out)], len(calls) + len(more)
