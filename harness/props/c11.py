"""C11: integer writers and hexadecimal rendering."""
from harness.ctx import *
from harness.ctx import codes, hex_nibble, make_bytes, byte_list
from harness import env
from harness.run import Job

BOUNDS = ('writers: every integer in [-2^40, 2^40], after a buffer of 0..2 '
          'arbitrary bytes; hex: every byte string of length 0..6 (thorough '
          '12), chunk sizes 1..4 (thorough 1..8)')
OUTSIDE = 'integers beyond 2^40, longer byte strings'
WRITERS = [('write_u8', 1, False), ('write_i8', 1, True),
           ('write_u16', 2, False), ('write_i16', 2, True),
           ('write_u32', 4, False), ('write_i32', 4, True)]
COVERS = ['%s-%s' % (w[0], k) for w in WRITERS for k in
          ('ok', 'low', 'high', 'maximum', 'minimum')] + [
    'hex', 'chunk', 'partial']


def writer(cx, op, width, signed, pre):
    mod = env.module(cx, 'generator.byteutils')
    f = getattr(mod, op, None)
    if f is None:
        raise Inconclusive('%s is gone' % op)
    x = cx.int('x', -2 ** 40, 2 ** 40)
    prefix = [cx.int('p%d' % i, 0, 255) for i in range(pre)]
    buf = make_bytes(cx, prefix)
    lo = -(1 << (8 * width - 1)) if signed else 0
    hi = (1 << (8 * width - 1)) - 1 if signed else (1 << (8 * width)) - 1
    inr = And(lo <= x, x <= hi)
    try:
        f(buf, x)
        raised = False
    except Exception:
        raised = True
    got = byte_list(buf)
    cx.observe('raised', raised)
    cx.observe('bytes', list(got))
    if raised:
        cx.check(Not(inr), '%s refuses a value in range' % op)
        cx.check_eq(got, prefix, '%s appended bytes although it refused' % op)
        cx.cover(op + '-low', x < lo)
        cx.cover(op + '-high', x > hi)
    else:
        cx.check(inr, '%s accepts a value out of range' % op)
        u = If(x < 0, x + (1 << (8 * width)), x)
        want = prefix + [(u // (256 ** k)) % 256 for k in range(width)]
        if len(got) != len(want):
            cx.fail('%s wrote %d bytes' % (op, len(got) - pre))
        else:
            cx.check(Implies(inr, eq(got, want)),
                     '%s wrote the wrong bytes' % op)
        cx.cover(op + '-ok', inr)
        cx.cover(op + '-maximum', x == hi)
        cx.cover(op + '-minimum', x == lo)


def check_hex(cx, cs, data, what):
    """cs: character codes of \\xhh groups."""
    if len(cs) != 4 * len(data):
        cx.fail('%s: %d characters for %d bytes' % (what, len(cs), len(data)))
        return
    ok = []
    for i, b in enumerate(data):
        a, x, h, l = cs[4 * i:4 * i + 4]
        ok.append(And(a == 92, Or(x == 120, x == 88)))
        hn, ln = hex_nibble(h), hex_nibble(l)
        ok.append(And(hn >= 0, ln >= 0, hn * 16 + ln == b))
    cx.check(And(*ok), '%s does not denote the bytes' % what)


def hexenc(cx, n):
    mod = env.module(cx, 'generator.byteutils')
    data = [cx.int('b%d' % i, 0, 255) for i in range(n)]
    s = mod.hex_encode(make_bytes(cx, data))
    cx.observe('hex', s)
    check_hex(cx, codes(s), data, 'hex_encode')
    cx.cover('hex')


def gostr(cx, n, chunk, prefix):
    mod = env.module(cx, 'generator.byteutils')
    data = [cx.int('b%d' % i, 0, 255) for i in range(n)]
    s = mod.convert_to_go_string(make_bytes(cx, data), chunk, prefix)
    cx.observe('go', s)
    cs = codes(s)
    # a Go expression: literals joined by "+", the prefix is blank space
    body, i, inq, ok, lits = [], 0, False, True, 0
    plus = True
    while i < len(cs):
        c = cs[i]
        if inq:
            if isinstance(c, int) and c == 34:
                inq = False
            else:
                body.append(c)
        elif c == 34:
            ok = ok and plus
            plus = False
            inq = True
            lits += 1
        elif c == 43:
            ok = ok and not plus
            plus = True
        elif c not in (32, 10, 9, 13):
            ok = False
        elif c == 10 and not plus:
            ok = ok and all(x in (32, 10, 9, 13) for x in cs[i:])
        i += 1
    cx.check(ok and not inq and not plus and lits >= 1,
             'not a Go string expression: %s' % (s if isinstance(s, str)
                                                  else ''))
    check_hex(cx, body, data, 'convert_to_go_string')
    cx.cover('chunk', n > chunk)
    cx.cover('partial', n > chunk and n % chunk != 0)


def jobs(tier):
    out = [Job('%s-%d' % (w[0], p), writer, op=w[0], width=w[1], signed=w[2],
               pre=p) for w in WRITERS for p in (0, 2)]
    N, K = (6, 4) if tier == 'quick' else (12, 8)
    out += [Job('hex-%d' % n, hexenc, n=n) for n in range(N + 1)]
    out += [Job('go-%d-%d' % (n, k), gostr, n=n, chunk=k, prefix=p)
            for n in range(N + 1) for k in range(1, K + 1)
            for p in ([''] if k % 2 else ['        '])]
    return out
