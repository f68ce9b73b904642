#!/usr/bin/env python3
"""One-off generator of harness/src/calls.rs: a call of every public function with arguments by type (run by hand; output is committed)."""
import re, sys
sys.path.insert(0, '/tmp')
out = []
for f in ['vector', 'matrix', 'misc', 'convert', 'packed_vector', 'collision', 'lib']:
    s = open('/repo/src/%s.rs' % f).read()
    s = re.sub(r'//[^\n]*', '', s)
    pos = [(m.start(), m.group(1)) for m in re.finditer(r'^(?:impl|pub mod|mod) (\w+)\s*\{', s, re.M)]
    ms = list(re.finditer(r'pub (unsafe )?(?:const )?fn (\w+)\s*(<[^(]*>)?\(([^)]*(?:\([^)]*\)[^)]*)*)\)\s*(->\s*([^{;]+?))?\s*(?:where[^{]*)?\{', s))
    for k, m in enumerate(ms):
        scope = [n for p, n in pos if p < m.start()]
        args = [a.strip() for a in m.group(4).replace('\n', ' ').split(',') if a.strip()]
        ty = [re.sub(r'\s+', ' ', a.split(':', 1)[1].strip()) if ':' in a else a for a in args]
        body = s[m.start(): ms[k + 1].start() if k + 1 < len(ms) else len(s)]
        out.append((f, scope[-1] if scope and f in ('collision', 'lib') else '', m.group(2), ty, (m.group(6) or '').strip(), 'debug_assert' in body))
pre = {o[2] for o in out if o[5]}
L = []
DOM = {'XMVectorGetByIndex': 4, 'XMVectorGetIntByIndex': 4, 'XMVectorSetByIndex': 4, 'XMVectorSetIntByIndex': 4, 'XMVectorSwizzle': 4, 'XMVectorPermute': 8, 'XMVectorSelectControl': 2,
       'XMVectorShiftLeft': 4, 'XMVectorRotateLeft': 4, 'XMVectorRotateRight': 4, 'XMConvertVectorIntToFloat': 32, 'XMConvertVectorFloatToInt': 32, 'XMConvertVectorUIntToFloat': 32,
       'XMConvertVectorFloatToUInt': 32, 'XMVectorSetBinaryConstant': 2, 'XMVectorSplatConstant': 32}
seen = set()
for f, sc, name, ty, ret, dbg in out:
    if sc == 'internal' or name in ('set', 'XMMin', 'XMMax') or '$type)' in ty: continue
    if name == 'XMVectorInsert':
        continue
    full = name if sc in ('', 'doc', 'private') else (sc + '::' + name)
    if full in seen: continue
    seen.add(full)
    setup, call, puts = [], [], []
    recv = None
    for i, t in enumerate(ty):
        a = 'a%d' % i
        def val(e, ref='', mut=False, put=None):
            if ref:
                setup.append('let %s = %s; let p%d = g.place(%s);' % (a, e, i, a))
                call.append('&mut *p%d' % i if mut else '&*p%d' % i)
                puts.append('o.put(*p%d);' % i if mut else 'o.same(*p%d, %s);' % (i, a))
                return
            setup.append('let %s = %s;' % (a, e))
            call.append(a)
        if t in ('FXMVECTOR', 'XMVECTOR', 'GXMVECTOR', 'HXMVECTOR'): val('g.v()')
        elif t == 'CXMVECTOR': val('g.v()', '&')
        elif t in ('&mut XMVECTOR', '&mut FXMVECTOR'): val('g.ov()', '&mut ', True)
        elif t == 'Option<&mut XMVECTOR>':
            setup.append('let %s = g.ov(); let p%d = g.place(%s);' % (a, i, a)); call.append('Some(&mut *p%d)' % i); puts.append('o.put(*p%d);' % i)
        elif t in ('FXMMATRIX', 'XMMATRIX'): val('g.m()')
        elif t == 'CXMMATRIX': val('g.m()', '&')
        elif t == 'f32': val('g.f()')
        elif t == '&f32': val('g.f()', '&')
        elif t == '&mut f32': val('g.of()', '&mut ', True)
        elif t == '&mut u32': val('g.ou()', '&mut ', True)
        elif t == 'u32':
            d = DOM.get(name)
            if name == 'XMVectorSetIntByIndex': d = None
            val('g.idx(%d)' % d if d else 'g.u()')
        elif t == 'usize': val('g.idx(%d) as usize' % DOM[name])
        elif t == 'i32': val('g.idx(31) as i32 - 15')
        elif t == 'HALF': val('g.u() as u16')
        elif t == 'bool': val('g.idx(2) == 1')
        elif t == '&self': recv = sc; setup.append('let %s = g.%s(); let p%d = g.place(%s);' % (a, sc, i, a)); puts.append('o.same(*p%d, %s);' % (i, a))
        elif t == '&mut Self': val('g.o%s()' % sc, '&mut ', True)
        elif t == '&Self': val('g.%s()' % sc, '&')
        elif t.startswith('&Bounding'): val('g.%s()' % t[1:], '&')
        elif t.startswith('impl Iterator'):
            setup.append('let k%d = g.pts(); let %s = g.place_slice(&k%d);' % (i, a, i)); call.append('%s.iter()' % a); puts.append('for (x, y) in k%d.iter().zip(%s.iter()) { o.same(*x, *y); }' % (i, a))
        elif re.match(r'&mut \[XMFLOAT3', t): val('[XMFLOAT3::from(g.ofs::<3>()); 8]', '&mut ', True)
        elif re.match(r'&(mut )?\[u32; (\d)\]', t):
            mu = 'mut' in t; n = re.search(r'; (\d)', t).group(1)
            val('g.%s::<%s>()' % ('ous' if mu else 'us', n), '&mut ' if mu else '&', mu)
        elif re.match(r'&(mut )?(Align16<)?XMFLOAT(\w+)>?$', t):
            mu = 'mut' in t; al = 'Align16' in t
            n = re.search(r'XMFLOAT(\w+)', t).group(1)
            cnt = eval(n.replace('X', '*'))
            e = 'XMFLOAT%s::from(g.%s::<%d>())' % (n, 'ofs' if mu else 'fs', cnt)
            if al: e = 'Align16(%s)' % e
            val(e, '&mut ' if mu else '&', mu)
        else:
            raise SystemExit((full, t))
    target = ('p0.' + name) if recv else ({'triangle_tests': 'triangle_tests::' + name}.get(sc, full))
    c = '%s(%s)' % (target, ', '.join(call))
    stmt = 'let r = %s; o.put(r);' % c if ret else c + ';'
    L.append('    ("%s", %s, |g| { let mut o = O::new(); %s %s %s o.0 }),' % (full, 'true' if dbg else 'false', ' '.join(setup), stmt, ' '.join(puts)))
print(len(L), file=sys.stderr)
for n in ['BoundingSphere', 'BoundingBox', 'BoundingOrientedBox', 'BoundingFrustum']:
    pass
open('/verif/harness/src/calls_table.rs', 'w').write('// Generated by gen_calls.py: one entry per public function: (name, has debug preconditions, call).\npub const CALLS: &[(&str, bool, fn(&mut G) -> Vec<u32>)] = &[\n' + '\n'.join(L) + '\n];\n')
