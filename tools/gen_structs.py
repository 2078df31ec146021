#!/usr/bin/env python3
"""Generates mc/src/structs_gen.rs: #[define_varlen] structs over a grammar of field arrangements, each with
a harness view (Subj) whose expectations come from the specification here, not from the macro's expansion."""
import itertools, sys
OUT = sys.argv[1]

N_TYPES = ['u8', 'T8', 'u32', 'T16', 'u64', 'T2', 'A16', '[u8; 3]', 'T12']
C_TYPES = ['u8', 'u16', 'usize', 'bool', '(u8, u8)', 'u32']
V_TYPES = ['Str<u8>', 'Array<T8, u16>', 'FixedLen<u64>', 'Array<u64, u8>', 'Tup2<FixedLen<u8>, Str<u8>>',
           'W<Array<u16, u8>>', '@nested', 'Array<A64, u8>', 'FixedLen<T16>', 'Str<u16>', 'Array<T12, u32>']
A_TYPES = ['u16', 'T8', 'u8', 'u64', 'T16', 'A64', 'T2', 'TZ', '[u8; 3]', 'T64', '()']

class Rot:
    def __init__(s): s.i = {}
    def get(s, k, l):
        n = s.i.get(k, 0); s.i[k] = n + 1
        return l[n % len(l)]
rot = Rot()

def mod_name(s):
    out = ''
    prev = ''
    for ch in s:
        if ch.isupper() and out: out += '_'
        out += ch.lower()
    # convert_case also splits letters from digits
    res = ''
    for i, ch in enumerate(out):
        if i and (ch.isdigit() != out[i-1].isdigit()) and ch != '_' and out[i-1] != '_':
            res += '_'
        res += ch
    return res

def init_name(f):
    return f

structs = []  # (name, [(fname, class, ty, expr)])
def field_names(seq, style):
    names = {
        0: lambda i, c: f'{c.lower()}{"abcdefghijklmnopqrst"[i]}',
        1: lambda i, c: f'long_{c.lower()}_name_{"abcdefghijklmnopqrst"[i]}',
        2: lambda i, c: 'xyzwvutsrqponml'[i],
    }[style]
    return [names(i, c) for i, c in enumerate(seq)]

def exprs_for(ctls):
    """length expressions over the controllers [(name, ty)] (rust text with names deref'd, reference text over c[i])"""
    out = []
    for i, (n, t) in enumerate(ctls):
        if t == 'bool':
            out += [(f'if *{n} {{ 3 }} else {{ 1 }}', f'if c[{i}] != 0 {{ 3 }} else {{ 1 }}')]
        elif t == '(u8, u8)':
            out += [(f'{n}.0 as usize + {n}.1 as usize', f'(c[{i}] & 255) + (c[{i}] >> 8)'),
                    (f'{n}.1 as usize', f'c[{i}] >> 8')]
        elif t == 'CT':
            out += [(f'{n}.n as usize', f'c[{i}]')]
        else:
            out += [(f'*{n} as usize', f'c[{i}]'), (f'(*{n} as usize) / 2', f'c[{i}] / 2'),
                    (f'(*{n} as usize + 1) & 7', f'(c[{i}] + 1) & 7')]
    ints = [(i, n) for i, (n, t) in enumerate(ctls) if t not in ('bool', '(u8, u8)', 'CT')]
    if len(ints) >= 2:
        (i, a), (j, b) = ints[0], ints[1]
        out += [(f'*{a} as usize + *{b} as usize', f'c[{i}] + c[{j}]'),
                (f'if *{a} as usize > *{b} as usize {{ *{a} as usize - *{b} as usize }} else {{ 0 }}', f'c[{i}].saturating_sub(c[{j}])'),
                (f'((*{a} as usize) * (*{b} as usize)) % 9', f'(c[{i}] * c[{j}]) % 9')]
    if not ctls:
        out = [('2', '2'), ('0', '0'), ('5', '5'), ('1 + 2', '3')]
    return out

def add(seq, style=0, over=None, attr='', generics=None):
    idx = len(structs)
    name = f'S{"ABCDEFGHIJKLMNOPQRSTUVWXYZ"[idx // 26]}{"abcdefghijklmnopqrstuvwxyz"[idx % 26]}'
    fn = field_names(seq, style)
    over = over or {}
    tys = []
    for i, c in enumerate(seq):
        if i in over and over[i][0]:
            tys.append(over[i][0]); continue
        tys.append(rot.get(c, {'N': N_TYPES, 'C': C_TYPES, 'V': V_TYPES, 'A': A_TYPES}[c]))
    for i, t in enumerate(tys):
        if t == '@nested':
            cand = [s for s in structs if s['depth'] == 0 and any(f[1] in 'VA' for f in s['fields'])]
            tys[i] = cand[(len(structs) * 7) % len(cand)]['name'] if cand else 'Str<u8>'
    names = {s['name']: s for s in structs}
    depth = max([names[t]['depth'] + 1 for t in tys if t in names], default=0)
    ctls = [(fn[i], tys[i]) for i, c in enumerate(seq) if c == 'C']
    ex = exprs_for(ctls)
    fields = []
    for i, c in enumerate(seq):
        e = None
        if c == 'A':
            e = over[i][1] if i in over and len(over[i]) > 1 else rot.get(('ex', tuple(t for _, t in ctls)), ex)
        fields.append((fn[i], c, tys[i], e))
    structs.append(dict(name=name, fields=fields, ctls=ctls, depth=depth, attr=attr, generics=generics))
    return name

FEW = '--few' in sys.argv
FOUR = '--four' in sys.argv   # every order of four fields
for n in () if FEW else (4,) if FOUR else (1, 2, 3):
    for seq in itertools.product('NCVA', repeat=n):
        add(''.join(seq), style=(len(structs) % 3))
LONG = ['CAAA', 'CCAA', 'NVNV', 'VVVV', 'AVAV', 'CAVA', 'NCVA', 'AVCN', 'CNAV', 'VCNA', 'CCAAVN', 'AACCVV', 'NNNN', 'CVCVA', 'ANANC',
        'CAAAAA', 'VVVVVV', 'CCCAAA', 'NACVNACV', 'VAVAVC']
for s in ['N', 'V', 'CA', 'NVA', 'CAVA', 'VNAV', 'CCAAVN'] if FEW else [] if FOUR else LONG:
    add(s, style=len(structs) % 3, attr='#[repr(C)]' if len(structs) % 4 == 0 else '')
def ladders():
    # alignment ladders: ascending and descending, arrays and fields
    add('CAAAA', 0, {0: ('u8',), 1: ('u8', ('*ca as usize', 'c[0]')), 2: ('u16', ('*ca as usize', 'c[0]')), 3: ('u32', ('*ca as usize', 'c[0]')), 4: ('u64', ('*ca as usize', 'c[0]'))})
    add('CAAAA', 0, {0: ('u8',), 1: ('u64', ('*ca as usize', 'c[0]')), 2: ('u32', ('*ca as usize', 'c[0]')), 3: ('u16', ('*ca as usize', 'c[0]')), 4: ('u8', ('*ca as usize', 'c[0]'))})
    add('CAAAA', 0, {0: ('u8',), 1: ('u8', ('*ca as usize', 'c[0]')), 2: ('A64', ('(*ca as usize) / 2', 'c[0] / 2')), 3: ('u8', ('*ca as usize + 1', 'c[0] + 1')), 4: ('A16', ('*ca as usize', 'c[0]'))})
    add('VVVV', 0, {0: ('FixedLen<u8>',), 1: ('FixedLen<u16>',), 2: ('FixedLen<u32>',), 3: ('FixedLen<u64>',)})
    add('VVVV', 0, {0: ('Array<u8, u8>',), 1: ('Array<T8, u8>',), 2: ('Array<u8, u8>',), 3: ('Array<T16, u8>',)})
    # same arrays, all destructible; only one destructible in different places
    for pos in range(4):
        t = ['u16', 'u8', 'u32', 'u64']; t[pos] = 'T8'
        add('CAAAA', 0, {0: ('u8',), **{k + 1: (t[k], ('*ca as usize', 'c[0]')) for k in range(4)}})
    for pos in range(3):
        t = ['Str<u8>'] * 3; t[pos] = 'Array<T12, u8>'
        add('VVV', 1, {k: (t[k],) for k in range(3)})
    add('NCAV', 0, {0: ('T8',), 1: ('u8',), 2: ('u8', ('*cb as usize', 'c[0]')), 3: ('Str<u8>',)})
    # one destructible part, of no size, in every kind of position
    L = ('*ca as usize', 'c[0]')
    add('NVN', 0, {0: ('TZ',), 1: ('Str<u8>',), 2: ('u32',)})
    add('NVN', 0, {0: ('u8',), 1: ('Str<u8>',), 2: ('TZ16',)})
    add('CNA', 0, {0: ('u8',), 1: ('TZ',), 2: ('u16', L)})
    add('CANA', 0, {0: ('u8',), 1: ('u16', L), 2: ('u8',), 3: ('TZ', L)})
    add('CAAV', 0, {0: ('u8',), 1: ('TZ', L), 2: ('u16', L), 3: ('Str<u8>',)})
    add('VVN', 0, {0: ('FixedLen<TZ>',), 1: ('Str<u8>',), 2: ('u8',)})
    add('NVV', 0, {0: ('u8',), 1: ('Str<u8>',), 2: ('FixedLen<TZ16>',)})
    add('VVV', 0, {0: ('Str<u8>',), 1: ('Array<TZ, u8>',), 2: ('FixedLen<u16>',)})
    add('VNV', 0, {0: ('Tup2<FixedLen<u8>, FixedLen<TZ>>',), 1: ('u16',), 2: ('W<Str<u8>>',)})
    add('NNNV', 0, {0: ('u8',), 1: ('T2',), 2: ('u64',), 3: ('Str<u8>',)})
    # length-controlling fields that own something
    D = ('ca.n as usize', 'c[0]')
    add('CA', 0, {0: ('CT',), 1: ('u16', D)})
    add('CA', 1, {0: ('CT',), 1: ('T8', ('long_c_name_a.n as usize', 'c[0]'))})
    add('CAV', 0, {0: ('CT',), 1: ('u8', ('(ca.n as usize) / 2', 'c[0] / 2')), 2: ('Str<u8>',)})
    add('NCVA', 0, {0: ('T2',), 1: ('CT',), 2: ('Array<T12, u32>',), 3: ('T16', ('cb.n as usize', 'c[0]'))})
    add('CCAA', 0, {0: ('u8',), 1: ('CT',), 2: ('u64', ('*ca as usize', 'c[0]')), 3: ('u8', ('cb.n as usize', 'c[1]'))})
    add('CACA', 0, {0: ('CT',), 1: ('u8', D), 2: ('CT',), 3: ('T8', ('ca.n.wrapping_add(cc.n) as usize', '(c[0] + c[1]) & 65535'))})
    add('C', 0, {0: ('CT',)})
    add('CV', 0, {0: ('CT',), 1: ('FixedLen<u8>',)})
    # parts of no size, aligned; parts aligned to 256 and 4096
    add('CANAV', 0, {0: ('u8',), 1: ('[u64; 0]', L), 2: ('u8',), 3: ('u8', L), 4: ('Str<u8>',)})
    add('CAAA', 0, {0: ('u8',), 1: ('u8', L), 2: ('[u64; 0]', L), 3: ('u8', L)})
    add('CAAA', 0, {0: ('u8',), 1: ('u8', L), 2: ('TZ16', L), 3: ('u8', L)})
    add('VVV', 0, {0: ('Str<u8>',), 1: ('Array<[u64; 0], u8>',), 2: ('Array<u8, u8>',)})
    add('VVVN', 0, {0: ('Array<u8, u8>',), 1: ('FixedLen<[u64; 0]>',), 2: ('FixedLen<u8>',), 3: ('u8',)})
    add('CAA', 0, {0: ('u8',), 1: ('u8', L), 2: ('A256', L)})
    add('VVV', 0, {0: ('FixedLen<u8>',), 1: ('FixedLen<A4096>',), 2: ('Str<u8>',)})
    add('CAA', 0, {0: ('u8',), 1: ('A256', ('(*ca as usize) / 2', 'c[0] / 2')), 2: ('u8', L)})
def wide():
    # many fields: what comes after the eighth
    L = ('*ca as usize', 'c[0]')
    add('CAAAAAAAAAAA', 0, {0: ('u8',), **{k: (['u8', 'T8', 'u16', 'T2', 'u64', 'u8', 'T16', 'A16', 'T12', 'u8', 'T8'][k - 1], L) for k in range(1, 12)}})
    add('VVVVVVVVVVVV', 0, {k: (t,) for k, t in enumerate(['Str<u8>', 'FixedLen<u8>', 'FixedLen<T8>', 'FixedLen<u64>', 'FixedLen<u8>', 'FixedLen<T2>', 'FixedLen<u16>', 'FixedLen<u8>',
        'Array<T8, u8>', 'FixedLen<T16>', 'Str<u8>', 'FixedLen<T12>'])})
    add('NNNNNNNNNNNNV', 0, {0: ('u8',), 7: ('T2',), 8: ('T8',), 9: ('u64',), 11: ('T16',), 12: ('Array<T8, u8>',)})
    add('NCAVNCAVNCAVN', 0, {1: ('u8',), 2: ('T8', ('*cb as usize', 'c[0]')), 3: ('Str<u8>',), 5: ('u16',), 6: ('u16', ('*cf as usize', 'c[1]')), 7: ('FixedLen<u64>',), 8: ('T8',),
        9: ('bool',), 10: ('T16', ('if *cj { *cb as usize } else { *cf as usize }', 'if c[2] != 0 { c[0] } else { c[1] }')), 11: ('FixedLen<T12>',), 12: ('T2',)})
    add('CANNNNNNNVCACA', 0, {0: ('u8',), 1: ('u8', ('*ca as usize', 'c[0]')), 9: ('FixedLen<T8>',), 10: ('u8',), 11: ('T12', ('*ck as usize', 'c[1]')), 12: ('bool',),
        13: ('T8', ('if *cm { *ck as usize } else { *ca as usize }', 'if c[2] != 0 { c[1] } else { c[0] }'))})
    add('NNNNNNNNCA', 0, {8: ('u8',), 9: ('T8', ('*ci as usize', 'c[0]'))})
if not FEW and not FOUR: ladders(); wide()
def generics():
    """generic structs, used with arguments other than the parameters' defaults"""
    def g(seq, conc, decl, args, ftys, where=''):
        add(seq, len(structs) % 3, conc, generics=dict(decl=decl, args=args, ftys=ftys, where=where))
    L = ('*{c} as usize', 'c[0]')
    g('V', {0: ('Array<T8, u16>',)}, 'P: Clone = u8', 'T8', {0: 'Array<P, u16>'})
    g('CA', {0: ('u8',), 1: ('T16',)}, 'P: Clone = u8', 'T16', {1: 'P'})
    g('CA', {0: ('u16',), 1: ('A64',)}, 'P: Clone + Default = u8', 'A64', {1: 'P'})
    g('NV', {1: ('Str<u16>',)}, 'Q: VarLen = FixedLen<u8>', 'Str<u16>', {1: 'Q'})
    g('VNV', {0: ('Array<u8, u8>',), 2: ('FixedLen<T16>',)}, 'Q: VarLen = FixedLen<u8>', 'FixedLen<T16>', {2: 'Q'})
    g('NCAVA', {1: ('u8',), 2: ('T8',), 3: ('Array<T12, u32>',), 4: ('u16',)}, 'P: Clone = u8, Q: Clone = u8', 'T8, T12', {2: 'P', 3: 'Array<Q, u32>'})
    g('NCA', {1: ('u8',), 2: ('[u8; 3]',)}, 'const K: usize = 1', '3', {2: '[u8; K]'})
    g('CVA', {0: ('u8',), 1: ('Tup2<FixedLen<u8>, Str<u8>>',), 2: ('u64',)}, 'Q: VarLen = FixedLen<u8>, R: VarLen = FixedLen<u8>, P: Clone = u8', 'FixedLen<u8>, Str<u8>, u64', {1: 'Tup2<Q, R>', 2: 'P'})
    g('NV', {1: ('Array<T2, u8>',)}, 'P = u8', 'T2', {1: 'Array<P, u8>'}, 'where P: Clone')
    g('NVVN', {1: ('W<Array<u16, u8>>',), 2: ('Array<u64, u8>',)}, 'Q: VarLen = Str, P: Copy = u8', 'Array<u16, u8>, u64', {1: 'W<Q>', 2: 'Array<P, u8>'})
if not FEW and not FOUR: generics()

def ctl_enc(t, e):   # rust expr of u64 from &t expr
    if t == 'bool': return f'(*{e}) as u64'
    if t == 'CT': return f'{e}.val()'
    if t == '(u8, u8)': return f'({e}.0 as u64 | ({e}.1 as u64) << 8)'
    return f'*{e} as u64'
def ctl_dec(t, x):
    if t == 'bool': return f'({x} != 0)'
    if t == 'CT': return f'CT::mk({x})'
    if t == '(u8, u8)': return f'(({x} & 255) as u8, ({x} >> 8) as u8)'
    return f'({x} as {t})'
def ctl_dom(t):
    """rust expr mapping a length `l: usize` to a controller value"""
    if t == 'bool': return '(l & 1)'
    if t == '(u8, u8)': return '((l & 255) | ((l / 2) & 255) << 8)'
    if t == 'u8': return 'l.min(255)'
    if t in ('u16', 'CT'): return 'l.min(65535)'
    return 'l'

o = []
w = o.append
w('// @generated by tools/gen_structs.py\n#![allow(dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments, unreachable_patterns, non_camel_case_types)]')
w('use crate::subj::*;\nuse crate::tok::*;\nuse crate::newt::W;\nuse crate::alloc::host;\nuse std::pin::Pin;\nuse varlen::prelude::*;\nuse varlen::{VClone, define_varlen};\nuse varlen::array_init::CloneFrom;\n')
for s in structs:
    N = s['name']; m = mod_name(N); F = s['fields']; ctls = s['ctls']
    G = s['generics']
    if G:
        m = mod_name('Gen' + N)
        w(f'#[define_varlen]\n{s["attr"]}\npub struct Gen{N}<{G["decl"]}> {G["where"]} {{')
    else:
        w(f'#[define_varlen]\n{s["attr"]}\npub struct {N} {{')
    for i, (f, c, t, e) in enumerate(F):
        if G: t = G['ftys'].get(i, t)
        if c == 'N': w(f'    pub {f}: {t},')
        if c == 'C': w(f'    #[controls_layout]\n    pub {f}: {t},')
        if c == 'V': w(f'    #[varlen]\n    pub {f}: {t},')
        if c == 'A': w(f'    #[varlen_array]\n    pub {f}: [{t}; {e[0]}],')
    w('}')
    if G: w(f'pub type {N} = Gen{N}<{G["args"]}>;')
    rc = '#[repr(C)] ' if 'repr' in s['attr'] else ''
    w(f'{rc}struct Mirror{N} {{ ' + ', '.join(f'{f}: {t}' for f, c, t, e in F if c in 'NC') + ' }')
    # expected array lengths
    arrs = [(f, t, e) for f, c, t, e in F if c == 'A']
    w(f'pub fn lens_{N}(c: &[usize]) -> [usize; {len(arrs)}] {{ [' + ', '.join(f'{e[1]}' for f, t, e in arrs) + '] }')
    dirp, clop = [], []
    for f, c, t, e in F:
        if c == 'V': dirp.append(f"AnyInit<'e, {t}>"); clop.append(f"<{t} as VClone<'e>>::Cloner")
        if c == 'A': dirp.append(f"ArrInit<'e, {t}>"); clop.append(f"CloneFrom<'e, {t}>")
    w(f"impl<'e> VClone<'e> for {N} {{\n    type Cloner = {m}::Init<{', '.join(clop)}>;\n    fn vclone(&'e self) -> Self::Cloner {{ let r = self.refs(); {m}::Init {{")
    for f, c, t, e in F:
        if c == 'V': w(f'        {f}: r.{f}.vclone(),')
        elif c == 'A': w(f'        {f}: CloneFrom(r.{f}),')
        else: w(f'        {f}: self.{f}.clone(),')
    w('    } }\n}')
    w(f'impl Subj for {N} {{')
    w(f"    type Direct<'e> = {m}::Init<{', '.join(dirp)}>;")
    w(f"    type Clo<'e> = <{N} as VClone<'e>>::Cloner;")
    w(f'    fn name() -> String {{ "{N}".into() }}')
    def each(fn): return ' '.join(fn(*x) for x in F)
    w('    fn kinds(out: &mut Vec<Kind>) { ' + each(lambda f, c, t, e: {'N': f'out.push(Kind::Fixed(<{t} as Pay>::MASK));', 'C': 'out.push(Kind::Ctl);', 'V': f'<{t}>::kinds(out);', 'A': f'out.push(Kind::Dep(<{t} as Pay>::MASK));'}[c]) + ' }')
    w('    fn toks(out: &mut Vec<bool>) { ' + each(lambda f, c, t, e: {'N': f'out.push(<{t} as Pay>::TOK);', 'C': 'out.push(true);' if t == 'CT' else 'out.push(false);', 'V': f'<{t}>::toks(out);', 'A': f'out.push(<{t} as Pay>::TOK);'}[c]) + ' }')
    # shapes: choose controllers and varlen shapes, derive array lengths
    w('    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {')
    w('        let mut cs: Vec<Vec<usize>> = vec![vec![]];')
    for n, t in ctls:
        w(f'        {{ let mut o: Vec<usize> = ls.iter().map(|&l| {ctl_dom(t)}).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| {{ let mut q = p.clone(); q.push(x); q }}).collect::<Vec<_>>()).collect(); }}')
    w('        let mut out = vec![];\n        for c in cs {\n            let al = lens_' + N + '(&c);\n            let mut acc: Vec<Vec<usize>> = vec![vec![]];')
    ci = ai = 0
    for f, c, t, e in F:
        if c == 'N': opt = 'vec![vec![1usize]]'
        if c == 'C': opt = f'vec![vec![c[{ci}]]]'; ci += 1
        if c == 'V': opt = f'<{t}>::shapes(ls)'
        if c == 'A': opt = f'vec![vec![al[{ai}]]]'; ai += 1
        w(f'            {{ let o: Vec<Vec<usize>> = {opt}; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| {{ let mut q = p.clone(); q.extend_from_slice(x); q }}).collect::<Vec<_>>()).collect(); }}')
    w('            out.extend(acc);\n        }\n        out\n    }')
    # make: nested parts make their own
    w('    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;')
    for f, c, t, e in F:
        if c == 'N': w(f'        out.push(vec![cell(seed, at, 0) & <{t} as Pay>::MASK]); at += 1;')
        if c == 'C': w('        out.push(vec![lens[at] as u64]); at += 1;')
        if c == 'V': w(f'        {{ let k = <{t}>::leaves(); out.extend(<{t}>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }}')
        if c == 'A': w(f'        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <{t} as Pay>::MASK).collect()); at += 1;')
    w('        out\n    }')
    al = [f'std::mem::align_of::<Mirror{N}>()'] + [f'<{t}>::r_align()' if c == 'V' else f'std::mem::align_of::<{t}>()' for f, c, t, e in F if c in 'VA']
    w('    fn r_align() -> usize { [' + ', '.join(al) + '].into_iter().max().unwrap() }')
    w(f'    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize {{ let mut size = std::mem::size_of::<Mirror{N}>(); let mut at = 0;')
    for f, c, t, e in F:
        if c in 'NC': w(f'        out.push((base + std::mem::offset_of!({N}, {f}), std::mem::size_of::<{t}>())); at += 1;')
        if c == 'V': w(f'        {{ let k = <{t}>::leaves(); size = up(size, <{t}>::r_align()); size += <{t}>::r_layout(&lens[at..at + k], base + size, out); at += k; }}')
        if c == 'A': w(f'        size = up(size, std::mem::align_of::<{t}>()); {{ let n = lens[at] * std::mem::size_of::<{t}>(); out.push((base + size, n)); size += n; at += 1; }}')
    w('        size\n    }')
    w(f"    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> {{ let mut at = 0;")
    # build variable parts first (they may allocate), in declaration order
    for f, c, t, e in F:
        if c == 'N': w(f'        let l_{f} = <{t} as Pay>::mk(v[at][0]); at += 1;')
        if c == 'C': w(f'        let l_{f}: {t} = {ctl_dec(t, "v[at][0]")}; at += 1;')
        if c == 'V': w(f'        let l_{f} = {{ let k = <{t}>::leaves(); let i = any::<{t}>(&v[at..at + k], ch, env); at += k; i }};')
        if c == 'A': w(f'        let l_{f} = arr_init::<{t}>(&v[at], ch, env); at += 1;')
    w(f'        {m}::Init {{ ' + ', '.join(f'{f}: l_{f}' for f, c, t, e in F) + ' }\n    }')
    w("    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }")
    w('    fn read(&self, out: &mut Val) { let r = self.refs();')
    for f, c, t, e in F:
        if c == 'N': w(f'        out.push(vec![r.{f}.val()]); if !std::ptr::eq(r.{f}, &self.{f}) {{ crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().{f} is not the header field".into()); }}')
        if c == 'C': w(f'        out.push(vec![{ctl_enc(t, f"r.{f}")}]);')
        if c == 'V': w(f'        r.{f}.read(out);')
        if c == 'A': w(f'        if r.{f}.len() > 1 << 20 {{ crate::fail!("length {{}} of {f} is absurd", r.{f}.len()); }} out.push(r.{f}.iter().map(|p| p.val()).collect());')
    w('    }')
    w('    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();')
    for f, c, t, e in F:
        if c in 'NC': w(f'        out.push((r.{f} as *const {t} as usize, std::mem::size_of::<{t}>()));')
        if c == 'V': w(f'        r.{f}.parts(out);')
        if c == 'A': w(f'        out.push((r.{f}.as_ptr() as usize, std::mem::size_of_val(r.{f})));')
    w('    }')
    w('    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;')
    for f, c, t, e in F:
        if c == 'N': w(f'        if leaf == at {{ let p = host(|| <{t} as Pay>::mk(x)); *m.{f} = p; return; }} at += 1;')
        if c == 'C': w('        if leaf == at { return; } at += 1;')
        if c == 'V': w(f'        {{ let k = <{t}>::leaves(); if leaf >= at && leaf < at + k {{ return <{t}>::set(m.{f}, leaf - at, idx, x); }} at += k; }}')
        if c == 'A': w(f'        if leaf == at {{ let p = host(|| <{t} as Pay>::mk(x)); m.{f}[idx] = p; return; }} at += 1;')
    w('    }')
    w('    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;')
    for f, c, t, e in F:
        if c == 'N': w(f'        {{ let x = f(at, 0, m.{f}.val()); *m.{f} = host(|| <{t} as Pay>::mk(x)); at += 1; }}')
        if c == 'C': w('        at += 1;')
        if c == 'V': w(f'        <{t}>::set_all(m.{f}, at, f); at += <{t}>::leaves();')
        if c == 'A': w(f'        for (i, p) in m.{f}.iter_mut().enumerate() {{ let x = f(at, i, p.val()); *p = host(|| <{t} as Pay>::mk(x)); }} at += 1;')
    w('    }\n}')
    # controllers
    w(f'impl Ctl for {N} {{')
    w(f'    const NCTL: usize = {len(ctls)};')
    w('    fn ctl_types() -> Vec<&\'static str> { vec![' + ', '.join(f'"{t}"' for _, t in ctls) + '] }')
    w('    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; ' + each(lambda f, c, t, e: {'C': 'o.push(at); at += 1;', 'V': f'at += <{t}>::leaves();'}.get(c, 'at += 1;')) + ' o }')
    ks = iter(range(99)); ja = iter(range(99))
    w('    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; ' + ' '.join({'N': 'q.push(1);', 'V': f'q.extend(<{t}>::shapes(&[l])[0].iter());'}[c] if c in 'NV' else {'C': lambda: f'q.push(c[{next(ks)}]);', 'A': lambda: f'q.push(al[{next(ja)}]);'}[c]() for f, c, t, e in F) + ' q }')
    w(f'    fn arr_lens(c: &[usize]) -> Vec<usize> {{ lens_{N}(c).to_vec() }}')
    w('    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(' + f'{m}::LayoutControllers {{ ' + ', '.join(f'{n}: {ctl_dec(t, f"c[{i}]")}' for i, (n, t) in enumerate(ctls)) + ' }).is_ok() }')
    w('    fn ctl_direct(&self) -> Vec<u64> { vec![' + ', '.join(ctl_enc(t, f'(&self.{n})') for n, t in ctls) + '] }')
    w('    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![' + ', '.join(ctl_enc(t, f'm.{n}') for n, t in ctls) + '] }')
    w('}')
MOD = 'structs_few' if FEW else 'structs_four' if FOUR else 'structs_gen'
w('#[macro_export]\nmacro_rules! ' + ('few_structs' if FEW else 'four_structs' if FOUR else 'for_structs') + ' { ($f:ident, $($a:expr),*) => {')
for s in structs: w(f'    $f::<$crate::{MOD}::{s["name"]}>($($a),*);')
w('} }')
w(f'pub const COUNT: usize = {len(structs)};')
open(OUT, 'w').write('\n'.join(o) + '\n')
print(len(structs), 'structs', len('\n'.join(o)) // 1024, 'KiB')
