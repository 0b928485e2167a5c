#!/usr/bin/env python3
"""Writes invocations of the macros of hcl-rs and what they stand for.
gen_macros.py: macros/src/cases.rs; gen_macros.py <file> <seed> <factor>: other and more cases."""
import random, os, re, sys
A = sys.argv[1:]
R = random.Random(20240607 if not A else int(A[1]) + 77)
FACTOR = int(A[2]) if A else 1
# Whether the case uses no Rust expressions (so that it has the same text in HCL).
PLAIN = False
TICK = 0
STR = ['', 'a', 'b c', 'é日本😀', 'q"x', 'back\\slash', 'tab\tnew\nline', '$${x}', '%%', '${var.a}', '%{ if x }', 'true', 'null', '#', '//', '{}', '[1, 2]', 'a.b', '-', '1']
IDS = ['a', 'b', 'foo', 'bar_baz', 'x1', '_u', 'type', 'match', 'resource', 'self', 'long_identifier_of_many_bytes', 'é', 'object', 'elems', 'key', 'value', 'copy']

def lit(s):
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in s) + '"'

class X:
    """m: tokens of the macro; tt: whether these are one token tree; e, v: the expression and value meant; t: HCL text; n: whether it depends on the variables; kind"""
    def __init__(s, m, e, v, tt=True, t=None, kind=''):
        s.m, s.e, s.v, s.tt, s.t, s.kind = m, e, v, tt, t, kind

def num(m, n, tt=True, t=None):
    return X(m, f'E::Number(Number::from({n}))', f'V::Number(Number::from({n}))', tt, t, 'number')

# Locals of a case: s: String, st: &'static str, u: u64, i: i64, f: f64, b: bool, o: Option<u64>,
# l: Vec<u64>, e: Expression, w: Value, we: the expression of that value, id: &str
def leaf(value):
    global TICK
    k = R.choice([0, 1, 2, 4, 5, 6]) if PLAIN else R.randrange(17)
    if k >= 15:
        TICK += 1
        m = f't({TICK})'
        tt = R.random() < .5
        return X(f'({m})' if tt else m, f'E::Number(Number::from({TICK}))', f'V::Number(Number::from({TICK}))', tt, kind='counted')
    if k == 0: return X('null', 'E::Null', 'V::Null', t='null', kind='null')
    if k == 1:
        b = R.choice(['true', 'false'])
        return X(b, f'E::Bool({b})', f'V::Bool({b})', t=b, kind='bool')
    if k == 2:
        n = R.choice(['0', '42', '1.5', '0.25', '2147483647'])
        m = n
        return X(m, f'E::Number(Number::from({n}))' if '.' not in n else f'E::Number(Number::from_f64({n}).unwrap())',
                 f'V::Number(Number::from({n}))' if '.' not in n else f'V::Number(Number::from_f64({n}).unwrap())', t=n, kind='number literal')
    if k == 3:
        n = R.choice(['18446744073709551615u64', '7u8', '9i64'])
        return num(n, n)
    if k == 4:
        return X('-3', 'E::Number(Number::from(-3))', 'V::Number(Number::from(-3))', False, '-3', 'negative number')
    if k in (5, 6):
        s = R.choice(STR)
        t = lit(s) if '{' not in s else None
        return X(lit(s), f'E::String({lit(s)}.to_string())', f'V::String({lit(s)}.to_string())', t=t, kind='string literal')
    name, e, v = R.choice([
        ('s', 'E::String(s.clone())', 'V::String(s.clone())'),
        ('st', 'E::String(st.to_string())', 'V::String(st.to_string())'),
        ('u', 'E::Number(Number::from(u))', 'V::Number(Number::from(u))'),
        ('i', 'E::Number(Number::from(i))', 'V::Number(Number::from(i))'),
        ('f', 'E::Number(Number::from_f64(f).unwrap())', 'V::Number(Number::from_f64(f).unwrap())'),
        ('b', 'E::Bool(b)', 'V::Bool(b)'),
        ('o', 'o.map_or(E::Null, |n| E::Number(Number::from(n)))', 'o.map_or(V::Null, |n| V::Number(Number::from(n)))'),
        ('l', 'E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())', 'V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect())'),
        ('w', 'we.clone()', 'w.clone()'),
    ] + ([] if value else [('e', 'e.clone()', '')] * 2))
    if k <= 9: return X(name, e, v, kind='variable ' + name)
    if k <= 11: return X(f'({name})', e, v, kind='parentheses')
    m, e, v = R.choice([
        ('u / 2 + 1', 'E::Number(Number::from(u / 2 + 1))', 'V::Number(Number::from(u / 2 + 1))'),
        ('s.len() as u64', 'E::Number(Number::from(s.len() as u64))', 'V::Number(Number::from(s.len() as u64))'),
        ('format!("{s}-{u}")', 'E::String(format!("{s}-{u}"))', 'V::String(format!("{s}-{u}"))'),
        ('vec![i, 1]', 'E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])', 'V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(1))])'),
        ('Some(st)', 'E::String(st.to_string())', 'V::String(st.to_string())'),
        ('(u, &s)', 'E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])', 'V::Array(vec![V::Number(Number::from(u)), V::String(s.clone())])'),
        ('if b { 1u64 } else { 2 }', 'E::Number(Number::from(if b { 1u64 } else { 2 }))', 'V::Number(Number::from(if b { 1u64 } else { 2 }))'),
        ('!b', 'E::Bool(!b)', 'V::Bool(!b)'),
        ("'c'", 'E::String("c".to_string())', 'V::String("c".to_string())'),
    ])
    if R.random() < .4: return X(f'({m})', e, v, kind='parentheses')
    return X(m, e, v, False, kind='Rust expression')

def key(value, used):
    while True:
        k = R.randrange(7)
        if PLAIN: k = R.choice([0, 1, 2, 4]) if not value else R.choice([0, 2])
        if k <= 1:
            n = R.choice(IDS + ['null', 'true', 'if'])
            r = (n, f'K::Identifier(ident({lit(n)}))', f'{lit(n)}.to_string()', n if n not in ('null', 'true') else None, 'identifier key')
        elif k <= 3:
            n = R.choice(STR)
            r = (lit(n), f'K::Expression(E::String({lit(n)}.to_string()))', f'{lit(n)}.to_string()', lit(n) if '{' not in n else None, 'string key')
        elif k == 4 and not value:
            r = R.choice([('7', 'K::Expression(E::Number(Number::from(7)))', '', '7', 'number key'),
                          ('-8', 'K::Expression(E::Number(Number::from(-8)))', '', '-8', 'number key')] +
                         ([] if PLAIN else [("'c'", 'K::Expression(E::String("c".to_string()))', '', None, 'char key')]))
        else:
            m, e, v = R.choice([
                ('(s)', 'K::Expression(E::String(s.clone()))', 's.clone()'),
                ('(st)', 'K::Expression(E::String(st.to_string()))', 'st.to_string()'),
                ('(format!("k{u}"))', 'K::Expression(E::String(format!("k{u}")))', 'format!("k{u}")'),
                ('("lit")', 'K::Expression(E::String("lit".to_string()))', '"lit".to_string()'),
            ] + ([] if value else [('(u)', 'K::Expression(E::Number(Number::from(u)))', ''), ('(e)', 'K::Expression(e.clone())', '')]))
            if m in ('(s)',): m, e, v = '(s.clone())', e, v
            r = (m, e, v, None, 'expression key')
        if r[0] not in used or R.random() < .05:
            used.add(r[0])
            return r

def expr(d, value):
    k = R.randrange(10)
    if d == 0 or k < 4:
        return leaf(value)
    n = R.choice([0, 1, 1, 2, 3, 4])
    if k < 7:
        xs = [expr(d - 1, value) for _ in range(n)]
        comma = ',' if n and R.random() < .3 else ''
        t = None if any(x.t is None for x in xs) else '[' + ', '.join(x.t for x in xs) + comma + ']'
        return X('[' + ', '.join(x.m for x in xs) + comma + ']', 'E::Array(vec![' + ', '.join(x.e for x in xs) + '])',
                 'V::Array(vec![' + ', '.join(x.v for x in xs) + '])', t=t, kind='array')
    used = set()
    items = [(key(value, used), expr(d - 1, value)) for _ in range(n)]
    m, t = '{ ', '{ '
    for j, (kk, x) in enumerate(items):
        last = j == n - 1
        # Without a comma the value needs to be one token tree, and `v (key)` would be a call.
        sep = R.choice(['', ',']) if x.tt and (last or not items[j + 1][0][0].startswith(('(', '-'))) else ','
        m += f'{kk[0]} = {x.m}{sep} '
        if t is not None:
            t = None if kk[3] is None or x.t is None else t + f'{kk[3]} = {x.t}{sep or chr(10)} '
    m += '}'
    if t is not None: t += '}'
    return X(m, 'obj(vec![' + ', '.join(f'({kk[1]}, {x.e})' for kk, x in items) + '])',
             'vobj(vec![' + ', '.join(f'({kk[2]}, {x.v})' for kk, x in items) + '])', t=t, kind='object')

def attr(d, used, any_expr=False):
    if PLAIN or R.random() < .75:
        n = R.choice([x for x in IDS + ['null'] if x not in used] or ['z%d' % len(used)])
        used.add(n)
        k, ke, kt = n, f'ident({lit(n)})', n
    else:
        k, ke, kt = R.choice([('(id)', 'ident(id)', None), ('(format!("k{u}"))', 'ident(&format!("k{u}"))', None)])
    while True:
        x = expr(d, False)
        if x.tt or any_expr: break
    return f'{k} = {x.m}', f'Attribute {{ key: {ke}, expr: {x.e} }}', None if kt is None or x.t is None else f'{kt} = {x.t}\n'

def block(d):
    if PLAIN or R.random() < .8:
        n = R.choice(IDS); k, ke, kt = n, f'ident({lit(n)})', n
    else: k, ke, kt = '(id)', 'ident(id)', None
    ms, ls, t = [], [], kt
    for _ in range(R.choice([0, 0, 1, 2, 3])):
        r = R.randrange(3 if PLAIN else 4)
        if r == 0:
            n = R.choice(IDS); ms.append(n); ls.append(f'L::Identifier(ident({lit(n)}))'); t = None if t is None else t + ' ' + n
        elif r <= 2:
            n = R.choice(STR); ms.append(lit(n)); ls.append(f'L::String({lit(n)}.to_string())'); t = None if t is None or '{' in n else t + ' ' + lit(n)
        else:
            m, e = R.choice([('(s.clone())', 's.clone()'), ('(st)', 'st.to_string()'), ('(format!("l{u}"))', 'format!("l{u}")'), ("'c'", '"c".to_string()')])
            ms.append(m); ls.append(f'L::String({e})'); t = None
    bm, be, bt = body(d - 1)
    return f'{k} {" ".join(ms)} {{ {bm} }}', f'Block {{ identifier: {ke}, labels: vec![{", ".join(ls)}], body: {be} }}', None if t is None or bt is None else t + ' {\n' + bt + '}\n'

def body(d):
    ms, es, t = [], [], ''
    used = set()
    for _ in range(R.choice([0, 1, 2, 2, 3, 4]) if d >= 0 else 0):
        if d > 0 and R.random() < .4:
            m, e, x = block(d); es.append(f'Structure::Block({e})')
        else:
            m, e, x = attr(R.choice([0, 0, 1, 2]), used); es.append(f'Structure::Attribute({e})')
        ms.append(m)
        t = None if t is None or x is None else t + x
    return '\n        '.join(ms), 'bod(vec![' + ', '.join(es) + '])', t


out, bare, names = [], [], []
TYPES = dict(expression='Expression', value='Value', body='Body', block='Block', attribute='Attribute', structure='Structure')

def case(kind, macro, want, text):
    n = len(names)
    t = 'None' if text is None else f'Some({lit(text)})'
    ticks = ', '.join(re.findall(r'\bt\((\d+)\)', macro))
    names.append(kind)
    bare.append(f"""    pub fn c{n}(x: &crate::Vars) -> hcl::{TYPES[kind]} {{
        let crate::Vars {{ s, st, u, i, f, b, o, l, e, w, we, id, t }} = x.clone();
        {macro}
    }}
""")
    out.append(f"""fn c{n}(x: &Vars) -> Outcome {{
    let Vars {{ s, st, u, i, f, b, o, l, e, w, we, id, t }} = x.clone();
    outcome({lit(kind)}, || bare::c{n}(x), {want}, {t}, &[{ticks}])
}}
""")

def times(n):
    global PLAIN
    for j in range(n * FACTOR):
        PLAIN = R.random() < .35
        yield j

for _ in times(130):
    x = expr(3, False)
    case('expression', f'hcl::expression!({x.m})', x.e, x.t)
for _ in times(110):
    x = expr(3, True)
    case('value', f'hcl::value!({x.m})', x.v, x.t)
for j in times(110):
    m, e, t = body(3)
    case('body', f'hcl::body!({{ {m} }})' if j % 3 else f'hcl::body!({m})', e, t)
for j in times(40):
    m, e, t = block(3)
    case('block', f'hcl::block!({{ {m} }})' if j % 3 == 0 else f'hcl::block!({m})', e, t)
for j in times(40):
    m, e, t = attr(3, set(), True)
    case('attribute', f'hcl::attribute!({{ {m} }})' if j % 3 == 0 else f'hcl::attribute!({m})', e, t)
for j in times(30):
    if j % 2:
        m, e, t = block(2); e = f'Structure::Block({e})'
    else:
        m, e, t = attr(2, set(), True); e = f'Structure::Attribute({e})'
    case('structure', f'hcl::structure!({{ {m} }})' if j % 3 == 0 else f'hcl::structure!({m})', e, t)
p = A[0] if A else os.path.join(os.path.dirname(__file__), '../macros/src/cases.rs')
with open(p, 'w') as f:
    f.write('// Written by tools/gen_macros.py.\nuse crate::*;\n\n// Nothing is imported here.\nmod bare {\n' + '\n'.join(bare) + '}\n\n' + '\n'.join(out) +
            '\npub const CASES: &[fn(&Vars) -> Outcome] = &[' + ', '.join(f'c{n}' for n in range(len(names))) + '];\n')
