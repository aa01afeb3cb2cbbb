"""Mechanical extraction of functions of /repo into a Verus crate.

The text of every function comes from /repo's current source on every run.  What is done to
it is listed here and counted in the report; nothing else is changed:
  * attributes, doc comments and visibility are dropped or normalised (`pub`), `async` and
    `.await` are dropped (units that ask for it),
  * println!/eprintln! are dropped, what they print is still computed,
  * a function that may refuse by a panic (`@panic_when COND`) gets a ghost parameter v_may with the precondition
    COND ==> v_may; its panic!(..), unwrap() and expect() become calls that need v_may where they do not return, and
    callers pass their own permission (false if they have none),
  * a function with effects (`@trace`) gets a ghost parameter v_tr, the record of what was sent and which calls the
    application got; calls of such functions pass it on,
  * spawn(async move { .. }) and spawn(move || { .. }) as the last statement of a function become the block itself: the
    task is verified as the end of the function that starts it,
  * format!/write! are expanded into the sequence of string appends they stand for,
  * std methods outside the verifier's library are renamed to wrappers of the same
    arity whose contracts are assumed (listed in the trusted base),
  * getset/derive output (getters, Default, Clone) is synthesised from the struct text,
  * contracts, loop invariants, closure contracts and proof code are inserted.
"""
import json, re, subprocess, hashlib, os, sys

SMOKE = len(sys.argv) > 4 and sys.argv[4] == 'smoke'

class Lost(Exception):
    """an anchor of the overlay does not exist in the current source"""

ASTDUMP = None

def load_ast(files):
    out = subprocess.run([ASTDUMP] + files, capture_output=True, text=True)
    if out.returncode != 0:
        raise Lost("astdump failed: " + out.stderr[-400:])
    return json.loads(out.stdout)

class Src:
    def __init__(self, path, ast):
        self.path = path
        self.bytes = open(path, 'rb').read()
        if isinstance(ast, dict):
            raise Lost("%s does not parse: %s" % (path, ast.get('error')))
        self.items = ast
        self.fns, self.structs, self.enums, self.consts, self.types, self.impls = {}, {}, {}, {}, {}, []
        self._index(ast)
    def _index(self, items):
        for i in items:
            if i.get('test'):
                continue
            k = i['item']
            if k == 'fn':
                i['impl'] = None
                self.fns[i['path']] = i
            elif k == 'struct': self.structs[i['path']] = i
            elif k == 'enum': self.enums[i['path']] = i
            elif k == 'const': self.consts[i['path']] = i
            elif k == 'type': self.types[i['path']] = i
            elif k == 'impl':
                self.impls.append(i)
                for m in i['members']:
                    if m['item'] == 'fn':
                        m['impl'] = i
                        self.fns[m['path']] = m
    def text(self, span):
        return self.bytes[span[0]:span[1]].decode()

# ------------------------------------------------------------------ edits
class Edits:
    """replacements (start,end,pieces) and insertions (pos,text) over the bytes of one file"""
    def __init__(self, src):
        self.src = src
        self.repl = []
        self.ins = []
        self.n = 0
    def replace(self, span, *pieces):
        self.repl.append((span[0], span[1], list(pieces)))
    def insert(self, pos, text, prio=0):
        self.n += 1
        self.ins.append((pos, prio, self.n, text))
    def wrap(self, span, before, after):
        self.insert(span[0], before, 5)
        self.insert(span[1], after, -5)
    def render(self, span, skip=None):
        a, b = span
        out = []
        pos = a
        reps = [r for r in self.repl if a <= r[0] and r[1] <= b and r is not skip]
        # outermost first
        reps.sort(key=lambda r: (r[0], -r[1]))
        ins = sorted([i for i in self.ins if a <= i[0] <= b])
        ii = 0
        def flush_ins(upto, inclusive):
            nonlocal ii, pos
            while ii < len(ins) and (ins[ii][0] < upto or (inclusive and ins[ii][0] == upto)):
                p = ins[ii][0]
                if p > pos:
                    out.append(self.src.bytes[pos:p].decode()); pos = p
                out.append(ins[ii][3]); ii += 1
        for r in reps:
            if r[0] < pos or (r[0] == pos and r[1] < pos):
                continue
            # insertions before the replacement (at its start only those with prio>=0)
            flush_ins(r[0], True)
            if r[0] > pos:
                out.append(self.src.bytes[pos:r[0]].decode())
            for p in r[2]:
                if isinstance(p, str): out.append(p)
                else: out.append(self.render(p, skip=r))
            pos = r[1]
            # skip insertions strictly inside
            while ii < len(ins) and ins[ii][0] < r[1]:
                ii += 1
        flush_ins(b, True)
        if pos < b:
            out.append(self.src.bytes[pos:b].decode())
        return ''.join(out)

# ------------------------------------------------------------------ generic rewriting rules
DEFAULT_RENAMES = {}

FMT = re.compile(r'\{\{|\}\}|\{([^{}]*)\}')

def fmt_pieces(lit, nargs):
    """-> list of ('lit', text) / ('arg', index, spec)"""
    out = []; pos = 0; k = 0
    for m in FMT.finditer(lit):
        if m.start() > pos: out.append(('lit', lit[pos:m.start()]))
        pos = m.end()
        if m.group(0) == '{{': out.append(('lit', '{'))
        elif m.group(0) == '}}': out.append(('lit', '}'))
        else:
            body = m.group(1)
            name, _, spec = body.partition(':')
            if name == '':
                idx = k; k += 1
            elif name.isdigit(): idx = int(name)
            else: idx = name
            out.append(('arg', idx, spec))
    if pos < len(lit): out.append(('lit', lit[pos:]))
    return out

def rlit(s):
    r = '"'
    for ch in s:
        if ch == '"': r += '\\"'
        elif ch == '\\': r += '\\\\'
        elif ch == '\n': r += '\\n'
        elif ord(ch) < 32 or ord(ch) > 126: r += '\\u{%x}' % ord(ch)
        else: r += ch
    return r + '"'

def inside(span, outer):
    return outer[0] <= span[0] and span[1] <= outer[1]

class Unit:
    """one generated Verus file"""
    def __init__(self, name, repo, overlay_path, root):
        self.name = name
        self.repo = repo
        self.root = root
        self.out = []          # (text, meta)
        self.report = {'functions': [], 'edits': {}, 'dropped': [], 'imports': [], 'types': []}
        self.overlay = parse_overlay(overlay_path)
        self.renames = dict(DEFAULT_RENAMES)
        self.typemap = []
        self.opts = {}
        self.srcs = {}
        self.cur = None
        self.inlined = set()
        self.included = set()

    def count(self, what, n=1):
        self.report['edits'][what] = self.report['edits'].get(what, 0) + n

    def src(self, rel):
        if rel not in self.srcs:
            p = rel if os.path.isabs(rel) else os.path.join(self.repo, rel)
            if not os.path.exists(p):
                raise Lost('source file missing: ' + rel)
            self.srcs[rel] = Src(p, load_ast([p])[p])
        return self.srcs[rel]

    # ---------------------------------------------------------------- types
    def map_type(self, t):
        for a, b in self.typemap:
            t = re.sub(a, b, t)
        return t

    def emit(self, text, **meta):
        self.out.append((text, meta))

    def emit_struct(self, s, src, opts):
        st = src.structs.get(s)
        if not st: raise Lost('struct %s not found' % s)
        if st['style'] == 'unit':
            self.emit('#[derive(Clone)]\npub struct %s;\nimpl VDefault for %s { open spec fn is_def(&self) -> bool { true } fn v_default() -> Self { %s } }' % (s, s, s), kind='struct', name=s)
            self.report['types'].append(s)
            return
        if st['style'] != 'named':
            raise Lost('struct %s is not a named struct' % s)
        lines = ['pub struct %s%s {' % (s, self.map_type(st['generics']))]
        drop = opts.get('drop', '').split()
        only = opts.get('only', '').split()
        fields = [f for f in st['fields'] if f['name'] not in drop and (not only or f['name'] in only)]
        for f in fields:
            lines.append('    pub %s: %s,' % (f['name'], self.map_type(f['ty'])))
        lines.append('}')
        self.emit('\n'.join(lines), kind='struct', name=s)
        self.report['types'].append(s)
        for f in st['fields']:
            if f not in fields:
                self.report['dropped'].append('field %s.%s' % (s, f['name']))
        derives = ' '.join(a['text'] for a in st['attrs'] if a['path'] == 'derive')
        gen = opts.get('gen', 'default getters').split()
        g = self.map_type(st['generics'])
        # the type with its parameters, without their bounds
        sa = s + re.sub(r':[^,>]*', '', g)
        if 'default' in gen and re.search(r'\bDefault\b', derives):
            b = ', '.join('%s: VDefault::v_default()' % f['name'] for f in fields)
            c = ' && '.join('self.%s.is_def()' % f['name'] for f in fields) or 'true'
            self.emit('impl%s VDefault for %s {\n    open spec fn is_def(&self) -> bool { %s }\n    fn v_default() -> Self { %s { %s } }\n}' % (g, sa, c, s, b), kind='synth', name=s)
            self.count('derive(Default) synthesised')
        if 'clone' in gen and re.search(r'\bClone\b', derives):
            self.emit('impl%s Clone for %s {\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n}' % (g, sa), kind='synth', name=s)
            self.count('derive(Clone) synthesised')
        if 'getters' in gen:
            top = ' '.join(a['text'] for a in st['attrs'] if a['path'] == 'getset')
            ms = []
            for f in fields:
                at = top + ' ' + ' '.join(a['text'] for a in f['attrs'] if a['path'] == 'getset')
                ty = self.map_type(f['ty'])
                n = f['name']
                if re.search(r'\bget_copy\b', at):
                    ms.append('    pub fn %s(&self) -> (r: %s) ensures r == self.%s { self.%s }' % (n, ty, n, n))
                elif re.search(r'\bget\b', at):
                    ms.append('    pub fn %s(&self) -> (r: &%s) ensures *r == self.%s { &self.%s }' % (n, ty, n, n))
                if re.search(r'\bget_mut\b', at):
                    others = ' '.join('final(self).%s == old(self).%s,' % (o['name'], o['name']) for o in fields if o is not f)
                    ms.append('    pub fn %s_mut(&mut self) -> (r: &mut %s) ensures *r == old(self).%s, *final(r) == final(self).%s, %s { &mut self.%s }' % (n, ty, n, n, others, n))
                if re.search(r'\bset\b', at):
                    others = ' '.join('final(self).%s == old(self).%s,' % (o['name'], o['name']) for o in fields if o is not f)
                    ms.append('    pub fn set_%s(&mut self, val: %s) -> (r: &mut Self) ensures *r == (%s { %s: val, ..*old(self) }), *final(r) == *final(self) { self.%s = val; self }' % (n, ty, s, n, n))
            if ms:
                self.emit('impl%s %s {\n%s\n}' % (g, sa, '\n'.join(ms)), kind='synth', name=s)
                self.count('getset accessors synthesised', len(ms))

    def emit_builder(self, s, src):
        """derive_builder output for #[builder(setter(into, strip_option), default, ...)]"""
        st = src.structs.get(s)
        if not st: raise Lost('struct %s not found' % s)
        top = ' '.join(a['text'] for a in st['attrs'] if a['path'] == 'builder').replace(' ', '')
        if 'setter(into,strip_option)' not in top: raise Lost('builder attribute of %s changed' % s)
        b = s + 'Builder'
        fs = [f for f in st['fields'] if 'setter(skip)' not in ' '.join(a['text'] for a in f['attrs']).replace(' ', '')]
        self.emit('pub struct %s {\n%s\n}' % (b, '\n'.join('    pub %s: Option<%s>,' % (f['name'], f['ty']) for f in fs)), kind='struct', name=b)
        self.emit('impl VDefault for %s {\n    open spec fn is_def(&self) -> bool { %s }\n    fn v_default() -> Self { %s { %s } }\n}' % (b, ' && '.join('self.%s is None' % f['name'] for f in fs), b, ', '.join('%s: None' % f['name'] for f in fs)), kind='synth', name=b)
        ms = []
        for f in fs:
            n = f['name']; ty = f['ty'].replace(' ', '')
            if ty == 'String': v = 'Some(mk(value.txt()))'; x = 'Some(value.v_into())'
            elif ty == 'Option<String>': v = 'Some(Some(mk(value.txt())))'; x = 'Some(Some(value.v_into()))'
            else: raise Lost('builder field type ' + ty)
            ms.append('    pub fn %s<VV: VInto>(&mut self, value: VV) -> (r: &mut Self) ensures *r == (%s { %s: %s, ..*old(self) }), *final(r) == *final(self) { self.%s = %s; self }' % (n, b, n, v, n, x))
        self.emit('impl %s {\n%s\n}' % (b, '\n'.join(ms)), kind='synth', name=b)
        self.count('derive(Builder) synthesised')

    def emit_enum(self, s, src, opts):
        en = src.enums.get(s)
        if not en: raise Lost('enum %s not found' % s)
        lines = ['pub enum %s%s {' % (s, en['generics'])]
        for v in en['variants']:
            t = src.text(v['span'])
            t = re.sub(r'^(\s*(#\[[^\]]*\]|//[^\n]*\n)\s*)*', '', t)
            lines.append('    %s,' % self.map_type(t))
        lines.append('}')
        der = opts.get('derive')
        if der: lines.insert(0, '#[derive(%s)]' % der)
        self.emit('\n'.join(lines), kind='enum', name=s)
        self.report['types'].append(s)

    # ---------------------------------------------------------------- functions
    COMB = {
        ('filter', 1): ('Some(v_x) => { let v_c = { let % = &v_x; ', ' }; if v_c { Some(v_x) } else { None } }, None => None'),
        ('is_some_and', 1): ('Some(%) => ', ', None => false'),
        ('is_none_or', 1): ('Some(%) => ', ', None => true'),
        ('is_ok_and', 1): ('Ok(%) => ', ', Err(_) => false'),
        ('is_err_and', 1): ('Err(%) => ', ', Ok(_) => false'),
        ('or_else', 1): ('Ok(v_x) => Ok(v_x), Err(%) => ', ''),
        ('or_else', 0): ('Some(v_x) => Some(v_x), None => ', ''),
        ('and_then_result', 1): ('Ok(%) => ', ', Err(v_e) => Err(v_e)'),
        ('and_then', 1): ('Some(%) => ', ', None => None'),
        ('ok_or_else', 0): ('Some(v_x) => Ok(v_x), None => Err(', ')'),
        ('unwrap_or_else', 0): ('Some(v_x) => v_x, None => ', ''),
        ('unwrap_or_else', 1): ('Ok(v_x) => v_x, Err(%) => ', ''),
        ('map_err', 1): ('Ok(v_x) => Ok(v_x), Err(%) => Err(', ')'),
        ('map_option', 1): ('Some(%) => Some(', '), None => None'),
        ('map_result', 1): ('Ok(%) => Ok(', '), Err(v_e) => Err(v_e)'),
    }
    # what a method of the standard library returns, by its name: the receiver of a combinator is an Option, a Result or an iterator
    KIND = dict([(n, 'option') for n in 'get get_mut first last next next_back nth peek pop pop_front pop_back front back strip_prefix strip_suffix split_once rsplit_once find rfind position rposition max min max_by_key min_by_key max_by min_by as_ref as_mut as_deref as_deref_mut ok err cloned copied take checked_add checked_sub checked_mul checked_div checked_rem find_map reduce to_digit zip xor and_hms_opt from_ymd_opt from_hms_opt earliest latest single file_name parent to_str then then_some split_first split_last get_field get_group peer_cred attribute'.split()]
        + [(n, 'result') for n in 'parse try_into try_from from_str map_err ok_or ok_or_else read_to_string read_line read_until write_all flush lock bind accept connect send recv try_recv into_inner from_utf8 to_socket_addrs build join'.split()]
        + [(n, 'iter') for n in 'iter iter_mut into_iter chars bytes char_indices lines split splitn rsplit rsplitn split_whitespace keys values values_mut drain chain enumerate rev skip take_while skip_while step_by filter_map flat_map inspect children attributes descendants windows chunks'.split()])
    def recv_kind(self, src, fn, span):
        t = src.text(span).strip()
        m = next((x for x in fn['mcalls'] if x['span'] == span), None)
        if m is None:
            c = next((x for x in fn['calls'] if x['span'] == span), None)
            n = c['func'].split('::')[-1] if c else None
            if n == 'Some': return 'option'
            if n in ('Ok', 'Err'): return 'result'
            if n is None:
                if re.fullmatch(r'\w+', t):
                    # a local: by the type it is declared with
                    for a in fn['inputs']:
                        if not a['self'] and src.text(a['pat_span']).strip() == t: return self.type_kind(src.text(a['ty']))
                elif re.fullmatch(r'self\s*\.\s*\w+', t):
                    f = t.split('.')[1].strip()
                    ks = {self.type_kind(x['ty']) for st in src.structs.values() for x in st.get('fields', []) if x.get('name') == f}
                    return ks.pop() if len(ks) == 1 else None
                return None
        else: n = m['name']
        ks = {self.type_kind(sr.text(f['output'])) if f['output'] else None for sr in self.srcs.values() for p, f in sr.fns.items() if f['name'] == n}
        if len(ks) == 1: return ks.pop()
        if ks: return None
        if m is not None and n in ('map', 'filter', 'and_then', 'or_else', 'or', 'and', 'cloned', 'copied', 'zip', 'inspect', 'take', 'clone', 'flatten', 'to_owned', 'as_ref', 'unwrap_or'): return self.recv_kind(src, fn, m['recv']) or self.KIND.get(n)
        return self.KIND.get(n)

    def type_kind(self, t):
        t = re.sub(r'\s|&|mut\b', '', t)
        if re.match(r'(std::option::)?Option<', t): return 'option'
        if re.match(r'(std::result::|io::)?Result<|DResult<|SessResult<', t): return 'result'
        if t.startswith('impl') or t.startswith('Box<dyn'): return 'iter'
        return None

    OPTION_ONLY = ('filter', 'is_some_and', 'is_none_or', 'ok_or_else')
    RESULT_ONLY = ('map_err', 'is_ok_and', 'is_err_and')
    def inline_combinator(self, e, src, fn, c, renames):
        n = c['name']
        if n not in ('map', 'map_or', 'map_or_else', 'then') and not any(k == n for k, _ in self.COMB): return
        kind = self.recv_kind(src, fn, c['recv'])
        if n == 'map' and renames.get('inline map'): kind = renames['inline map']
        if kind == 'iter' or (renames.get('%s/%d' % (n, len(c['args']))) and kind not in ('option', 'result')): return
        if n == 'map' and kind is None: return
        if n in self.OPTION_ONLY and kind == 'result' or n in self.RESULT_ONLY and kind == 'option': return
        clos = [next((x for x in fn['closures'] if x['span'] == a), None) for a in c['args']]
        def pat(cl): return cl['inputs'][0]['text'].split(':')[0]
        if n == 'map_or_else' and len(c['args']) == 2:
            f, g = clos
            if not f or not g or len(g['inputs']) != 1 or len(f['inputs']) > 1: return
            self.no_escape(fn, f); self.no_escape(fn, g)
            res = kind == 'result' or len(f['inputs']) == 1
            e.replace(c['span'], '(match ', c['recv'], ' { %s(' % ('Ok' if res else 'Some') + pat(g) + ') => ', g['body'], ', %s => ' % ('Err(%s)' % (pat(f) if f['inputs'] else '_') if res else 'None'), f['body'], ' })')
        elif n == 'then' and len(c['args']) == 1:
            if not clos[0] or clos[0]['inputs']: return
            self.no_escape(fn, clos[0])
            e.replace(c['span'], '(if ', c['recv'], ' { Some(', clos[0]['body'], ') } else { None })')
        elif n == 'map_or' and len(c['args']) == 2:
            cl = clos[1]
            a, b = ('Ok', 'Err(_)') if kind == 'result' else ('Some', 'None')
            if cl:
                if len(cl['inputs']) != 1: return
                self.no_escape(fn, cl)
                e.replace(c['span'], '(match ', c['recv'], ' { ' + a + '(' + pat(cl) + ') => ', cl['body'], ', ' + b + ' => ', c['args'][0], ' })')
            else:
                p = [x for x in fn['paths'] if x['span'] == c['args'][1]]
                if not p: return
                e.replace(c['span'], '(match ', c['recv'], ' { ' + a + '(v_p) => ', c['args'][1], '(v_p), ' + b + ' => ', c['args'][0], ' })')
        elif len(c['args']) == 1:
            cl = clos[0]
            p = [x for x in fn['paths'] if x['span'] == c['args'][0]]
            if not cl and not p: return
            if not cl and '::' not in p[0]['text'] and p[0]['text'] not in ('Some', 'Ok', 'Err') and not any(f['name'] == p[0]['text'] for f in src.fns.values()): return
            if cl: nin = len(cl['inputs'])
            elif n in ('or_else', 'unwrap_or_else'): nin = 1 if kind == 'result' else 0
            else: nin = 0 if (n, 0) in self.COMB else 1
            key = (n, nin)
            if n == 'map': key = ('map_' + kind, nin)
            if n == 'and_then' and kind == 'result': key = ('and_then_result', nin)
            if key not in self.COMB: return
            a, b = self.COMB[key]
            if cl:
                if nin: a = a.replace('%', pat(cl))
                self.no_escape(fn, cl)
                e.replace(c['span'], '(match ', c['recv'], ' { ' + a, cl['body'], b + ' })')
            else:
                e.replace(c['span'], '(match ', c['recv'], ' { ' + a.replace('%', 'v_p'), c['args'][0], ('(v_p)' if nin else '()') + b + ' })')
        else: return
        self.inlined.add(id(c))
        for cl in clos:
            if cl: self.inlined.add(id(cl))
        self.count('combinator %s replaced by its definition' % n)

    def no_escape(self, fn, cl):
        for x in fn['returns'] + fn['tries']:
            if inside(x['span'], cl['body']): raise Lost('return or ? inside a closure of ' + fn['path'])

    def scan_rules(self, e, src, fn, ov):
        """generic, mechanical rewriting of one function body"""
        body = fn['body']
        renames = dict(self.renames)
        for k, v in ov.get('rename', []):
            renames[k] = v
        if fn['unsafe_blocks']:
            raise Lost('unsafe block in ' + fn['path'])
        # refusals by panic: allowed where the ghost parameter v_may holds
        may = bool(ov.get('panic_when'))
        for c in fn['mcalls']:
            if c['name'] in self.panicky:
                e.insert(c['span'][1] - 1, (', ' if c['args'] else '') + 'Ghost(%s)' % ('v_may' if may else 'false'), 7)
            elif may and (c['name'], len(c['args'])) in (('unwrap', 0), ('expect', 1)):
                e.replace(c['name_span'], 'v_unwrap_may' if c['name'] == 'unwrap' else 'v_expect_may')
                e.insert(c['span'][1] - 1, (', ' if c['args'] else '') + 'Ghost(v_may)', 7)
                self.count('unwrap and expect turned into refusals')
        for c in fn['calls']:
            if self.is_panicky(c['func']):
                e.insert(c['span'][1] - 1, (', ' if c['args'] else '') + 'Ghost(%s)' % ('v_may' if may else 'false'), 7)
        # effects: calls of functions that record what they do get the ghost trace
        for c in fn['mcalls'] + fn['calls']:
            if (c.get('name') or c['func'].split('::')[-1]) in self.traced | set(ov.get('traced', '').split()):
                if 'trace' not in ov: raise Lost('%s has effects outside its contract' % fn['path'])
                e.insert(c['span'][1] - 1, (', ' if c['args'] else '') + 'Tracked(&mut *v_tr)', 7)
        # a spawned task is verified as the end of the function that spawns it
        for c in fn['calls']:
            if not re.search(r'(^|::)spawn$', c['func']) or len(c['args']) != 1: continue
            if fn['output'] or not fn['stmts'] or not inside(c['span'], fn['stmts'][-1]) or src.text(fn['stmts'][-1]).rstrip().rstrip(';').strip() != src.text(c['span']):
                raise Lost('spawn that is not the last statement of ' + fn['path'])
            b = [a['block']['span'] for a in fn['asyncs'] if a['span'] == c['args'][0]] + [x['body'] for x in fn['closures'] if x['span'] == c['args'][0] and not x['inputs'] and x['body_is_block']]
            if not b: raise Lost('spawn without a block in ' + fn['path'])
            e.replace(c['span'], b[0])
            self.inlined |= {id(x) for x in fn['closures'] if x['span'] == c['args'][0]}
            self.count('spawned task put in place')
        # macros
        nfmt = 0
        fmtp = ov.get('fmt', {})
        for m in fn['macros']:
            n = m['name']
            fp = ''
            if n in ('format', 'write'):
                fp = fmtp.get(str(nfmt), ''); nfmt += 1
            if n in ('println', 'eprintln', 'print', 'eprint') or n == 'dbg' and m['stmt']:
                # the printing goes, but what is printed is still computed
                if m['args'] is None: raise Lost('macro %s! in %s' % (n, fn['path']))
                ex = [a for a in m['args'] if a['lit'] is None and not re.fullmatch(r'[&*\s]*[a-z_]\w*(\s*\.\s*[a-z_0-9]\w*)*', src.text(a['span']))]
                parts = ['{ ' if ex else '' if m['stmt'] else '()']
                for a in ex: parts += ['let _ = &(', a['span'], '); ']
                e.replace(m['span'], *parts, *(['}'] if ex else []))
                self.count(n + '! dropped (what it prints is still computed)')
            elif n == 'format':
                e.replace(m['mac_span'], *self.fmt_macro(m, None, src, fp))
                self.count('format! expanded')
            elif n == 'write':
                e.replace(m['mac_span'], *self.fmt_macro(m, 'write', src, fp))
                self.count('write! expanded')
            elif n == 'panic':
                if may:
                    e.replace(m['mac_span'], 'return v_reject(Ghost(v_may))')
                    self.count('panic! turned into v_reject()')
                else:
                    e.replace(m['mac_span'], 'v_panic()')
            elif n in ('matches', 'assert', 'debug_assert', 'vec'):
                if n != 'matches' and n != 'vec':
                    raise Lost('macro %s! in %s' % (n, fn['path']))
            else:
                raise Lost('macro %s! in %s' % (n, fn['path']))
        # .await / async
        for a in fn['awaits']:
            if self.opts.get('async') != 'strip': raise Lost('await in ' + fn['path'])
            e.replace([a['base'][1], a['span'][1]], '')
            self.count('.await dropped')
        # Option/Result combinators with a closure are replaced by their definition
        for c in fn['mcalls']:
            self.inline_combinator(e, src, fn, c, renames)
        # method renames
        for c in fn['mcalls']:
            if id(c) in self.inlined: continue
            key = '%s/%d' % (c['name'], len(c['args']))
            new = renames.get(key) or renames.get(c['name'])
            if new:
                if c['turbofish'] and new.endswith('!'):
                    e.replace([c['name_span'][0], c['turbofish'][1]], new[:-1])
                elif new.startswith('drop:'):
                    # receiver.method(args) -> receiver
                    e.replace([c['recv'][1], c['span'][1]], '')
                elif new.startswith('fn:'):
                    # receiver.method(args) -> f(receiver, args)
                    pre = new[3:]
                    amp = ''
                    pieces = [pre + '(', c['recv']]
                    for a in c['args']: pieces += [', ', a]
                    pieces += [')']
                    e.replace(c['span'], *pieces)
                elif new.startswith('suffix:'):
                    # adds .into_iter() to the single argument
                    e.replace(c['name_span'], new.split(':')[1])
                    for a in c['args']: e.insert(a[1], new.split(':')[2], -6)
                else:
                    e.replace(c['name_span'], new.rstrip('!'))
                self.count('method %s -> %s' % (c['name'], new))
        # path calls
        for c in fn['calls']:
            new = renames.get('call ' + c['func'])
            if new:
                e.replace(c['func_span'], new)
                self.count('call %s -> %s' % (c['func'], new))
        for p in fn['paths']:
            new = renames.get('path ' + p['text'])
            if new:
                e.replace(p['span'], new)
                self.count('path %s -> %s' % (p['text'], new))
        # string literals in match arms become guards
        npl = 0
        for m in fn['matches']:
            for a in m['arms']:
                if a['strs'] is not None:
                    npl += len(a['strs'])
                    g = '(' + ' || '.join('v_m == %s' % rlit(x) for x in a['strs']) + ')'
                    if a['guard']:
                        e.replace([a['pat'][0], a['guard'][1]], 'v_m if ' + g + ' && (', a['guard'], ')')
                    else:
                        e.replace(a['pat'], 'v_m if ' + g)
        if npl != fn['pat_lits']:
            raise Lost('string literal in a pattern in ' + fn['path'])
        if npl: self.count('string literal patterns turned into guards', npl)
        for t in fn['types']:
            mt = self.map_type(t['text'])
            if mt != t['text']:
                e.replace(t['span'], mt)
        for l in fn['lits']:
            if isinstance(l['str'], list):
                e.replace(l['span'], '&[' + ', '.join('%du8' % b for b in l['str']) + ']')
                self.count('byte string literal expanded')

    def fmt_macro(self, m, kind, src, fp=''):
        args = m['args']
        if args is None: raise Lost('cannot parse arguments of %s!' % m['name'])
        args = list(args)
        dest = None
        if kind == 'write':
            dest = args.pop(0)
        if not args or args[0]['lit'] is None:
            raise Lost('%s! without literal format' % m['name'])
        lit = args.pop(0)['lit']
        ps = fmt_pieces(lit, len(args))
        used = set()
        out = []
        if kind == 'write':
            d = src.text(dest['span'])
            out.append('{ ')
            for p in ps:
                if p[0] == 'lit': out.append('proof { reveal_strlit(%s); } %s.v_put_str(%s); ' % (rlit(p[1]), d, rlit(p[1])))
                else:
                    out += self.fmt_arg(p, args, src, lambda f: '%s.%s(&' % (d, f)) + ['); ']
            out.append('%s %s.v_done() }' % (fp, d))
        else:
            out.append('{ let mut v_s = VFmt::new(); ')
            for p in ps:
                if p[0] == 'lit': out.append('proof { reveal_strlit(%s); } v_s.v_put_str(%s); ' % (rlit(p[1]), rlit(p[1])))
                else:
                    out += self.fmt_arg(p, args, src, lambda f: 'v_s.%s(&' % f) + ['); ']
            out.append(fp + ' v_s.v_finish() }')
        return out

    def fmt_arg(self, p, args, src, pre):
        _, idx, spec = p
        if spec == '': f = 'v_put'
        elif spec == '?': f = 'v_put_debug'
        elif re.fullmatch(r'0>(\d+)', spec): f = 'v_put_pad0_%s' % spec[2:]
        elif re.fullmatch(r'0(\d+)', spec): f = 'v_put_pad0_%s' % spec[1:].lstrip('0')
        else: raise Lost('format spec {:%s}' % spec)
        if isinstance(idx, str):
            return [pre(f), idx]
        if idx >= len(args): raise Lost('format argument count')
        return [pre(f), '(', args[idx]['span'], ')']

    def anchor(self, fn, what, src):
        """-> (list of spans) of the construct `what` in fn"""
        m = re.fullmatch(r'(loop|closure|call|return|if|match|stmt|body|let|nested|after_let)\s*(.*)', what)
        if not m: raise Lost('bad anchor ' + what)
        kind, arg = m.group(1), m.group(2).strip()
        if kind == 'loop':
            k = int(arg)
            if k >= len(fn['loops']): raise Lost('%s: loop %d not found' % (fn['path'], k))
            return fn['loops'][k]
        if kind == 'call':
            name, _, k = arg.partition('#'); k = int(k or 0)
            cs = [c for c in fn['calls'] if c['func'] == name] + [c for c in fn['mcalls'] if '.' + c['name'] == name]
            cs.sort(key=lambda c: (c['span'][1]))
            if k >= len(cs): raise Lost('%s: call %s not found' % (fn['path'], arg))
            return cs[k]
        if kind == 'let':
            name, _, k = arg.partition('#'); k = int(k or 0)
            cs = [c for c in fn['locals'] if re.sub(r'^(mut|ref) ', '', c['pat_text']).split(':')[0].strip() == name]
            if k >= len(cs): raise Lost('%s: let %s not found' % (fn['path'], arg))
            return cs[k]
        if kind == 'return':
            k = int(arg)
            if k >= len(fn['returns']): raise Lost('%s: return %d not found' % (fn['path'], k))
            return fn['returns'][k]
        if kind == 'stmt':
            k = int(arg)
            if k < 0: k += len(fn['stmts'])
            if not 0 <= k < len(fn['stmts']): raise Lost('%s: stmt %d not found' % (fn['path'], k))
            return {'span': fn['stmts'][k]}
        raise Lost('bad anchor ' + what)

    def enclosing_stmt(self, fn, span):
        best = None
        for s in fn['all_stmts']:
            if inside(span, s['span']) and (best is None or inside(s['span'], best)):
                best = s['span']
        if best is None: raise Lost('%s: no statement at anchor' % fn['path'])
        return best

    def emit_fn(self, path, src, ov, mode):
        fn = src.fns.get(path)
        if not fn: raise Lost('function %s not found in %s' % (path, src.path))
        e = Edits(src)
        name = ov.get('as')
        imp = fn['impl']
        # signature
        sig = []
        e2 = Edits(src)
        if fn['async']:
            if self.opts.get('async') != 'strip': raise Lost('async fn ' + path)
            self.count('async dropped')
        fname = (name.split('::')[-1] if name else fn['name'])
        head = 'pub fn ' + fname
        if fn['generics'] and fn['generics_text']:
            gt = src.text(fn['generics'])
            gt = gt.split(' where ')[0]
            head += self.map_type(gt)
        ins = []
        for i, a in enumerate(fn['inputs']):
            if a['self']:
                ins.append(src.text(a['span']))
            else:
                pt = src.text(a['pat_span'])
                ins.append('%s: %s' % (pt, self.map_type(re.sub(r'\s+', ' ', src.text(a['ty'])))))
        if ov.get('params'):
            ins += ov['params']
        if ov.get('panic_when'): ins.append('Ghost(v_may): Ghost<bool>')
        if 'trace' in ov: ins.append('Tracked(v_tr): Tracked<&mut VTrace>')
        head += '(' + ', '.join(ins) + ')'
        ret = ov.get('ret')
        if fn['output']:
            ty = self.map_type(re.sub(r'\s+', ' ', src.text(fn['output'])))
            if ov.get('ret_type'): ty = ov['ret_type']
            head += ' -> (%s: %s)' % (ret or 'r', ty)
        elif ov.get('ret_type'):
            head += ' -> (%s: %s)' % (ret or 'r', ov['ret_type'])
        if fn['where']:
            head += '\n    ' + self.map_type(src.text(fn['where']))
        contract = ov.get('contract', '').rstrip()
        if ov.get('panic_when'):
            cond = '(%s) ==> v_may' % ov['panic_when'].strip()
            if re.match(r'\s*requires\b', contract): contract = re.sub(r'requires\b', lambda m: 'requires ' + cond + ',', contract, count=1)
            else: contract = '    requires ' + cond + '\n' + contract
        attrs = list(ov.get('attr', []))
        body = fn['body']
        if mode == 'import':
            attrs.append('#[verifier::external_body] /* contract of %s */' % path.replace(' ', '_'))
            btext = '{ unimplemented!() }'
        else:
            self.scan_rules(e, src, fn, ov)
            self.apply_overlay(e, src, fn, ov)
            btext = e.render(body)
            for a, b, n in ov.get('subst', []):
                # textual, on the rendered body; must match exactly n times (default: at least once)
                cnt = len(re.findall(a, btext))
                if cnt == 0: raise Lost('%s: pattern %r not found' % (path, a))
                btext = re.sub(a, b, btext)
                self.count('pattern rewrite %s' % a)
        text = '\n'.join(attrs + [head]) + ('\n' + contract if contract else '') + '\n' + btext
        owner_text = None
        if imp is not None and not ov.get('free'):
            g = imp['generics']
            owner_text = 'impl%s %s' % (self.map_type(g) , self.map_type(imp['self_ty']))
            if imp['where']: owner_text += ' ' + imp['where']
            if ov.get('in_trait'): owner_text, _, inner = ov['in_trait'].partition('\n'); text = inner + '\n' + text; text = re.sub(r'(^|\n)pub fn ', r'\1fn ', text, count=1)
        disp = (name or path)
        full = (owner_text + ' {\n' + text + '\n}') if owner_text else text
        self.emit(full, kind='fn', name=path, mode=mode)
        if mode == 'import':
            self.report['imports'].append(path)
        else:
            self.report['functions'].append({'fn': path, 'file': src.path, 'sha256': hashlib.sha256(src.text(fn['span']).encode()).hexdigest()[:16]})
        return fn

    def apply_overlay(self, e, src, fn, ov):
        body = fn['body']
        # hide(..) has to come first in a body
        bs = (ov.get('body_start') or '').split('\n')
        hides = [l for l in bs if l.strip().startswith('hide(')]
        if hides:
            ov = dict(ov, body_start='\n'.join(l for l in bs if l not in hides))
            e.insert(body[0] + 1, '\n' + '\n'.join(hides) + '\n', 1)
        if 'noreveal' not in ov:
            ls = sorted(set(l['str'] for l in fn['lits'] if isinstance(l['str'], str) and '{' not in l['str'] and len(l['str']) < 40))
            if ls and len(ls) < 12:
                e.insert(body[0] + 1, '\nproof { ' + ' '.join('reveal_strlit(%s);' % rlit(x) for x in ls) + ' }\n', 8)
        if SMOKE: e.insert(body[0] + 1, '\n/*smoke*/ proof { assert(false); assume(false); }\n', 99)
        if ov.get('body_start'):
            e.insert(body[0] + 1, '\n' + ov['body_start'] + '\n', 9)
        if ov.get('body_end'):
            tail = src.bytes[body[0]:body[1] - 1].decode().rstrip()
            semi = '' if fn['output'] or tail[-1] in ';}{' else ';'
            e.insert(body[1] - 1, semi + '\n' + ov['body_end'] + '\n', -9)
        nl = ov.get('nloops')
        if nl is not None and len(fn['loops']) != int(nl):
            raise Lost('%s: %d loops expected, %d found' % (fn['path'], int(nl), len(fn['loops'])))
        want = [int(k) for k in ov.get('loop', {})]
        if len(fn['loops']) != len(want):
            raise Lost('%s: %d loops in source, contracts for %d' % (fn['path'], len(fn['loops']), len(want)))
        itername = {}
        for k, txt in ov.get('loop', {}).items():
            lp = self.anchor(fn, 'loop %s' % k, src)
            first = txt.strip().split('\n')[0].strip()
            rest = txt
            if first.startswith('iter '):
                # name the iterator of a for loop
                rest = '\n'.join(txt.strip().split('\n')[1:])
                if first.endswith(' ref'):
                    # for x in &collection is for x in (&collection).iter()
                    first = first[:-4]
                    if not re.search(r'\.\s*iter\s*\(\s*\)$', src.text(lp['expr'])):
                        e.insert(lp['expr'][1], '.v_iter()', 8)
                        self.count('iteration over a reference to a collection written as a call of iter')
                if k in ov.get('iterbind', {}): itername[k] = first[5:].strip() + ': '
                else: e.insert(lp['expr'][0], first[5:].strip() + ': ', 8)
            e.insert(lp['body']['span'][0], '\n' + rest.rstrip() + '\n', 3)
        for k, txt in ov.get('iterbind', {}).items():
            # the expression iterated over gets a name, so that facts about it can be stated
            lp = self.anchor(fn, 'loop %s' % k, src)
            e.replace(lp['expr'], itername.get(k, '') + '({ let v_e = ', lp['expr'], ';\n' + txt + '\nv_e })')
        for k, txt in ov.get('bind', {}).items():
            # the receiver of a method call gets a name
            c = self.anchor(fn, 'call ' + k, src)
            e.replace(c['recv'], '({ let v_b = ', c['recv'], ';\n' + txt + '\nv_b })')
        for k, txt in ov.get('loop_start', {}).items():
            lp = self.anchor(fn, 'loop %s' % k, src)
            e.insert(lp['body']['span'][0] + 1, '\n' + txt + '\n', 9)
        for k, txt in ov.get('loop_end', {}).items():
            lp = self.anchor(fn, 'loop %s' % k, src)
            e.insert(lp['body']['span'][1] - 1, '\n' + txt + '\n', -9)
        cl = ov.get('closure', {})
        live = [c for c in fn['closures']]
        for k, txt in cl.items():
            k = int(k)
            if k >= len(live): raise Lost('%s: closure %d not found' % (fn['path'], k))
            c = live[k]
            if id(c) in self.inlined: continue
            # replace |params| by |params typed| -> (r: T) ensures ... and brace the body
            names = re.findall(r'[a-z_][a-z_0-9]*', ' '.join(re.sub(r'^(&|mut |ref )+', '', i['text'].split(':')[0].strip()) for i in c['inputs']))
            hdr, _, start = txt.strip().partition(';;')
            hdr = hdr.strip()
            for n in names:
                if not re.search(r'\b(v_)?%s\b' % re.escape(n), hdr):
                    raise Lost('%s: closure %d parameter %s renamed' % (fn['path'], k, n))
            e.replace([c['or1'][0], c['or2'][1]], hdr)
            pre = ''
            for i in c['inputs']:
                # |&x| becomes |v_x| .. let x = *v_x
                m = re.fullmatch(r'&\s*([a-z_][a-z_0-9]*)', i['text'].split(':')[0].strip())
                if m: pre += 'let %s = *v_%s; ' % (m.group(1), m.group(1))
            if start: pre += '\n' + start.strip() + '\n'
            if not c['body_is_block']:
                e.insert(c['body'][0], ' { ' + pre, 6)
                e.insert(c['body'][1], ' } ', -4)
            elif pre: e.insert(c['body'][0] + 1, ' ' + pre, 9)
        for k, c in enumerate(live):
            if str(k) not in cl and k not in cl and id(c) not in self.inlined:
                raise Lost('%s: a closure without a contract' % fn['path'])
        for (pos, what, txt) in ov.get('at', []):
            a = self.anchor(fn, what, src)
            sp = self.enclosing_stmt(fn, a['span'])
            if pos == 'before': e.insert(sp[0], txt + '\n', 4)
            elif pos == 'after': e.insert(sp[1], '\n' + txt + '\n', -4)
            else: raise Lost('bad position')

    # ---------------------------------------------------------------- whole unit
    def build(self):
        self.panicky = set()
        self.traced = set()
        self.find_panicky(self.overlay)
        self.use(self.overlay, False)
        return self.finish()

    def is_panicky(self, func):
        # a call by path has to name the function; Self::f and f may
        f = func.split('::')
        return 'path ' + func in self.panicky or f[0] == 'Self' and f[-1] in self.panicky

    def find_panicky(self, overlay):
        """functions that may refuse by a panic (@panic_when): they get a ghost parameter that says whether the caller may"""
        for d in overlay:
            if d['dir'] == 'use': self.find_panicky(parse_overlay(os.path.join(self.root, d['arg'].split()[0])))
            elif d['dir'] in ('fn', 'import') and d['sub'].get('panic_when'):
                n = (d['sub'].get('as') or d['arg']).split(' for ')[-1].strip()
                self.panicky |= {n.split('::')[-1].strip(), 'path ' + n}
            if d['dir'] == 'panicky': self.panicky |= {x for n in d['arg'].split() for x in (n.split('::')[-1], 'path ' + n)}
            if d['dir'] == 'traced': self.traced |= set(d['arg'].split())
            elif d['dir'] in ('fn', 'import') and 'trace' in d['sub']:
                self.traced.add((d['sub'].get('as') or d['arg']).split('::')[-1].strip())

    def use(self, overlay, imported):
        cur = None
        for d in overlay:
            k = d['dir']
            if k == 'fn' and imported: k = 'import'
            if k == 'proof':
                # proof functions; an importing unit takes their statements only
                if d['arg']: d['text'] = open(os.path.join(self.root, d['arg'])).read()
                if imported: self.emit(re.sub(r'(?m)^(pub )?(broadcast )?proof fn (\w+)', r'#[verifier::external_body] /* contract of \3 */\n\1\2proof fn \3', d['text']), kind='spec', name='')
                else: self.emit(d['text'], kind='spec', name='')
                continue
            if k == 'source': cur = self.src(d['arg'])
            elif k == 'include':
                if d['arg'] in self.included: continue
                self.included.add(d['arg'])
                self.emit(open(os.path.join(self.root, d['arg'])).read(), kind='prelude', name=d['arg'])
            elif k == 'rust':
                self.emit(d['text'], kind='spec', name='')
            elif k == 'rename':
                for l in d['text'].strip().split('\n'):
                    l = l.strip()
                    if not l: continue
                    a, b = [x.strip() for x in l.split('=>')]
                    self.renames[a] = b
            elif k == 'typemap':
                for l in d['text'].strip().split('\n'):
                    l = l.strip()
                    if not l: continue
                    a, b = [x.strip() for x in l.split('=>')]
                    self.typemap.append((a, b))
            elif k in ('traced', 'panicky'): pass
            elif k == 'option':
                a, b = d['arg'].split(None, 1); self.opts[a] = b.strip()
            elif k == 'use':
                # another overlay file; with `import` its functions are taken by contract only
                f, _, how = d['arg'].partition(' ')
                sub = parse_overlay(os.path.join(self.root, f))
                self.use(sub, how.strip() == 'import')
            elif k == 'struct': self.emit_struct(d['arg'].split()[0], cur, d['sub'])
            elif k == 'enum': self.emit_enum(d['arg'].split()[0], cur, d['sub'])
            elif k in ('const', 'conststr') and (cur.path, d['arg']) in self.included: continue
            elif k == 'const':
                self.included.add((cur.path, d['arg']))
                c = cur.consts.get(d['arg'])
                if not c: raise Lost('const %s not found' % d['arg'])
                self.emit('pub const %s: %s = %s;' % (c['name'], self.map_type(cur.text(c['ty_span'])), cur.text(c['expr'])), kind='const', name=c['name'])
            elif k == 'conststr':
                self.included.add((cur.path, d['arg']))
                # &str constants: exec constant with its text as contract
                c = cur.consts.get(d['arg'])
                if not c: raise Lost('const %s not found' % d['arg'])
                x = cur.text(c['expr'])
                self.emit('pub exec const %s: &\'static str ensures %s@ == %s@ { %s }\n#[allow(non_snake_case)] pub open spec fn S_%s() -> Seq<char> { %s@ }' % (c['name'], c['name'], x, x, c['name'], x), kind='const', name=c['name'])
            elif k == 'requires_derive':
                a = d['arg'].split()
                st = cur.structs.get(a[0]) or cur.enums.get(a[0])
                if not st: raise Lost('type %s not found' % a[0])
                der = ' '.join(x['text'] for x in st['attrs'] if x['path'] == 'derive')
                for t in a[1:]:
                    if not re.search(r'\b%s\b' % t, der): raise Lost('%s does not derive %s' % (a[0], t))
                for im in cur.impls:
                    if im['self_ty'] == a[0] and im.get('trait') and re.sub(r'<.*', '', im['trait']).split('::')[-1].strip() in a[1:]:
                        raise Lost('%s implements %s by hand' % (a[0], im['trait']))
            elif k == 'builder': self.emit_builder(d['arg'], cur)
            elif k == 'type':
                c = cur.types.get(d['arg'])
                if not c: raise Lost('type %s not found' % d['arg'])
                t = cur.text(c['span'])
                t = re.sub(r'^(#\[[^\]]*\]\s*)*(pub(\([^)]*\))?\s+)?', '', t)
                self.emit('pub ' + self.map_type(t), kind='type', name=c['name'])
            elif k == 'fn': self.emit_fn(d['arg'], cur, d['sub'], 'verify')
            elif k == 'import': self.emit_fn(d['arg'], cur, d['sub'], 'import')
            else: raise Exception('bad directive ' + k)

    def finish(self):
        head = ['#![feature(allocator_api)]', '#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_braces, unused_parens, unused_assignments, unreachable_code)]']
        lines = head[:]
        self.lines = []  # (start,end,meta) 1-based inclusive
        for t, meta in self.out:
            s = len(lines) + 1
            lines += t.split('\n')
            self.lines.append((s, len(lines), meta))
        lines.append('} // verus!')
        lines.append('fn main() {}')
        return '\n'.join(lines) + '\n'

    def locate(self, line):
        for s, e, m in self.lines:
            if s <= line <= e: return m
        return {'kind': 'other', 'name': ''}

# ------------------------------------------------------------------ overlay parsing
SUBKEYS = ('fmt', 'loop', 'loop_start', 'loop_end', 'closure', 'bind', 'iterbind')

def parse_overlay(path):
    """directives start with @@ at column 0; sub-directives of a function with @ at column 0"""
    out = []
    cur = None; sub = None; buf = []
    def endsub():
        nonlocal sub, buf
        if cur is None: return
        txt = '\n'.join(buf)
        if sub is None:
            cur['text'] = txt
            if cur['dir'] in ('fn', 'import'):
                cur['sub'].setdefault('contract', '')
                cur['sub']['contract'] += txt.strip('\n')
        else:
            k, a = sub
            s = cur['sub']
            if k in SUBKEYS: s.setdefault(k, {})[a] = txt
            elif k in ('before', 'after'): s.setdefault('at', []).append((k, a, txt))
            elif k == 'subst':
                x, y = txt.strip('\n').split('\n=>\n') if '\n=>\n' in txt else txt.strip().split(' => ')
                s.setdefault('subst', []).append((x.strip('\n'), y.strip('\n'), a))
            elif k == 'rename':
                for l in txt.strip().split('\n'):
                    x, y = [z.strip() for z in l.split('=>')]
                    s.setdefault('rename', []).append((x, y))
            elif k in ('attr', 'params'): s.setdefault(k, []).append((a + txt).strip())
            elif k in ('body_start', 'body_end', 'contract'): s[k] = txt
            else: s[k] = (a + '\n' + txt).strip()
        sub = None; buf = []
    for line in open(path).read().split('\n'):
        if line.startswith('@@'):
            endsub()
            if cur is not None: out.append(cur)
            m = re.match(r'@@(\w+)\s*(.*)', line)
            cur = {'dir': m.group(1), 'arg': m.group(2).strip(), 'sub': {}, 'text': ''}
            sub = None; buf = []
        elif line.startswith('@') and cur is not None:
            endsub()
            m = re.match(r'@(\w+)\s*(.*)', line)
            sub = (m.group(1), m.group(2).strip()); buf = []
        elif line.startswith('##'):
            continue
        else:
            buf.append(line)
    endsub()
    if cur is not None: out.append(cur)
    return out

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ASTDUMP = os.path.join(root, 'build/extract/release/astdump')
    name, out = sys.argv[1], sys.argv[2]
    repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    u = Unit(name, repo, os.path.join(root, 'units', name + '.ov'), root)
    txt = u.build()
    open(out, 'w').write(txt)
    json.dump({'report': u.report, 'lines': u.lines}, open(out + '.json', 'w'))
