"""generates layout_gen.h: for every numpy record dtype of the package and the C structure it mirrors, code that compares
each element seen by C with the bytes numpy addresses for it.  Both sides are read from the working tree on every run."""
import ast, json, os, subprocess

STRUCTS = ['Output_t', 'Output_sccd', 'output_nrtqueue', 'output_nrtmodel', 'Output_sccd_pinpoint']
PAIRS = {'reccg_dt': 'Output_t', 'sccd_dt': 'Output_sccd', 'nrtqueue_dt': 'output_nrtqueue', 'nrtmodel_dt': 'output_nrtmodel', 'pinpoint_dt': 'Output_sccd_pinpoint'}
PY = '/opt/pycold-venv/bin/python'

PROBE = r'''
import ast, json, os, runpy, sys
import numpy as np
root = sys.argv[1]
out = []
def describe(dt):
    fs = []
    for n in dt.names:
        f, off = dt.fields[n][:2]
        sub = f.subdtype
        base, shape = (sub[0], sub[1]) if sub else (f, ())
        fs.append([n, off, base.kind, base.itemsize, list(shape)])
    return dict(size=dt.itemsize, fields=fs)
common = runpy.run_path(os.path.join(root, 'common.py'))
for k, v in common.items():
    if isinstance(v, np.dtype) and v.names:
        out.append(dict(name=k, where='common.py', **describe(v)))
for dp, dn, fn in os.walk(root):
    for f in sorted(fn):
        if not f.endswith('.py') or (f == 'common.py' and dp == root):
            continue
        try:
            tree = ast.parse(open(os.path.join(dp, f), encoding='utf8').read())
        except SyntaxError:
            continue
        env = dict(common, np=np, numpy=np)
        for st in tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and isinstance(st.targets[0], ast.Name):
                env[st.targets[0].id] = st.value.value
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == 'dtype' and nd.args:
                try:
                    v = eval(compile(ast.Expression(nd), f, 'eval'), env)
                except Exception:
                    continue
                if isinstance(v, np.dtype) and v.names and ('t_break' in v.names or 'clry' in v.names or 'num_obs' in v.names):
                    out.append(dict(name='%s_%d' % (f[:-3], nd.lineno), where=f, **describe(v)))
print(json.dumps(out))
'''


def c_members(d):
    p = subprocess.run(['clang', '-w', '-fsyntax-only', '-x', 'c', '-I', d, '-Xclang', '-ast-dump=json', os.path.join(d, 'output.h')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    ast_ = json.loads(p.stdout)
    recs, res = {}, {}
    for nd in ast_['inner']:
        if nd['kind'] == 'RecordDecl':
            recs[nd['id']] = [(f['name'], f['type'].get('desugaredQualType', f['type']['qualType'])) for f in nd.get('inner', []) if f['kind'] == 'FieldDecl' and 'name' in f]
        elif nd['kind'] == 'TypedefDecl' and nd['name'] in STRUCTS:
            txt = json.dumps(nd)
            for rid, fs in recs.items():
                if rid in txt:
                    res[nd['name']] = fs
    return res


def generate(repo, d):
    src = os.path.join(repo, 'src', 'python', 'pycold')
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PY, '-c', PROBE, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
    if p.returncode:
        raise RuntimeError('numpy layouts not readable: ' + p.stderr.decode()[-800:])
    dts = json.loads(p.stdout)
    mem = c_members(d)
    o, calls, dims = ['/* generated */'], [], lambda t: [int(x.split(']')[0]) for x in t.split('[')[1:]]
    for dt in dts:
        names = {f[0] for f in dt['fields']}
        cs = PAIRS.get(dt['name']) if dt['where'] == 'common.py' else max(mem, key=lambda k: (len(names & {m[0] for m in mem[k]}), -len(mem[k])))
        if cs is None:
            continue
        fn = 'chk_' + dt['name']
        calls.append((cs, fn))
        cm = mem[cs]
        have = {m[0]: m[1] for m in cm}
        o.append('static void %s(void)\n{\n    %s r; unsigned char raw[%d]; size_t n = sizeof r < sizeof raw ? sizeof r : sizeof raw;' % (fn, cs, dt['size']))
        o.append('    LAY_BYTES(raw);')
        o.append('    memset(&r, 0, sizeof r); memcpy(&r, raw, n);')
        o.append('    vh_assert(sizeof(%s) == %d, "record size of %s is that of %s");' % (cs, dt['size'], cs, dt['name']))
        o.append('    vh_assert(%d == %d, "%s has the fields of %s");' % (len(cm), len(dt['fields']), dt['name'], cs))
        for pos, (n, off, kind, size, shape) in enumerate(dt['fields']):
            cn = n
            if n not in have and pos < len(cm) and cm[pos][0] not in names and len(cm) == len(dt['fields']):
                cn = cm[pos][0]        # renamed on one side only: by position
            if cn not in have or len(dims(have[cn])) != len(shape):
                o.append('    vh_assert(0, "%s.%s mirrors a field of %s");' % (dt['name'], n, cs))
                continue
            ix, lin, cond = '', '0', ''
            for k, m in enumerate(shape):
                o.append('    for (int i%d = 0; i%d < %d; i%d++) {' % (k, k, m, k))
                ix += '[i%d]' % k
                lin = '(%s) * %d + i%d' % (lin, m, k)
            o.append('    {' if not shape else '')
            for k, (a, b) in enumerate(zip(dims(have[cn]), shape)):
                o.append('    vh_assert(%d == %d, "shape of %s.%s");' % (a, b, dt['name'], n))
                cond += (' && ' if cond else '') + 'i%d < %d' % (k, a)
            ct = {('i', 1): 'int8_t', ('i', 2): 'int16_t', ('i', 4): 'int32_t', ('i', 8): 'int64_t', ('u', 1): 'uint8_t', ('u', 2): 'uint16_t', ('u', 4): 'uint32_t', ('f', 4): 'float', ('f', 8): 'double'}.get((kind, size), 'int32_t')
            o.append('    LAY_SAME(%s, %s, r.%s%s, raw + %d + %d * (%s), "%s.%s: Python reads the element C wrote");' % (
                cond or '1', ct, cn, ix, off, size, lin, dt['name'], n))
            o.append('    ' + '}' * max(1, len(shape)))
        o.append('}')
    missing = [k for k in PAIRS if k not in [x['name'] for x in dts if x['where'] == 'common.py']]
    o.append('static void chk_all(void)\n{')
    for k in missing:
        o.append('    vh_assert(0, "%s exists");' % k)
    for st in STRUCTS:
        o.append('#ifdef ONLY_%s' % st)
        for cs, fn in calls:
            if cs == st:
                o.append('    %s();' % fn)
        o.append('#endif')
    o.append('}')
    txt = '\n'.join(o) + '\n'
    f = os.path.join(d, 'layout_gen.h')
    tmp = f + '.%d' % os.getpid()
    open(tmp, 'w').write(txt)
    os.rename(tmp, f)
