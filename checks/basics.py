"""C07 (Field), C08, C09 (parameter files)."""
import decimal, os, re, struct
import numpy as np
from core import W, Inconclusive
import build, runs


def special(rng, n):
    v = rng.normal(size=n)*10.0**rng.integers(-300, 300, size=n)
    k = rng.random(n)
    v[k < 0.05] = -0.0
    v[(k > 0.05) & (k < 0.08)] = np.inf
    v[(k > 0.08) & (k < 0.11)] = 5e-324
    w = v.view(np.int64)
    sel = (k > 0.11) & (k < 0.14)
    w[sel] = 0x7ff8000000000000 | rng.integers(1, 2**40, size=n)[sel]      # quiet NaNs with payload
    return v


def C07(c):
    LV = ['n', 'l', 'np1', 'k']
    for kind in ('plain', 'asan'):
        exe = build.driver('field', kind, 'cheb_c')
        for hist in range(c.pick(6, 30) if kind == 'plain' else c.pick(2, 6)):
            rng = c.rng
            w, plan, model, live, nxt = W(), [], {}, [], 0

            def st(i):
                return {k: v.copy() for k, v in model[i]['d'].items()}
            big = kind == 'plain' and hist == 0      # as long as a production grid, at least a million points
            for step in range(c.pick(60, 150)):
                a = rng.random()
                if step == 0 and big:
                    model[nxt] = {'name': 'big', 'size': c.pick(2100003, 13107203), 'd': {}}
                    model[nxt]['d'] = {k: np.full(model[nxt]['size'], 0.25) for k in LV}
                    v = rng.normal(size=model[nxt]['size'])
                    model[nxt]['d']['np1'], model[nxt]['d']['n'] = v, v.copy()
                    w.op('new', nxt, 'big', v.size, 0.25)
                    w.op('set', nxt, 'np1', v)
                    w.op('shift', nxt)
                    w.op('get', nxt)
                    w.op('del', nxt)
                    plan += [('-',)]*3 + [('shift', nxt, st(nxt)), ('-',)]
                    nxt += 1
                    continue
                if a < 0.12 or not live:
                    size = int(rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 31, 64, 100, 1000, 1001, 4099, 20000 if hist == 0 else 17]))
                    if kind == 'plain' and (rng.random() < 0.08 or step == int(big) and hist < 3):
                        size = int(rng.choice([33000, 66000, 131073, 300001]))
                    v = float(rng.choice([0.0, -0.0, 1.5, np.inf, np.nan, rng.normal(), 1e308, 5e-324]))
                    nm = str(rng.choice(['f', 'p', '', 'a long field name', 'n', 'np1']))
                    model[nxt] = {'name': nm, 'size': size, 'd': {k: np.full(size, v) for k in LV}}
                    w.op('new', nxt, nm, size, v)
                    plan.append(('new', nxt, st(nxt)))
                    live.append(nxt)
                    nxt += 1
                elif a < 0.16:
                    w.op('threads', int(rng.choice([1, 2, 3, 4, 7, 8, 16])))
                    plan.append(('-',))
                elif a < 0.20 and len(live) > 1:
                    i = live.pop(int(rng.integers(len(live))))
                    w.op('del', i)
                    plan.append(('-',))
                elif a < 0.6:
                    i = live[int(rng.integers(len(live)))]
                    lv = LV[int(rng.choice([0, 1, 2, 2, 2, 3]))]
                    v = special(rng, model[i]['size'])
                    model[i]['d'][lv] = v.copy()
                    w.op('set', i, lv, v)
                    plan.append(('-',))
                elif a < 0.85:
                    i = live[int(rng.integers(len(live)))]
                    model[i]['d']['n'] = model[i]['d']['np1'].copy()
                    w.op('shift', i)
                    plan.append(('-',))
                    w.op('get', i)
                    plan.append(('shift', i, st(i)))
                else:
                    i = live[int(rng.integers(len(live)))]
                    w.op('get', i)
                    plan.append(('get', i, st(i)))
            for i in live:
                w.op('get', i)
                plan.append(('get', i, st(i)))
            tr = c.run(exe, w, key=f'{kind}/crash')
            if not tr.done:
                continue
            for pl, (op, vals) in zip(plan, tr.ops):
                if pl[0] == '-':
                    continue
                what, i, d = pl
                m = model[i]
                c.expect(vals[0] == m['name'] and vals[1] == m['size'], f'{what}/attributes', f'name/size read {vals[:2]} for {m["name"]!r},{m["size"]}')
                for lv, got in zip(LV, vals[2:]):
                    c.same(got, d[lv], f'{what}/{lv}', f'level {lv} after {what} (size {m["size"]}, {kind} build)')
                if what == 'shift':
                    c.count('shifts_judged')
                c.case((kind, hist, what, i, m['size'], d['np1'].tobytes()[:64], len(c.distinct)), m['size'] > 0)
    c.rule = 'one state of a Field judged bitwise against a model after creation, writes and shifts; non-trivial: size > 0'


def double_text(rng):
    t = int(rng.integers(0, 11))
    if t >= 9:       # next to the middle between two doubles: the last of many digits decides
        x = float(rng.normal()*10.0**float(rng.integers(-12, 13)))
        y = float(np.nextafter(x, np.inf))
        with decimal.localcontext() as ctx:
            ctx.prec = 1200
            mid = (decimal.Decimal(x) + decimal.Decimal(y))/2
            off = (decimal.Decimal(y) - decimal.Decimal(x))*decimal.Decimal(10)**int(rng.choice([-4, -6, -30]))
            return format(mid + off*int(rng.choice([-1, 0, 1])), 'e' if rng.random() < 0.3 else 'f')
    if t == 8:
        return str(rng.choice(['.5', '5.', '+3', '+0.25', '1e+05', '00.25', '-.125', '1E-3', '-0', '-0.0', '0e0', '007', '3.0000', '12345678901234567890123', '0.' + '0'*60 + '7', '2'*300]))
    if t == 0:
        while True:
            x = struct.unpack('<d', struct.pack('<Q', int(rng.integers(0, 2**63)) | (int(rng.integers(0, 2)) << 63)))[0]
            if np.isfinite(x) and abs(x) > 2.3e-308:
                return repr(x)
    x = float(rng.normal()*10.0**float(rng.integers(-20, 21)))
    if t == 1:
        return f'{x:.17g}'
    if t == 2:
        return f'{x:.25e}'
    if t == 3:
        return str(int(rng.integers(-1000, 1000)))
    if t == 4:
        return f'{x:.3E}'
    if t == 5:
        return str(round(0.9999*abs(x), 16))
    if t == 6:
        return f'{float(rng.normal()):.20f}'
    return repr(x)


def mistyped(rng, k):
    """A word that differs from a parameter's name by one character and is no parameter's name."""
    while True:
        i = int(rng.integers(0, len(k) + 1))
        if rng.random() < 0.3:
            i = int(rng.choice([0, len(k)]))
        x = str(rng.choice(list('_-.,;:"\'0129aAzZ#=/\\()[]')))
        t = int(rng.integers(0, 4))
        s = k[:i] + x + k[i:] if t < 2 else k[:i] + x + k[i+1:] if t == 2 else k[:i] + k[i+1:]
        if s and s not in runs.INTS + runs.REALS + runs.STRS:
            return s


def param_file(rng):
    """(text, expected values by name)"""
    val, txt = {}, {}
    for k in runs.INTS:
        x = int(rng.choice([0, 1, 2, 7, 40, 8193, 2**31 - 1, int(rng.integers(0, 10**6))]))
        if k in ('l_ang', 'm_ang') and rng.random() < 0.3:
            x = -x
        val[k], txt[k] = x, str(x)
        if rng.random() < 0.15 and x >= 0:
            txt[k] = str(rng.choice(['0', '00', '+', '+0', '0'*30])) + txt[k]
    for k in runs.REALS:
        txt[k] = double_text(rng)
        val[k] = float(txt[k])
    for k in runs.STRS:
        s = str(rng.choice(['compact_pulse', 'ingoing', 'outgoing', 'time_symmetric', 'nx', '7', 'a/b.c-d', 'True', "q'\"x", 'Grid,1', 'é']))
        val[k], txt[k] = s, s
    names = list(txt)
    order = [names[i] for i in rng.permutation(len(names))]
    lines = []
    used = set()
    many = int(rng.choice([2, 2, 2, 2, 2, 2, 2, 8, 60]))

    def junk():
        k = str(rng.choice(names))
        t = int(rng.integers(0, 16))
        if t >= 14:
            return f'{mistyped(rng, k)} {int(rng.integers(90, 100))}'
        return ['', '# comment', f'{k}_x 99', f'x{k} 99', f'{k[:-1]} 99' if k[:-1] not in names and k[:-1] else 'zz 1', f'{k}0 98' if k + '0' not in names else 'zz 2',
                f'foo {k} 97', f'the{k} 96', f'{k}:95', f'{k.upper() if k.upper() not in names else "QQ"} 94', '   ', 'z'*int(rng.integers(1, 3000)) if rng.random() < 0.7 else 'z'*int(rng.integers(3000, 80000)),
                f'{k}=93', 'output_dir /a b/' + k][t]
    for k in order:
        for _ in range(int(rng.integers(0, many + 1))):
            lines.append(junk())
        sep = ' '*int(rng.choice([1, 1, 1, 2, 5]))
        tail = str(rng.choice(['', '', '', ' ', '  # note', ' 12345', '\t']))
        lines.append(f'{k}{sep}{txt[k]}{tail}')
        used.add(k)
        if rng.random() < 0.25:       # a later occurrence must not count
            d = str(rng.choice(sorted(used)))
            lines.append(f'{d} {"other" if d in runs.STRS else int(rng.integers(1, 50))}')
    eol = str(rng.choice(['\n', '\n', '\r\n']))
    s = eol.join(lines)
    if rng.random() < 0.5:
        s += eol
    return s, val


def judge_params(c, vals, want, key, info):
    for name, got in zip(runs.GETTERS, vals):
        exp = want[name]
        if isinstance(got, np.ndarray):
            c.same(got, [float(exp)], f'{key}/{name}', f'{name} read back as {got[0]!r}, written {exp!r}', file=info)
        else:
            c.expect(got == exp, f'{key}/{name}', f'{name} read back as {got!r}, written {exp!r}', file=info)


def C08(c):
    for kind in ('plain', 'asan'):
        exe = build.driver('params', kind, 'cheb_c')
        w, exp = W(), []
        for k in range(c.pick(300, 3000) if kind == 'plain' else c.pick(60, 400)):
            s, val = param_file(c.rng)
            if c.rng.random() < 0.3:       # a path that held other values before
                w.op('put', f'{c.tmp}/same{kind}{int(c.rng.integers(2))}.txt', s)
            else:
                path = f'{c.tmp}/p{kind}{k}.txt'
                with open(path, 'w', newline='') as f:
                    f.write(s)
                w.op('load', path)
            exp.append((val, s))
        tr = c.run(exe, w, key=f'{kind}/crash')
        if not tr.done and not c.viol:
            raise Inconclusive('no trace')
        for (val, s), (op, vals) in zip(exp, tr.ops):
            judge_params(c, vals, val, kind, s)
            c.count('values_compared', len(vals))
            c.case((kind, s))
    c.rule = 'one generated parameter file (order, duplicates, near-miss names, junk lines, CRLF, missing final newline, many number formats) loaded and compared value by value'


def C09(c):
    cases = []
    allp = runs.INTS + runs.REALS + runs.STRS
    for k in allp:
        cases.append((k, 'missing', None))
        cases.append((k, 'near-miss', None))
        if k in runs.STRS:
            continue
        cases.append((k, 'empty', ''))
        cases.append((k, 'word', str(c.rng.choice(['abc', 'None', 'x1', '-', '+', '.', '#5', '=5', 'e5']))))
        cases.append((k, 'large', '99999999999999999999' if k in runs.INTS else '1e999'))
        if k in runs.INTS:
            cases.append((k, 'large', str(c.rng.choice(['2147483648', '-2147483649', '4294967297', '1' + '0'*400]))))
        else:
            cases.append((k, 'large', str(c.rng.choice(['-1e400', '1' + '0'*310, '-2e308']))))
    confs = [('plain', 'fd_c'), ('plain', 'cheb_c'), ('asan', 'fd_c')]
    for q, (kind, var) in enumerate(confs):
        exe = build.program(kind, var)
        good = runs.params()

        def attempt(txt, tag, missing=None, path=None):
            od = f'{c.tmp}/out'
            os.makedirs(od)
            pf = path or f'{c.tmp}/params.txt'
            if txt is not None:
                with open(pf, 'w') as f:
                    f.write(txt)
            r = runs.run_main(c, exe, pf, od, timeout=60)
            files = os.listdir(od)
            for f in files:
                os.unlink(f'{od}/{f}')
            os.rmdir(od)
            if tag == 'good':
                if r.rc != 0 or not files or 'Beginning evolution' not in r.out:
                    c.fail(f'{kind}/{var}/good', f'a complete parameter file does not run: status {r.rc}, files {files}: {r.err[-500:]}')
                return
            c.expect(r.rc != 0, f'{kind}/{var}/{tag}/status', f'{tag}: the program ended with status 0', params=txt)
            c.expect(not files, f'{kind}/{var}/{tag}/files', f'{tag}: the program wrote {files}', params=txt)
            c.expect('Beginning evolution' not in r.out, f'{kind}/{var}/{tag}/started', f'{tag}: the evolution started', params=txt)
            if missing:
                c.expect(re.search(r'(?<![A-Za-z0-9_])' + re.escape(missing) + r'(?![A-Za-z0-9_])', r.out) is not None, f'{kind}/{var}/{tag}/report',
                         f'{tag}: the missing parameter is not named on standard output: {r.out[-300:]!r}', params=txt)
            c.case((kind, var, tag, txt))
        attempt(runs.text(good), 'good')
        attempt(None, 'absent file', path=f'{c.tmp}/nowhere.txt')
        attempt(None, 'absent directory', path=f'{c.tmp}/no/such/params.txt')
        os.makedirs(f'{c.tmp}/isdir', exist_ok=True)
        attempt(None, 'directory', path=f'{c.tmp}/isdir')
        attempt('', 'empty file')
        attempt('\n\n', 'blank file')
        attempt(runs.text(good)[:-40], 'truncated file')
        sel = cases if q == 0 or c.thorough else [cases[int(i)] for i in c.rng.permutation(len(cases))[:40]]
        for k, how, v in sel:
            names = list(good)
            if c.rng.random() < 0.7:
                names = [names[i] for i in c.rng.permutation(len(names))]
            lines = []
            for n in names:
                if n != k:
                    lines.append(f'{n} {good[n]}')
                elif how == 'near-miss':
                    lines.append(str(c.rng.choice([f'{n}x {good[n]}', f'x{n} {good[n]}', f'#{n} {good[n]}', f'{n}={good[n]}'] + [f'{mistyped(c.rng, n)} {good[n]}' for _ in range(4)])))
                elif how != 'missing':
                    lines.append(f'{n} {v}' if how != 'empty' else str(c.rng.choice([n, n + ' ', n + '   '])))
            attempt('\n'.join(lines) + '\n', f'{how} {k}', k if how in ('missing', 'near-miss') else None)
    c.rule = 'one run of the program on a broken parameter file: each required parameter missing, misspelt, empty, not a number or too large; absent, empty and truncated files'
