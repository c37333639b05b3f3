#!/usr/bin/env python3
"""Mechanical mutants of /repo's sources, to find blind spots of the checks (not part of any check).
automut.py list | automut.py run WORKER NWORKERS [START [END [FILEFILTER]]]: results go to /tmp/automut.WORKER.log"""
import sys, os, re, subprocess, random, time
R = '/repo/'
CH = [
 ('xdvdfs-core/src/read.rs', 'C03 C17 C08 C23 C16 C22'),
 ('xdvdfs-core/src/layout.rs', 'C23 C03 C04 C02 C13 C07 C17 C05 C08 C16'),
 ('xdvdfs-core/src/util.rs', 'C18 C03 C05 C17 C08'),
 ('xdvdfs-core/src/checksum.rs', 'C15 C17 C23'),
 ('xdvdfs-core/src/blockdev.rs', 'C19 C04 C17 C06 C11 C07'),
 ('xdvdfs-core/src/write/fs/mod.rs', 'C02 C05 C06 C17 C14 C22 C21 C13'),
 ('xdvdfs-core/src/write/fs/stdfs.rs', 'C02 C13 C17 C06 C11 C22'),
 ('xdvdfs-core/src/write/fs/sector_linear.rs', 'C06 C19 C17 C22'),
 ('xdvdfs-core/src/write/fs/xdvdfs.rs', 'C05 C17 C06 C13 C11'),
 ('xdvdfs-core/src/write/fs/remap.rs', 'C14 C13 C17 C21'),
 ('xdvdfs-core/src/write/', 'C02 C20 C13 C17 C05 C06 C01'),
 ('xdvdfs-cli/src/cmd_md5.rs', 'C23'), ('xdvdfs-cli/src/cmd_info.rs', 'C23'), ('xdvdfs-cli/src/cmd_read.rs', 'C23 C15'),
 ('xdvdfs-cli/src/cmd_unpack.rs', 'C10 C09'), ('xdvdfs-cli/src/cmd_pack.rs', 'C20 C12 C11 C24'), ('xdvdfs-cli/src/cmd_compress.rs', 'C06 C11 C12'),
 ('xdvdfs-cli/src/cmd_build_image.rs', 'C21 C14 C11 C12'), ('xdvdfs-cli/src/exiso_compat.rs', 'C24 C12'),
 ('xdvdfs-cli/src/img.rs', 'C06 C23 C07 C11 C10'), ('xdvdfs-cli/src/', 'C24 C23 C10'),
 ('xdvdfs-fsd/src/img_fs.rs', 'C16 C08'), ('xdvdfs-fsd/src/main.rs', 'C16'),
 ('xdvdfs-desktop/src/', 'C26'), ('xdvdfs-web/src/ops/tauri.rs', 'C26'), ('xdvdfs-web/src/picker/tauri.rs', 'C26'), ('xdvdfs-web/src/', 'C25'),
]
SKIP = ('main.rs:desktop', 'build.rs', 'daemonize.rs')
def checks(f):
    for p, c in CH:
        if f.startswith(p): return c.split()
    return []
def strip(line):
    return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m[0]) - 2) + '"', line).split('//')[0]
OPS = [
 (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r'\bif !', 'if '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
 (r'\.div_ceil\(', '.wrapping_div('), (r'\bcontinue;', 'break;'), (r'\.rev\(\)', ''), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
 (r'\.is_empty\(\)', '.is_empty() == false'), (r'\bOk\(None\)', 'Err(todo!())'), (r'\.\.=', '..'), (r'\bas u64\b', 'as u32 as u64'), (r'\bas usize\b', 'as u16 as usize'),
 (r'\bNone => ', None),
]
def gen():
    out = []
    for f in subprocess.check_output(['git', '-C', R, 'ls-files', '*.rs'], text=True).split():
        if not checks(f) or any(f.endswith(s) for s in SKIP): continue
        L = open(R + f).read().split('\n')
        end = next((i for i, l in enumerate(L) if '#[cfg(test)]' in l and i + 1 < len(L) and L[i + 1].startswith('mod ')), len(L))
        for i, l in enumerate(L[:end]):
            s = strip(l)
            if not s.strip() or re.match(r'\s*(use |pub use|mod |#\[|log::|debug!|info!)', s): continue
            for a, b in OPS:
                if b is None: continue
                for m in re.finditer(a, s):
                    if a in (r' < ', r' > ', r' - ') and '->' in s[m.start():m.end() + 1]: continue
                    out.append((f, i, l[:m.start()] + b + l[m.end():], f'{a}->{b}'))
            for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-f]+)(?=(u8|u16|u32|u64|usize|i64)?\b)', s):
                v = int(m[0], 0)
                if 'fn ' in s: continue
                out.append((f, i, l[:m.start()] + str(v + 1) + l[m.end():], 'n+1'))
                if v > 0: out.append((f, i, l[:m.start()] + str(v - 1) + l[m.end():], 'n-1'))
            t = s.strip()
            if re.match(r'^[\w.*]+(\(| = | \+= |\.)', t) and t.endswith(';') and not t.startswith(('let ', 'return', 'break', 'continue')):
                ind = l[:len(l) - len(l.lstrip())]
                bal = t.count('(') == t.count(')') and t.count('{') == t.count('}')
                if bal:
                    out.append((f, i, ind + ';', 'del'))
                    if t.endswith('?;'): out.append((f, i, ind + 'let _ = ' + l.strip()[:-2] + ';', 'ignore-err'))
            if re.match(r'^return ', t) and t.endswith(';'): out.append((f, i, '', 'del-return'))
            if re.match(r'^(\} else )?if ', t) and t.endswith('{') and ' let ' not in t:
                out.append((f, i, re.sub(r'\bif (.*) \{', r'if false && (\1) {', l), 'if-false'))
                out.append((f, i, re.sub(r'\bif (.*) \{', r'if true || (\1) {', l), 'if-true'))
    random.Random(7).shuffle(out)
    return out
if __name__ == '__main__':
    g = gen()
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(g)); print(Counter(x[0] for x in g)); print(Counter(x[3] for x in g)); sys.exit()
    w, n = int(sys.argv[2]), int(sys.argv[3])
    start = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    end = int(sys.argv[5]) if len(sys.argv) > 5 else len(g)
    flt = sys.argv[6] if len(sys.argv) > 6 else ''
    pw = f'/tmp/pw{w}'
    env = dict(os.environ, PW=pw)
    subprocess.run(['/verif/tools/seedrun.sh', 'none'], env=env, check=True)
    log = open(f'/tmp/automut.{w}.log', 'a')
    for k in range(start, min(end, len(g))):
        if k % n != w % n: continue
        f, i, new, op = g[k]
        if flt and not re.search(flt, f): continue
        path = f'{pw}/repo/{f}'
        src = open(R + f).read().split('\n')
        old = src[i]; src[i] = new
        open(path, 'w').write('\n'.join(src))
        t = time.time(); res = []; verdict = 'SURVIVED'
        for c in checks(f):
            p = subprocess.run(['timeout', '-k', '5', '700', 'bash', f'{pw}/verif/check.sh', c, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and 'VIOLATION' in p.stdout: verdict = 'caught ' + c; break
            if p.returncode != 0:
                verdict = 'nocompile' if 'build failed' in p.stdout else f'rc{p.returncode} {c}'; break
        log.write(f'{k} {verdict} {time.time()-t:.0f}s {f}:{i+1} [{op}] {old.strip()}  =>  {new.strip()}\n'); log.flush()
        open(path, 'w').write(open(R + f).read())
