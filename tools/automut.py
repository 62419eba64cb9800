#!/usr/bin/env python3
"""Systematic one-line changes of /repo's sources, each tried against all checks; prints the survivors.
usage: automut.py WORKER WORKERS LOG   (works in /tmp/am.WORKER)"""
import glob, os, re, subprocess, sys, time
K, N, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
RUNS = os.environ.get('RUNS', '500')
D = f'/tmp/am.{K}'; REPO = f'{D}/repo'; V = f'{D}/verif'
env = dict(os.environ, RUSTUP_TOOLCHAIN='1.99.1', CARGO_NET_OFFLINE='true')
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, timeout=t)
    except subprocess.TimeoutExpired: return None

def code_lines(src):
    """indices of lines outside tests, comments and attributes"""
    out, depth_cut = [], None
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): break
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod'): continue
        out.append(i)
    return out

def mutants(src):
    for i in code_lines(src):
        l = src[i]; s = l.strip(); ind = l[:len(l) - len(l.lstrip())]
        def m(tag, new): return (i, tag, new)
        if s.endswith(';') and re.match(r'[\w.:&(*]', s) and not re.match(r'(let|return|const|pub|use|type|static|impl|fn)\b', s):
            yield m('del', '')
        if re.match(r'\.\w+\(.*\)[?;]*$', s): yield m('delcall', ind + re.sub(r'^\.\w+\(.*\)', '', s) + '\n' if re.sub(r'^\.\w+\(.*\)', '', s) else '')
        x = re.match(r'(\} else )?if (?!let )(.*) \{$', s)
        if x:
            yield m('neg', l.replace('if ' + x.group(2), f'if !({x.group(2)})'))
            yield m('never', l.replace('if ' + x.group(2), f'if false && ({x.group(2)})'))
            yield m('always', l.replace('if ' + x.group(2), f'if true || ({x.group(2)})'))
        for a, b in ((' == ', ' != '), (' != ', ' == '), (' >= ', ' > '), (' > ', ' >= '), (' <= ', ' < '), (' < ', ' <= '), (' && ', ' || '), (' || ', ' && '),
                     ('true', 'false'), ('false', 'true'), ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_empty()', '.len() == 1'), ('.last()', '.first()'),
                     ('Ordered', 'Unordered'), ('unwrap_or_default()', 'unwrap()'), ('may_load', 'load'), ('.to_string()', '.to_lowercase()'), ('.clone()', '.clone().clone()'),
                     ('STATE_OPEN', 'STATE_OPENED'), ('::Open', '::Closed'), ('::Closed', '::Open'), ('plus_seconds', 'plus_minutes'), ('.src.', '.dest.'), ('Option::is_none', 'Option::is_some'),
                     ('reply_on_success', 'reply_always'), ('reply_on_success', 'reply_on_error'), ('into_iter()', 'into_iter().rev()'), ('.iter()', '.iter().rev()'), ('.iter()', '.iter().take(1)'), ('into_iter()', 'into_iter().skip(1)')):
            if a in l and a != '.clone()' and b.strip() not in ('.to_lowercase()',) and not s.startswith('//'): yield m(f'{a.strip()}>{b.strip()}', l.replace(a, b, 1))
        for x in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
            n = int(x.group(1))
            for v in {n + 1, max(n - 1, 0)} - {n}: yield m(f'{n}>{v}', l[:x.start()] + str(v) + l[x.end():])
        for x in re.finditer(r'"((?:[^"\\{}]|\\.)+)"', l):
            if 'panic!' in l or 'unreachable!' in l or 'generic_err' in l or '#[error' in l or 'format!' in l: continue
            yield m('str', l[:x.start(1)] + x.group(1) + 'x' + l[x.end(1):])
        x = re.match(r'(\w+): ([^:].*),$', s)
        if x and not re.search(r'(String|Option<|Vec<|u64|u32|bool|Binary|Addr|Deps|&str|Box<|impl |Msg|Info|Env|Ibc\w+)$|^(impl|&|Option<|Vec<|String|u64|u32|bool|Addr|Binary|Deps|Env|Message|[A-Z]\w*(::\w+)*$)', x.group(2)):
            yield m('fdefault', ind + x.group(1) + ': Default::default(),\n')
        elif re.match(r'\w+,$', s):
            yield m('sdefault', ind + s[:-1] + ': Default::default(),\n')
            if not s[:-1] in ('deps', 'env', 'info'): yield m('adefault', ind + 'Default::default(),\n')
        x = re.match(r'(.*=> )(.*),$', s)
        if x and 'Err' not in x.group(2): 
            yield m('guard', ind + x.group(1).replace(' =>', ' if false =>') + x.group(2) + ',\n')
        if s.startswith('return Err('): yield m('noerr', ind + 'let _ = ' + s[len('return '):].rstrip(';') + ';\n' if s.endswith(';') else l)
        if s.startswith('Ok(') or s.startswith('Some('): pass
        if re.match(r'\.unwrap_or\((.*)\)', s) : yield m('unwrap', l.replace(re.match(r'\.unwrap_or\((.*)\)', s).group(0), '.unwrap()'))

FIRST = {'src/types/cosmos_msg.rs': [7], 'src/types/query_msg.rs': [11, 8], 'src/ibc/types/packet.rs': [7, 9, 11, 10, 20], 'src/ibc/types/metadata.rs': [4, 16, 17],
         'src/ibc/handshake.rs': [4, 5, 3, 14, 12], 'src/ibc/relay.rs': [12, 10, 20, 15], 'src/types/callbacks.rs': [12], 'src/ibc/types/events.rs': [20],
         'src/ibc/types/stargate.rs': [16], 'src/types/state.rs': [18, 6, 5, 16], 'src/contract.rs': [1, 2, 17, 16, 14, 12, 10]}
def main():
    os.makedirs(D, exist_ok=True)
    sh(f'rm -rf {REPO} {V}; cp -a /repo {REPO}; mkdir {V}; cp -r /verif/sim /verif/lean /verif/build.sh /verif/known-findings.txt {V}/; cp -a /tmp/w/verif/target {V}/target')
    for f in (f'{V}/sim/Cargo.toml', f'{V}/lean/Cargo.toml'):
        s = open(f).read(); s = re.sub(r'(\.\./)+repo|"/repo', lambda m: (m.group(0)[0] if m.group(0)[0] == '"' else '') + REPO, s); open(f, 'w').write(s)
    files = [f for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True) + ['/repo/derive/src/lib.rs']) if not f.endswith(('mod.rs', 'schema.rs', 'error.rs'))]
    todo = []
    for f in files:
        src = open(f).readlines()
        for i, tag, new in mutants(src):
            if new != src[i]: todo.append((f[6:], i, tag, new))
    lib = f'{REPO}/src/lib.rs'; t = open(lib).read(); open(lib, 'w').write(re.sub(r'#!\[deny\([^\]]*\)\]', '', t))
    done = set()
    done = {l.split(' | ')[1] for g in glob.glob(LOG.rsplit('.', 1)[0] + '.*') for l in open(g) if ' | ' in l}
    rank = ['ibc/handshake', 'ibc/relay', 'packet', 'types/state', 'query_msg', 'metadata', 'events', 'stargate', 'callbacks', 'types/msg', 'contract', 'cosmos_msg', 'helpers', '']
    todo = sorted(enumerate(todo), key=lambda x: (next(k for k, r in enumerate(rank) if r in x[1][0]), x[0]))
    print(len(todo), flush=True)
    order = [12, 6, 10, 16, 17, 1, 2, 11, 14, 18, 7, 8, 4, 3, 5, 9, 13, 15, 19, 20, 23]
    for at, (n, (f, i, tag, new)) in enumerate(todo):
        if at % N != K: continue
        key = f'{f}:{i+1} {tag} {n}'
        if key in done: continue
        src = open(f'/repo/{f}').readlines(); old = src[i]; src[i] = new
        open(f'{REPO}/{f}', 'w').writelines(src)
        res = None
        r = sh(f'cd {REPO} && CARGO_TARGET_DIR={D}/chk cargo check --offline -q --all-features 2>&1')
        if r is not None and r.returncode == 0: r = sh(f'cd {V} && ./build.sh 2>&1')
        if r is None or r.returncode: res = 'nobuild'
        else:
            first = FIRST.get(f, [])
            for p in first + [x for x in order if x not in first]:
                r = sh(f'cd {V} && nice ./target/debug/icasim check --property C{p:02} --tier quick --runs {RUNS} --out {D}/ev 2>&1', 400)
                if r is None: res = f'hang C{p}'; break
                if r.returncode == 1: res = f'killed C{p:02}'; break
            else:
                r = sh(f'cd {V} && ./build.sh lean 2>&1')
                if r is None or r.returncode: res = 'nobuild lean'
                else:
                    for p in (21, 22):
                        r = sh(f'cd {V} && nice ./target/debug/icasim check --property C{p:02} --tier quick --runs {RUNS} --out {D}/ev 2>&1', 400)
                        if r is None or r.returncode == 1: res = f'killed C{p}'; break
                if not res:
                    r = sh(f'. /opt/vp/env.sh; cd {REPO} && cargo test --workspace --all-features --offline -q 2>&1')
                    res = 'SURVIVED' if r and r.returncode == 0 else 'tests-only'
        open(f'{REPO}/{f}', 'w').writelines(open(f'/repo/{f}').readlines())
        with open(LOG, 'a') as o: o.write(f'{res} | {key} | {old.strip()} | {new.strip()[:120]}\n')
main()
