"""mutate.py N [SEED] [FILE-REGEX] [WORKDIR]: random source mutants that build and pass the tests of the repository, run against the checks
of the file they are in.  Works in a copy; prints one line per mutant.  Development aid, not used by any check."""
import os, random, re, subprocess, sys
N = int(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; rx = sys.argv[3] if len(sys.argv) > 3 else '.'
W = sys.argv[4] if len(sys.argv) > 4 else '/tmp/mw'
R = W + '/repo'; B = W + '/tb'
MAP = [('pt_packet_decoder', 'C05 C06 C27 C03'), ('pt_packet.c', 'C05 C03 C08'), ('pt_encoder', 'C04 C03'), ('pt_event_decoder', 'C08 C10 C09 C06 C27 C01'), ('pt_event_queue', 'C08 C10'), ('pt_query_decoder', 'C09 C08 C10 C06 C21'),
       ('pt_insn_decoder', 'C11 C27 C06 C21 C02 C23'), ('pt_block_decoder', 'C12 C27 C06 C11 C21 C02 C23'), ('pt_block_cache', 'C12 C16'), ('pt_ild', 'C13 C11'), ('pti-', 'C13'), ('pt_insn.c', 'C11 C13 C12'), ('pt_image.c', 'C14 C22 C24'),
       ('pt_image_section_cache', 'C15 C24 C22 C16'), ('pt_section', 'C14 C24 C15 C22 C16'), ('pt_msec_cache', 'C11 C12 C14'), ('pt_asid', 'C14 C11'), ('pt_time', 'C10 C08'), ('pt_last_ip', 'C08 C11'), ('pt_tnt_cache', 'C09 C11'),
       ('pt_retstack', 'C11 C12'), ('pt_config', 'C27 C21'), ('pt_cpu', 'C27'), ('pt_sync', 'C06'), ('sideband', 'C17 C18 C28'), ('pevent', 'C19 C18'), ('ptdump', 'C20'), ('pttc', 'C25'), ('ptseg', 'C26'), ('ptxed/src/ptxed.c', 'C29'), ('load_elf', 'C30 C29')]
SK = re.compile(r'windows|ptunit|/test/|version|pt_error|errcode')
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace', **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, 'timeout')
def setup():
    os.makedirs(W, exist_ok=True)
    sh('rm -rf %s; git clone -q /repo %s' % (R, R))
    f = open('/opt/vp/build.sh').read().replace('/repo/_build', B).replace('/repo', R)
    open(W + '/build.sh', 'w').write(f)
    f = open('/opt/vp/test.sh').read().replace('/repo/_build', B).replace('/repo', R).replace('bash /opt/vp/build.sh', 'bash %s/build.sh' % W)
    open(W + '/test.sh', 'w').write(f)
def run_tests():
    r = sh('bash %s/build.sh' % W)
    if r.returncode: return 'build'
    r = sh('bash %s/test.sh %s/t.json' % (W, W), 300)
    if r.returncode: return 'tests'
    r = sh('python3 /verif/tools/cmpbase.py %s/t.json' % W)
    return None if ' missing 0 ' in r.stdout else 'tests ' + r.stdout[-80:]
def muts(l):
    out = []
    code = l.split('/*')[0]
    if code.strip().startswith(('*', '#', '//', 'case PTI')) or not code.strip(): return out
    for a, b in (('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' + ', ' - '), (' - ', ' + '), (' & ', ' | '), (' | ', ' & '), ('<<', '>>'), ('>>', '<<'),
                 ('|=', '='), ('&=', '='), ('+=', '='), ('-=', '='), ('continue;', 'break;'), ('break;', ';'), (' ? ', ' ? !'), ('true', 'false')):
        for m in re.finditer(re.escape(a), code):
            if a == '==' or a not in ('=',): out.append(code[:m.start()] + b + code[m.end():] + l[len(code):])
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=(u|ul|ull)?\b)', code):
        v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else None
        if v is not None:
            for w in ({v + 1, v - 1, 0} - {v}):
                if w >= 0: out.append(code[:m.start()] + str(w) + code[m.end():] + l[len(code):])
    if re.match(r'^\t+[\w>.\-\[\]*()&]+ (\||&|\+|-)?= [^;]*;$', code.rstrip()) : out.append('\t;\n')
    if re.match(r'^\t+\w+\([^;]*\);$', code.rstrip()): out.append('\t;\n')
    m = re.match(r'^(\t+(?:} else )?if \()(.*)\)( \{)?$', code.rstrip())
    if m and m.group(2).count('(') == m.group(2).count(')'):
        for c in ('0 && (%s)', '1 || (%s)', '!(%s)'): out.append(m.group(1) + c % m.group(2) + ')' + (m.group(3) or '') + '\n')
    return out
def main():
    setup(); rnd = random.Random(seed)
    fs = [f for f in subprocess.check_output(['git', '-C', R, 'ls-files'], text=True).split() if f.endswith(('.c', '.h')) and not SK.search(f) and re.search(rx, f) and any(k in f for k, _ in MAP)]
    sz = [len(open(os.path.join(R, f)).read()) ** 0.7 for f in fs]
    r = run_tests()
    if r: print('baseline fails: ' + r); return
    k = 0
    while k < N:
        f = rnd.choices(fs, sz)[0]; p = os.path.join(R, f); src = open(p).read().split('\n')
        # only inside of function bodies (after the first line that is a lone brace)
        i = rnd.randrange(len(src)); ms = muts(src[i] + '\n')
        if not ms or 'pte_internal' in src[i] + (src[i + 1] if i + 1 < len(src) else '') or re.search(r'if \(!\w+( \|\| !\w+)*\)', src[i]): continue
        if f.endswith('.h') and 'pti-' not in f: continue
        new = rnd.choice(ms).rstrip('\n')
        s2 = src[:]; s2[i] = new; open(p, 'w').write('\n'.join(s2))
        k += 1; r = run_tests(); d = '%s:%d: %s => %s' % (f, i + 1, src[i].strip(), new.strip())
        if r is None:
            cs = next(c for q, c in MAP if q in f).split(); res = []; killed = False
            for c in cs:
                x = sh('cd /verif && VF_REPO=%s VF_BUILD=%s/b VF_OUT=%s/o VF_EVIDENCE=%s/e ./check %s' % (R, W, W, W, c), 900)
                res.append('%s=%d' % (c, x.returncode))
                if x.returncode == 1 and 'VIOLATION' in x.stdout: killed = True; break
                if x.returncode: res[-1] += ' ' + ' '.join(re.findall(r'CHECK-ERROR.*', x.stdout)[:1])[:100]
            print('%s %s [%s]' % ('KILLED  ' if killed else 'SURVIVED', d, ' '.join(res)), flush=True)
        elif r != 'build': print('TESTS    ' + d, flush=True)
        open(p, 'w').write('\n'.join(src)); os.utime(p)
if __name__ == '__main__': main()
