"""Driver library: builds /repo's current tree in instrumented variants, compiles the
harnesses against it, runs them in parallel shards, and turns what their monitors
reported into verdict lines and an evidence file."""
import array, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))
OUT = os.environ.get('VF_OUT', os.path.join(VERIF, '.out'))
SRC = os.path.join(VERIF, 'src')
NPROC = os.cpu_count() or 4

class Broken(Exception):
    """The check itself could not run (build failure and the like)."""

SANU = '-fsanitize=undefined -fno-sanitize-recover=all -fno-sanitize=vptr,function'
VARIANTS = {
    # name: (cc, cxx, flags)
    'asan': ('clang', 'clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=address ' + SANU),
    # as asan, but unaligned records are allowed
    'asanna': ('clang', 'clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=address ' + SANU + ' -fno-sanitize=alignment'),
    'tsan': ('clang', 'clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread'),
    'vg': ('gcc', 'g++', '-O1 -g'),
    'plain': ('gcc', 'g++', '-O2 -g'),
    'cov': ('clang', 'clang++', '-O0 -g -fprofile-instr-generate -fcoverage-mapping'),
    'msan': ('clang', 'clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins'),
    'fuzz': ('clang', 'clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address ' + SANU),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=0:handle_abort=0:symbolize=1:malloc_fill_byte=190:max_malloc_fill_size=1048576',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4',
    'MSAN_OPTIONS': 'exitcode=77',
}

def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    p = subprocess.run(cmd, **kw)
    if p.returncode:
        out = p.stdout.decode(errors='replace') if p.stdout else ''
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(map(str, cmd)), out[-6000:]))
    return p.stdout

def build_repo(variant, tools=(), threads=True):
    """Build the current tree of /repo out of tree; returns the build directory."""
    cc, cxx, flags = VARIANTS[variant]
    xed = 'ptxed' in tools
    name = variant + ('' if threads else '-nothr') + ('-xed' if xed else '')
    d = os.path.join(BUILD, 'repo-' + name)
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if xed:     # a stand-in for Intel XED
            run([cc] + flags.split() + ['-w', '-c', '-I' + os.path.join(SRC, 'fakexed'), os.path.join(SRC, 'fakexed', 'fakexed.c'), '-o', os.path.join(d, 'fakexed.o')])
            try: os.unlink(os.path.join(d, 'bin', 'ptxed'))   # linked again: the build system does not know the stand-in
            except FileNotFoundError: pass
            with open(os.path.join(d, 'libxed.so'), 'w') as f: f.write('INPUT(%s -lopcodes -lbfd)\n' % os.path.join(d, 'fakexed.o'))
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
                 '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_CXX_COMPILER=' + cxx,
                 '-DCMAKE_C_FLAGS=%s -w' % flags, '-DCMAKE_EXE_LINKER_FLAGS=%s' % flags,
                 '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DBUILD_SHARED_LIBS=OFF',
                 '-DPTUNIT=OFF', '-DPTDUMP=ON', '-DPTTC=ON', '-DPTSEG=ON', '-DPTXED=' + ('ON' if xed else 'OFF'),
                 '-DXED_INCLUDE=' + os.path.join(SRC, 'fakexed'), '-DXED_LIBDIR=' + d,
                 '-DSIDEBAND=ON', '-DPEVENT=ON', '-DFEATURE_ELF=ON',
                 '-DFEATURE_THREADS=' + ('ON' if threads else 'OFF'), '-DMAN=OFF'])
        run(['ninja', '-C', d, 'libipt', 'libipt-sb', 'pevent'] + list(tools))
    return d

def lib_args(d):
    return [os.path.join(d, 'lib', x) for x in ('libipt-sb.a', 'libpevent.a', 'libipt.a')]

def inc_args(d):
    return ['-I' + os.path.join(d, 'libipt/include'), '-I' + os.path.join(d, 'sideband/include'),
            '-I' + os.path.join(REPO, 'pevent/include'), '-I' + os.path.join(REPO, 'include')]

def build_harness(name, variant, extra_src=(), ldflags=(), cxxflags=(), threads=True, c_src=()):
    d = build_repo(variant, threads=threads)
    cc, cxx, flags = VARIANTS[variant]
    exe = os.path.join(BUILD, 'h-%s-%s' % (name, variant + ('' if threads else '-nothr')))
    src = [os.path.join(SRC, name + '.cpp')] + [os.path.join(SRC, s) for s in extra_src]
    obj = []
    for s in c_src:     # of the repository, relative to it
        o = exe + '-' + os.path.basename(s) + '.%d.o' % os.getpid(); obj.append(o)
        run([cc] + flags.split() + ['-w', '-c'] + inc_args(d) + ['-I' + os.path.join(REPO, os.path.dirname(os.path.dirname(s)), 'include'), '-I' + os.path.join(REPO, 'libipt/internal/include'), os.path.join(REPO, s), '-o', o])
        os.rename(o, exe + '-' + os.path.basename(s) + '.o'); obj[-1] = exe + '-' + os.path.basename(s) + '.o'
    deps = src + glob.glob(os.path.join(SRC, 'common', '*')) + lib_args(d) + obj
    h = hashlib.sha256()
    for f in sorted(deps):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(repr((flags, ldflags, cxxflags)).encode())
    key = h.hexdigest()
    try:
        if os.path.exists(exe) and open(exe + '.key').read() == key:
            return exe
    except OSError:
        pass
    if '-UMON_MAIN' in cxxflags: SRCDEF = []
    else: SRCDEF = ['-DMON_MAIN']
    defs = SRCDEF + (['-DVG'] if variant == 'vg' else []) + ['-fno-sanitize=enum', '-DFEATURE_PEVENT', '-DFEATURE_SIDEBAND', '-DFEATURE_THREADS', '-D_GNU_SOURCE']
    run([cxx, '-std=c++17', '-w'] + flags.split() + defs + list(cxxflags) + inc_args(d) + ['-I' + os.path.join(SRC, 'common')] +
        src + (['-x', 'none'] if '-x' in cxxflags else []) + obj + lib_args(d) + ['-lpthread', '-ldl'] + list(ldflags) + ['-o', exe])
    with open(exe + '.key', 'w') as f:
        f.write(key)
    return exe

def san_key(text):
    """A stable key for a sanitizer report: kind and the innermost frame inside the code under test."""
    kind = None
    m = re.search(r'runtime error: (.*)', text)
    if m:
        msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
        kind = 'ubsan:' + re.sub(r'[^A-Za-z]+', '-', msg)[:60].strip('-')
    m2 = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z-]+)', text)
    if m2: kind = 'asan:' + m2.group(1)
    m2 = re.search(r'WARNING: ThreadSanitizer: ([a-z -]+)', text)
    if m2: kind = 'tsan:' + m2.group(1).strip().replace(' ', '-')
    m2 = re.search(r'WARNING: MemorySanitizer: ([a-z -]+)', text)
    if m2: kind = 'msan:' + m2.group(1).strip().replace(' ', '-')
    m2 = re.search(r'==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Source and dest|Jump to|Process terminating|Uninit)[^\n]*)', text)
    if m2:
        kind = 'memcheck:' + re.sub(r'[^A-Za-z]+', '-', m2.group(1)).strip('-')[:50]
        for m in re.finditer(r'==\d+==    (?:at|by) 0x[0-9A-F]+: (\S+) \((\S+?)(?::\d+)?\)', text):
            if re.match(r'(pt_|pev_|ptd|pttc)', m.group(1)): return kind + ':' + m.group(1)
        return kind
    fn = None
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', text):
        if '/compiler-rt/' in m.group(2) or m.group(1).startswith('__'): continue
        if REPO + '/' in m.group(2):
            fn = m.group(1); break
    if not fn:
        m = re.search(r'#\d+ (\S+) (%s/\S+)' % re.escape(REPO), text)
        if m: fn = m.group(1)
    if not kind: kind = 'crash'
    return kind + (':' + fn if fn else '')

VALGRIND = ['valgrind', '-q', '--error-exitcode=76', '--exit-on-first-error=yes', '--undef-value-errors=yes', '--track-origins=no',
            '--leak-check=no', '--child-silent-after-fork=yes']

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.out = os.path.join(OUT, prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.evals = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.viol = []          # (key, replay, msg)
        self.notes = []

    def thorough(self): return self.tier == 'thorough'

    def add_counter(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n

    def violation(self, key, replay, msg):
        self.viol.append((key, replay, msg))

    def write_replay(self, name, text):
        p = os.path.join(self.out, name)
        with open(p, 'w') as f: f.write(text)
        return p

    def _one(self, exe, name, variant, frm, to, shard, casetime, env, timeout):
        """Run one shard.  Restarts after a crashing case, at most a few times."""
        restarts = 0
        tag = '%s-%s' % (name, variant)
        while frm < to:
            cmd = VALGRIND * (variant == 'vg') + [exe, '--seed', str(self.seed), '--from', str(frm), '--to', str(to), '--out', self.out,
                   '--prop', self.prop, '--harness', name, '--variant', variant, '--shard', str(shard),
                   '--tier', self.tier, '--casetime', str(casetime)]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
            except subprocess.TimeoutExpired as x:
                err = (x.stderr or b'').decode(errors='replace'); out = (x.stdout or b'').decode(errors='replace')
                if re.search(r'^(WARNING: ThreadSanitizer|==\d+==ERROR: AddressSanitizer)', err, re.M):	# stuck while dying
                    m = re.search(r'^CASEINFO\t\w+\t(\d+)$', out, re.M)
                    path = self.write_replay('%s-%s-t%d.replay' % (self.prop, tag, shard), 'property=%s\nharness=%s\nvariant=%s\nseed=%d\ncase=%s\nthorough=%d\nkey=%s\nmessage=CRASH\n--- case\n\n--- report\n%s\n' % (
                        self.prop, name, variant, self.seed, m.group(1) if m else frm, self.thorough(), san_key(err), err[-5000:]))
                    self.viol.append((san_key(err), path, 'reported before the process got stuck'))
                    return
                raise Broken('shard %s/%d exceeded %ds' % (tag, shard, timeout))
            out = p.stdout.decode(errors='replace'); err = p.stderr.decode(errors='replace')
            for line in out.splitlines():
                if line.startswith('VIOL\t'):
                    _, key, path, msg = line.split('\t', 3)
                    self.viol.append((key, path, msg))
            self._stats(name, shard)
            if p.returncode == 0:
                return
            m = re.search(r'^CASEINFO\t(\w+)\t(\d+)$', out, re.M)
            if not m:
                if p.returncode in (98, 99) or p.returncode < 0 and not err:
                    raise Broken('%s shard %d: exit %d\n%s' % (tag, shard, p.returncode, (out + err)[-3000:]))
                m2 = None
                if p.returncode not in (66, 76, 77):
                    raise Broken('%s shard %d: exit %d\n%s' % (tag, shard, p.returncode, (out + err)[-3000:]))
                what, case = 'CRASH', frm
            else:
                what, case = m.group(1), int(m.group(2))
            if what == 'HANG':
                # inconclusive by itself: repeat that case alone with more time
                try:
                    i = cmd.index('--from')
                    q = subprocess.run(cmd[:i] + ['--from', str(case), '--to', str(case + 1)] + cmd[i + 4:-1] + [str(casetime * 3)],
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=casetime * 4)
                    hang = q.returncode == 97
                except subprocess.TimeoutExpired:
                    hang = True
                if hang:
                    key, text = 'hang', 'case %d does not terminate (%ds, twice)' % (case, casetime * 3)
                else:
                    key = None
                    self.add_counter('watchdog_inconclusive')
            else:
                key, text = san_key(err), err[:6000]
            if key:
                note = ''
                try: note = open(os.path.join(self.out, 'crash-%s-%d.note' % (name, shard))).read()
                except OSError: pass
                path = os.path.join(self.out, '%s-%s-c%d.replay' % (self.prop, tag, case))
                with open(path, 'w') as f:
                    f.write('property=%s\nharness=%s\nvariant=%s\nseed=%d\ncase=%d\nthorough=%d\nkey=%s\nmessage=%s\n--- case\n%s\n--- report\n%s\n' %
                            (self.prop, name, variant, self.seed, case, self.thorough(), key, what, note, text))
                first = next((l for l in text.splitlines() if 'ERROR' in l or 'runtime error' in l or 'WARNING' in l), text[:200])
                self.viol.append((key, path, first.strip()))
            self.evals += max(0, case - frm) + 1
            frm = case + 1
            restarts += 1
            if restarts >= 4: return

    def _stats(self, name, shard):
        p = os.path.join(self.out, 'stats-%s-%d' % (name, shard))
        try:
            s = json.load(open(p + '.json'))
        except (OSError, ValueError):
            return
        self.evals += s['evals']
        for k, v in s['counters'].items():
            if k.startswith('max:'): self.counters[k[4:] + '_max'] = max(self.counters.get(k[4:] + '_max', 0), v)
            else: self.counters[k] = self.counters.get(k, 0) + v
        for x in s['samples']:
            if len(self.samples) < 8 and x not in self.samples: self.samples.append(x)
        a = array.array('Q')
        data = open(p + '.hashes', 'rb').read()
        a.frombytes(data)
        self.hashes.update(a)
        os.unlink(p + '.json'); os.unlink(p + '.hashes')

    def harness(self, name, variant, cases, casetime=30, shards=None, extra_src=(), ldflags=(), cxxflags=(), env=None,
                timeout=820, threads=True, tools=(), c_src=()):
        exe = build_harness(name, variant, extra_src, ldflags, cxxflags, threads, c_src)
        shards = min(shards or NPROC, cases)
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
        if tools: e['VF_TOOLS'] = os.path.join(build_repo(variant, tools=tools, threads=threads), 'bin')
        if variant == 'cov':
            e['LLVM_PROFILE_FILE'] = os.path.join(BUILD, 'prof-%s-%%p.profraw' % name)
        to = timeout if self.tier == 'quick' else 6 * 3600
        with ThreadPoolExecutor(shards) as ex:
            fs = [ex.submit(self._one, exe, name, variant, cases * i // shards, cases * (i + 1) // shards, i, casetime, e, to)
                  for i in range(shards)]
            for f in fs: f.result()
        shutil.rmtree(os.path.join(self.out, 'x'), ignore_errors=True)

    def fuzz(self, name, runs, env=None, max_len=1024, timeout=1800, seeds=()):
        """Coverage-guided exploration with libFuzzer: a harness with LLVMFuzzerTestOneInput."""
        exe = build_harness(name, 'fuzz', ldflags=['-fsanitize=fuzzer'], cxxflags=['-UMON_MAIN'])
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {}); e['FUZZ_OUT'] = self.out
        def one(i):
            w = os.path.join(self.out, 'fuzz-%s-%d' % (name, i)); os.makedirs(w + '/corpus', exist_ok=True)
            for k, b in enumerate(seeds):
                with open('%s/corpus/seed%d' % (w, k), 'wb') as f: f.write(b)
            return i, w, subprocess.run([exe, w + '/corpus', '-runs=%d' % runs, '-seed=%d' % (self.seed * 100 + i), '-max_len=%d' % max_len,
                '-artifact_prefix=' + w + '/', '-timeout=60', '-max_total_time=%d' % timeout, '-print_final_stats=1', '-reload=0', '-len_control=20'],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=w)
        with ThreadPoolExecutor(NPROC) as ex:
            for i, w, p in ex.map(one, range(NPROC)):
                out = p.stdout.decode(errors='replace')
                m = re.search(r'stat::number_of_executed_units: (\d+)', out)
                if m: self.evals += int(m.group(1)); self.add_counter('fuzz_executions', int(m.group(1)))
                m = re.findall(r'cov: (\d+) ft: (\d+)', out)
                if m: self.counters['fuzz_coverage_edges_max'] = max(self.counters.get('fuzz_coverage_edges_max', 0), int(m[-1][0]))
                self.add_counter('fuzz_corpus', len(os.listdir(w + '/corpus')))
                if p.returncode:
                    m = re.search(r'^VIOL\t(\S+)', out, re.M)
                    key = m.group(1) if m else 'hang' if 'libFuzzer: timeout' in out else san_key(out)
                    arts = [f for f in glob.glob(w + '/*') if os.path.isfile(f)]
                    rp = self.write_replay('%s-fuzz-%d.replay' % (self.prop, i), 'property=%s\nharness=py:%s\nseed=%d\nkey=%s\ninput=%s\n--- report\n%s\n' % (
                        self.prop, name, self.seed, key, ' '.join('%s:%s' % (os.path.basename(a), open(a, 'rb').read().hex()) for a in arts), out[-6000:]))
                    self.viol.append((key, rp, out[-400:]))
                shutil.rmtree(w, ignore_errors=True)

    def finish(self, rule, require=(), level='exploration', assumptions=()):
        for s in glob.glob(os.path.join(self.out, 'scratch-*')):
            shutil.rmtree(s, ignore_errors=True)
        known = load_known()
        bad, shown = [], {}
        for key, path, msg in self.viol:
            k = next((k for k in known if k['property'] == self.prop and re.fullmatch(k['key'], key)
                      and k.get('status') != 'fixed'), None)
            if k: shown.setdefault(k['key'], k)
            else: bad.append((key, path, msg))
        missing = [r for r in require if not self.counters.get(r)]
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes), rule=rule,
                   samples=self.samples or ['(none)'], observed=dict(sorted(self.counters.items())))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evf = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(evf, exist_ok=True)
        with open(os.path.join(evf, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs' %
              (self.prop, self.tier, self.seed, self.evals, len(self.hashes), time.time() - self.t0))
        for k in shown.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        seen = {}
        for key, path, msg in bad:
            n = seen[key] = seen.get(key, 0) + 1
            if n <= 2 and len(seen) <= 12:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('   key=%s %s' % (key, msg))
        if bad: return 1
        if missing:
            print('CHECK-ERROR: monitors observed nothing for: ' + ', '.join(missing))
            return 3
        return 0

def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<regex> :: <what fails>' (suppresses exactly
    that key) and 'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m: res.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    except OSError:
        pass
    return res
