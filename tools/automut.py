#!/usr/bin/env python3
"""Systematic small changes: applies every mutation operator to every line of the covered headers and reports those
no check notices. usage: automut.py <harness> [header filter]; results in /tmp/automut/<harness>.txt. JOBS parallel builds."""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'queue': (['lockfree_fifo_spsc.hh', 'lockfree_fifo_spsc_dyn.hh'], ['Q01', 'Q02', 'Q03', 'Q04']),
 'pool': (['thread_safe_pool.hh', 'pool.hh'], ['P01', 'P02']),
 'wear': (['wear_level.hh'], ['W01', 'W02', 'W03', 'W04']),
 'stream': (['doublebuf_stream.hh'], ['D01', 'D02', 'D03']),
 'timer': (['poll_event.hh', 'poll_change.hh', 'oscs.hh@212'], ['T01', 'T02', 'T03']),
 'interp': (['filtered_interp_array.hh', 'interp_param.hh'], ['I02', 'I01']),
 'format': (['compact_binary_parser.hh', 'compact_binary_writer.hh', 'compact_binary_serializer.hh'], ['B01', 'B02', 'B03']),
 'input': (['debouncer.hh', 'debouncer_compact.hh', 'quadrature_encoder.hh', 'rotary_motion.hh', 'schmitt_trigger.hh', 'parameter.hh', 'change_detector.hh', 'edge_detector.hh'], ['E01', 'E02', 'E03', 'E04']),
 'memtest': (['mem_test.hh'], ['M01', 'M02']),
 'alloc': (['aligned_allocator.hh', 'monotonic_allocator.hh'], ['A01']),
 'ring': (['circular_buffer.hh', 'circular_buffer_opt.hh', 'circular_buffer_block.hh', 'circular_buffer_ext.hh', 'input_output_buffer.hh'], ['R01', 'R02', 'R03']),
 'led': (['oscs.hh', 'rgbled.hh', 'colors.hh'], ['L01', 'L02']),
 'filter': (['filter.hh', 'analyzed_signal.hh'], ['F01', 'F02', 'F03']),
 'text': (['print.hh', 'static_string.hh', 'int_to_str.cc', 'voct_calibrator.hh', 'calibrator.hh'], ['S01', 'S02', 'K01', 'N01']),
 'container': (['fixed_vector.hh', 'circular_stack.hh', 'seq_map.hh', 'sequential_map.hh', 'callable.hh'], ['C01', 'C02', 'C03']),
}
REL = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'\+\+', '--'), (r'--', '++'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' >> ', ' << '), (r' << ', ' >> '), (r' & ', ' | '), (r' \| ', ' & '), (r' % ', ' / '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'memory_order_(acquire|release|acq_rel|seq_cst)', 'memory_order_relaxed'), (r'!(?=[a-z_(])', ''),
       (r'(?<![\w.\[])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'\bbreak;', ';'), (r'\bif \((?!constexpr)', 'if (true || ')]
NARROW = re.compile(r'\b(size_t|std::size_t|unsigned int|unsigned|u?int32_t|u?int64_t|u?int16_t|int|long|ptrdiff_t|std::ptrdiff_t|double|float)\b(?!\s*[>(])')
def narrowings(f):
    """MODE=narrow: every declared number type becomes a smaller one"""
    f, _, first = f.partition('@')
    lines = open(os.environ.get('MUT_REPO', '/repo') + f'/util/{f}').read().split('\n')
    for i, l in enumerate(lines):
        if first and i + 1 < int(first): continue
        code = l.split('//')[0]
        if not code.strip() or code.strip().startswith(('#', '*', '/*')) or 'operator new' in code: continue
        for m in NARROW.finditer(code):
            t = m.group(1)
            for n in ({'double': ['float'], 'float': ['int']}.get(t) or [x for x in ((['int8_t', 'int16_t'] if t[0] in 'il' or 'ptrdiff' in t else ['uint8_t', 'uint16_t']) + (['uint32_t'] if 'size_t' in t or '64' in t else [])) if x != t]):
                yield i, f'{t} -> {n}', code[:m.start()] + n + code[m.end():]
def mutants(f):
    if os.environ.get('MODE') == 'narrow':
        yield from narrowings(f); return
    f, _, first = f.partition('@')
    lines = open(os.environ.get('MUT_REPO', '/repo') + f'/util/{f}').read().split('\n')
    incomment = False
    for i, l in enumerate(lines):
        if first and i + 1 < int(first): continue
        code = l.split('//')[0]
        st = code.strip()
        if not st or st.startswith('#') or 'template<' in st or st.startswith(('using', 'static_assert', '*', '/*')): continue
        for pat, rep in REL:
            for m in re.finditer(pat, code):
                yield i, f'{pat.strip()} -> {rep.strip()}', code[:m.start()] + m.expand(rep) + code[m.end():]
        if st.endswith(';') and not st.startswith(('return', 'struct', 'class', 'constexpr', 'const ', 'static', 'auto', 'private', 'T ', 'size_t', 'unsigned', 'bool', 'float', 'uint', 'int', 'std::array', 'break', 'continue', '}')) and ('=' in st or '(' in st or '++' in st or '--' in st):
            yield i, 'deleted', '\t;'
        m = re.match(r'(\s*)return (.*);$', code)
        if m and m.group(2) in ('true', 'false'): pass
h = sys.argv[1]; filt = sys.argv[2] if len(sys.argv) > 2 else ''
files, props = MAP[h]
jobs = int(os.environ.get('JOBS', '3')); runs = os.environ.get('MUT_RUNS', '150000')
os.makedirs('/tmp/automut', exist_ok=True)
log = open(f'/tmp/automut/{h}' + ('-' + os.environ['MODE'] if 'MODE' in os.environ else '') + '.txt', 'a')
def one(job):
    f, i, what, new = job
    d = tempfile.mkdtemp(prefix='am', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/util', d + '/r/util')
        p = f'{d}/r/util/{f}'; L = open(p).read().split('\n'); old = L[i]; L[i] = new; open(p, 'w').write('\n'.join(L))
        env = dict(os.environ, SIM_REPO=d + '/r', SIM_VERIF=d)
        shutil.copy(f'{V}/known_findings.txt', d)
        b = subprocess.run([f'{V}/sim/build.sh', h, d + '/b'], env=env, capture_output=True, text=True)
        where = f'{f}:{i+1} [{what}] {new.strip()}'
        if b.returncode: return 'NOBUILD ' + where
        for pr in props:
            try: r = subprocess.run([f'{d}/b/{h}', '--prop', pr, '--no-evidence', '--runs', runs, '--workers', str(8 // jobs + 1)], env=env, capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired: return 'HANG    ' + where
            if r.returncode == 1:
                return f'{pr}     ' + where
            if r.returncode: return f'EXIT{r.returncode}   ' + where
        return 'SURVIVES ' + where + '   // was: ' + old.strip()
    finally: shutil.rmtree(d, ignore_errors=True)
todo = [(f.partition('@')[0], *m) for f in files if filt in f for m in mutants(f)]
print(h, len(todo), 'mutants', flush=True)
with cf.ThreadPoolExecutor(jobs) as ex:
    n = 0
    for r in ex.map(one, todo):
        log.write(r + '\n'); log.flush(); n += r.startswith('SURV')
print(h, 'survivors', n, flush=True)
