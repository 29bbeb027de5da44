"""What is analysed for each property."""
import importlib, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'programs'))

BASE = ['the compiler front end (rustc nightly) and the MIR it produces',
        'the analyser in /verif/engine and its models of the standard library functions it meets',
        'key types in generic specifications number their values one-to-one (Ordinal contract)',
        'memory allocation succeeds']

NA = {}

WIT = 'type-level witnesses: client programs that the compiler has to refuse, each with a twin it has to accept'
WNOTE = ('A finite family of programs decides a property that quantifies over programs: each refused program fails to build for the stated '
         'reason (error code) and its twin, which differs in the offending detail only, builds. Nothing is run. Trusts rustc.')

def NOT_UB(r):
    return r['kind'] not in ('ub', 'owner')


SPEC = {
    'C01': dict(features='c01', text='numbering laws of the scalar key types', opts={'unroll': 16}),
    'C02': dict(features='c02', text='numbering laws of the compound key types over arbitrary component types', opts={'unroll': 16}),
    'C03': dict(features='c03', text='numbering laws of derived key types: witness shapes over arbitrary field types', opts={'unroll': 16}),
    'C04': dict(features='c04', text='monotonicity of the numbering', opts={'unroll': 16}),
    'C06': dict(features='c06', text='value cells of total maps'),
    'C07': dict(features='c07', text='constructors and views of total maps'),
    'C08': dict(features='c08', text='sparse maps as partial functions', opts={'cnt': True}),
    'C09': dict(features='c09', text='drain, clear and retain', opts={'cnt': True}),
    'C10': dict(features='c10', text='traversals of maps', opts={'cnt': True}),
    'C11': dict(features='c11', text='lengths, size hints, counting and last elements', opts={'cnt': True}),
    'C12': dict(features='c12', text='membership, insertion and equality of sets', opts={'cnt': True}),
    'C13': dict(features='c13', text='traversal of sets', opts={'cnt': True}),
    'C19': dict(features='c19', text='operations of the atomic cell'),
    'C20': dict(features='c20', text='clones and defaults', opts={'cnt': True}),
    'C24': dict(features='c24', text='Debug output, seen through a recording formatter', opts={'cnt': True}),
    'C16': dict(features='c16', text='heap use of every operation, in every reachable state', opts={'cnt': True},
                keep=lambda r: r['kind'] == 'check' and 'quiet_since' in str(r['label'])),
    'C17': dict(text='ownership of every value under every operation, caller-supplied functions that panic included', passes=(
                    dict(features='c17', opts={'unroll': 16, 'unwind': True, 'ledger': True}, keep=lambda r: r['kind'] in ('check', 'owner', 'ub')),
                    dict(features='c17u', opts={'cnt': True}, keep=lambda r: r['kind'] == 'ub'))),
    'C18': dict(features='c18', text='panics of every operation, in every reachable state', opts={'cnt': True}, modes=('debug', 'release'), guards=True,
                keep=lambda r: r['kind'] == 'panic'),
    'C22': dict(features='c22', text='repetitions made by point operations', opts={'cnt': True, 'work': True}, bound=67, gbound=2,
                keep=lambda r: r['kind'] == 'check' and 'quick_since' in str(r['label'])),
    'C05': dict(programs='c05', text='key types at and beyond the largest number of values', pmodes=('debug', 'release'), technique=WIT, note=WNOTE),
    'C15': dict(programs='c15', text='every constructor of the size-parameterised containers, with right and wrong sizes', pmodes=('debug', 'release'), technique=WIT, note=WNOTE),
    'C21': dict(programs='c21', features='c21', text='derive inputs of all forms in hostile scopes', opts={'unroll': 16}, technique=WIT + '; abstract interpretation of the generated code', note=WNOTE),
    'C23': dict(programs='c23', text='clients that misuse borrows, exclusive iterators, threads and lifetimes, and their harmless twins', technique=WIT, note=WNOTE, emit='metadata'),
    'C14': dict(features='c14', text='traversal of the values of a type', opts={'cnt': True}),
}


def run(pid, tier, b, o, chk):
    s = SPEC[pid]
    if 'programs' in s:
        import witness
        cs = importlib.import_module(s['programs']).cases(tier)
        for mode in (s.get('pmodes', ('debug',)) if tier == 'quick' else ('debug', 'release')):
            witness.decide(b, chk.REPO, cs, mode == 'release', o, mode, s.get('emit', 'obj'))
        if 'features' not in s:
            return ('Client programs (%s) are given to the compiler, to be refused for a stated reason or to be accepted; nothing is run. '
                    'entries and obligations count programs.' % s['text']), ['the compiler']
    modes = s.get('modes', ('debug',))
    if tier == 'thorough':
        modes = ('debug', 'release')
    t0 = time.time()
    budget = 760 if tier == 'quick' else 4800
    todo = [(mode, dict(s, **q)) for mode in modes for q in s.get('passes', ({},))]
    for i, (mode, s) in enumerate(todo):
        dump, txt = b.dump(s['features'], mode == 'release')
        if dump is None:
            o.undecided.append('the specifications do not compile against /repo: ' + txt[-1500:])
            continue
        opts = {'debug': mode == 'debug'}
        opts.update(s.get('opts', {}))
        share = (budget - (time.time() - t0)) / (len(todo) - i)
        r = chk.analyse(dump, opts, s.get('want', lambda n: True), s.get('per'), bound=s.get('bound', 2 if tier == 'quick' else 3), gbound=s.get('gbound'), keep=s.get('keep', NOT_UB),
                        limit=240 if tier == 'quick' else 600, allow=(share * .55, share * .4))
        o.add(r, mode)
    if s.get('guards'):
        o.cov['obligations'] = len(o.guards)
        o.cov['discharged'] = len(o.guards) - min(len(o.guards), len(o.violations) + len(o.undecided))
    expl = ('Abstract interpretation of the MIR of the library, from specification entry points that quantify over all inputs '
            '(%s): every path is followed with value, linear-constraint, bit-set and prefix-count domains, loops are replaced by '
            'inferred and verified invariants, containers range over the inferred class invariant of all operation sequences; each '
            'obligation must hold in every abstract state reaching it.' % s['text'])
    return expl, BASE
