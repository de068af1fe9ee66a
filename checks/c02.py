"""C02: processing-parameter guard of the correlation database."""
import copy
import warnings
import os

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrTrace
from seismic.db.corr_hdf5 import CorrelationDataBase

si = st.integers
num = st.one_of(si(-5, 10**6), st.floats(-1e6, 1e6, allow_nan=False).map(
    lambda x: float('%.6g' % x)))
text = st.text('abcXYZ_äß\'"\\ .%{}#\n', max_size=8)
leaf = st.one_of(num, st.booleans(), st.none(), text)
argval = st.one_of(leaf, st.lists(leaf, max_size=3), st.dictionaries(
    st.sampled_from(['freqmin', 'freqmax', 'type']), leaf, max_size=2))
args = st.dictionaries(st.sampled_from(
    ['ftype', 'filter_option', 'p', 'type', 'taper_len', 'threshold',
     'flimit', 'joint_norm', 'starts']), argval, max_size=3)
FN = ['seismic.correlate.preprocessing_stream.stream_filter',
      'seismic.correlate.preprocessing_stream.cos_taper_st',
      'my_module.my_function']
MASK = 'seismic.correlate.preprocessing_stream.stream_mask_at_utc'
step = st.fixed_dictionaries(dict(function=st.sampled_from(FN), args=args))
mstep = st.fixed_dictionaries(dict(
    function=st.just(MASK),
    args=st.fixed_dictionaries(dict(
        starts=st.lists(si(0, 10**6), max_size=3), reverse=st.booleans()))))
chain = st.lists(step, max_size=4)
pchain = st.lists(st.one_of(step, mstep, mstep), max_size=6)

IRREL = {
    'subdir': text, 'read_start': st.sampled_from(['2010-01-01', '2011-02-03']),
    'read_end': st.sampled_from(['2010-01-11', '2012-02-03 00:00:01']),
    'read_len': num, 'read_inc': num,
    'combination_method': st.sampled_from(
        ['betweenStations', 'autoComponents', 'allCombinations']),
    'combinations': st.lists(st.tuples(si(0, 3), si(0, 3)).map(list),
                             max_size=2),
    'starttime': st.lists(si(0, 10**6), max_size=2),
    'xcombinations': st.one_of(st.none(), st.just('None'),
                               st.just(['A-A.B-B'])),
    'preprocess_subdiv': st.booleans(),
    'allow_different_params': st.booleans(),
}
irrel = st.fixed_dictionaries({}, optional=IRREL)
subirr = st.fixed_dictionaries({}, optional=dict(
    recombine_subdivision=st.booleans(), delete_subdivision=st.booleans()))
corirr = st.fixed_dictionaries({}, optional=dict(
    combinations=st.lists(st.tuples(si(0, 3), si(0, 3)).map(list),
                          max_size=2)))
rel = st.fixed_dictionaries(
    dict(sampling_rate=num, remove_response=st.booleans()),
    optional=dict(extra=argval))
base = st.fixed_dictionaries(dict(
    rel=rel, pre=pchain, td=chain, fd=chain,
    corr=st.fixed_dictionaries(dict(
        lengthToSave=num, center_correlation=st.booleans(),
        normalize_correlation=st.booleans())),
    subd=st.fixed_dictionaries(dict(corr_inc=num, corr_len=num)),
    i=irrel, si=subirr, ci=corirr, has_pre=st.sampled_from([1, 1, 1, 0])))
change = st.one_of(
    st.fixed_dictionaries(dict(
        kind=st.just('irrelevant'), i=irrel, si=subirr, ci=corirr,
        masks=st.lists(st.tuples(si(0, 6), mstep).map(list), max_size=3),
        drop=st.booleans())),
    st.fixed_dictionaries(dict(
        kind=st.sampled_from(
            ['sampling_rate', 'remove_response', 'lengthToSave',
             'center_correlation', 'corr_len', 'corr_inc', 'add_pre',
             'add_td', 'add_fd', 'del_step', 'swap', 'arg', 'fn', 'newkey']),
        at=si(0, 5), step=step)))


def assemble(b, i=None, s=None, c=None):
    co = copy.deepcopy(b['rel'])
    if b['has_pre']:
        co['preProcessing'] = copy.deepcopy(b['pre'])
    co['corr_args'] = dict(TDpreProcessing=copy.deepcopy(b['td']),
                           FDpreProcessing=copy.deepcopy(b['fd']),
                           **b['corr'], **(b['ci'] if c is None else c))
    co['subdivision'] = dict(**b['subd'], **(b['si'] if s is None else s))
    co.update(copy.deepcopy(b['i'] if i is None else i))
    return co


def relevant(b):
    """What influences the correlations (own definition)."""
    co = copy.deepcopy(b['rel'])
    if b['has_pre']:
        co['preProcessing'] = [p for p in b['pre'] if p['function'] != MASK]
    co['corr_args'] = dict(TDpreProcessing=b['td'], FDpreProcessing=b['fd'],
                           **b['corr'])
    co['subdivision'] = dict(b['subd'])
    return co


def mutate(b, ch):
    """Another base differing as described; None if not applicable."""
    b = copy.deepcopy(b)
    k, at = ch['kind'], ch['at']
    if k == 'sampling_rate':
        b['rel'][k] += 1
    elif k == 'remove_response':
        b['rel'][k] = not b['rel'][k]
    elif k == 'newkey':
        if 'extra' in b['rel']:
            del b['rel']['extra']
        else:
            b['rel']['extra'] = at
    elif k in ('lengthToSave',):
        b['corr'][k] += 0.5
    elif k == 'center_correlation':
        b['corr'][k] = not b['corr'][k]
    elif k in ('corr_len', 'corr_inc'):
        b['subd'][k] += 1
    elif k.startswith('add_'):
        if k == 'add_pre' and not b['has_pre']:
            return None
        c = b[k[4:]]
        c.insert(at % (len(c) + 1), ch['step'])
    else:
        cs = [c for c in (b['td'], b['fd'],
                          b['pre'] if b['has_pre'] else []) if c]
        if not cs:
            return None
        c = cs[at % len(cs)]
        j = (at*7) % len(c)
        if k == 'del_step':
            del c[j]
        elif k == 'swap':
            c.reverse()
        elif k == 'arg':
            c[j]['args']['p'] = ['changed', c[j]['args'].get('p')]
        elif k == 'fn':
            c[j]['function'] = 'another.module.function'
    return b


def content(path):
    import h5py
    with h5py.File(path, 'r') as f:
        out = {}
        f.visititems(lambda n, o: out.update({n: (
            np.array(o).tolist(), sorted((k, str(v)) for k, v in
                                         o.attrs.items()))})
            if isinstance(o, h5py.Dataset) else None)
    return out


@sub(st.fixed_dictionaries(dict(
    base=base, changes=st.lists(change, min_size=1, max_size=4),
    mode=st.sampled_from(['a', 'a', 'r+']),
    bare=st.sampled_from(['a', 'r+', 'w', 'r']))), quick=1000,
    rule='the history contains a refused or an irrelevant change and a '
    'processing chain')
def guard(case, ctx):
    b = case['base']
    co = assemble(b)
    orig = copy.deepcopy(co)
    ref = relevant(b)
    h = raw_stats('A', 'B', '', 'HHZ', T0, 5, 1.0)
    ct = CorrTrace(np.arange(3.), h, h, start_lag=0, end_lag=2)
    with scratch() as d:
        path = os.path.join(d, 'x.h5')
        with CorrelationDataBase(path, corr_options=co) as db:
            db.add_correlation(ct, 'subdivision')
        ck(co == orig, 'the options passed in were modified')
        with CorrelationDataBase(path, mode='r') as db:
            got = db.get_corr_options()
        ck(got == ref, 'options read back differ\n got', got, '\nwant', ref)
        ck(repr(got) == repr(got), '')
        before = content(path)
        # the same options again, and no options at all
        with CorrelationDataBase(path, corr_options=co, mode=case['mode']):
            pass
        # without options nothing can be written or lost
        other = CorrTrace(np.arange(4.), h, h, start_lag=0, end_lag=3)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with CorrelationDataBase(path, mode=case['bare']) as db:
                try:
                    db.add_correlation(other, 'stack_5')
                except (KeyError, OSError, ValueError):
                    pass
                ck(len(db.get_data('A-A', 'B-B', 'HHZ-HHZ', 'subdivision'))
                   == 1, 'not readable without options')
        ck(content(path) == before, 'a database opened without options '
           'was written to', case['bare'])
        for ch in case['changes']:
            if ch['kind'] == 'irrelevant':
                nb = copy.deepcopy(b)
                if ch['drop']:
                    nb['pre'] = [p for p in nb['pre']
                                 if p['function'] != MASK]
                for at, m in ch['masks']:
                    nb['pre'].insert(at % (len(nb['pre']) + 1), m)
                nco = assemble(nb, ch['i'], ch['si'], ch['ci'])
            else:
                nb = mutate(b, ch)
                if nb is None:
                    continue
                nco = assemble(nb)
            same = relevant(nb) == ref
            ctx.label('same' if same else 'different')
            if b['pre'] or b['td'] or b['fd']:
                ctx.nt()
            try:
                with CorrelationDataBase(path, corr_options=nco,
                                         mode=case['mode']):
                    pass
                ok = True
            except PermissionError:
                ok = False
            ck(ok == same, 'accepted although' if ok else
               'refused although not', 'different:', ch,
               '\nold', ref, '\nnew', relevant(nb))
            with CorrelationDataBase(path, corr_options=nco, _force=True,
                                     mode=case['mode']) as db:
                ck(db.get_corr_options() == ref,
                   'stored options changed by an override')
            ck(content(path) == before, 'file content changed')
