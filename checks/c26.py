"""C26: spectrograms."""
import contextlib
import io
import os
import pickle
import shutil
import subprocess
import sys
import warnings

from obspy import Stream, Trace
from obspy.core.inventory import Response
from scipy.interpolate import PchipInterpolator
from scipy.signal import butter, sosfilt

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib import env
from vlib.archive import write_sds, write_inventory
from seismic.utils.raw_analysis import spct_series_welch
from seismic.trace_data.waveform import Store_Client

si = st.integers


def quiet(fn):
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()):
        warnings.simplefilter('ignore')
        return fn()


def psd(x, sr):
    """One-sided power spectral density by Welch's method, by hand."""
    n = min(256, len(x))
    w = .5 - .5*np.cos(2*np.pi*np.arange(n)/n)
    out = []
    for a in range(0, len(x) - n + 1, n - n//2):
        y = x[a:a + n] - np.mean(x[a:a + n])
        p = np.abs(np.fft.rfft(y*w))**2/(sr*np.sum(w**2))
        p[1:(n + 1)//2] *= 2
        out.append(p)
    return np.fft.rfftfreq(n, 1/sr), np.mean(out, 0)


def logaxis(sr, w):
    n = min(256, w + 1)
    return np.logspace(-3, np.log10(n//2*sr/n), 512)


def clean(x, sr):
    x = np.asarray(x, float)
    if len(x) > 1:
        t = np.arange(len(x)) - (len(x) - 1)/2
        x = x - x.mean() - t*(t@x)/(t@t)
    else:
        x = x*0
    return sosfilt(butter(4, .01/(sr/2), 'highpass', output='sos'), x)


def trace(x, sr, t):
    tr = Trace(x)
    tr.stats.update(dict(network='X', station='AB', channel='HHZ',
                         sampling_rate=sr, starttime=t))
    return tr


DT = {'i': np.int32, 'f': np.float32, 'd': np.float64}
pieces = st.lists(st.tuples(si(0, 60), si(0, 700)), max_size=3)
recs = st.fixed_dictionaries(dict(
    sr=st.sampled_from([1., 2., 5., 10., 20., 50.]),
    chunks=st.lists(pieces, min_size=1, max_size=4), w=si(16, 300),
    seed=seeds, dtype=st.sampled_from('ifd'), off=st.booleans()))


def record(c):
    """[(streams)], columns {time: psd}"""
    sr, w = c['sr'], c['w']
    streams, want = [], {}
    k = 0
    r = rng(c['seed'])
    for n, ll in enumerate(c['chunks']):
        base = UTCDateTime(2011, 12, 31) + k/sr + (
            .3/sr if c['off'] else 0)
        s, a, segs = Stream(), 0, []
        for gap, m in ll:
            a += gap + 1
            x = (r.normal(size=m + 2)*1000 + 300*(n + 1)).astype(
                DT[c['dtype']])
            s.append(trace(x, sr, base + a/sr))
            segs.append((a, clean(x, sr)))
            a += m + 2
        streams.append(s.copy().merge())
        if segs:
            first = segs[0][0]
            y = np.full(a, np.nan)
            for b, x in segs:
                y[b:b + len(x)] = x
            for b in range(first, a - w, w):
                z = y[b:b + w + 1]
                want[(base + b/sr).timestamp] = None if np.isnan(z).any() else z
        k += a + 700
    return streams, want


def columns(f, t, S, want, c, what):
    ck(len(t) == S.shape[1] and S.shape[0] == len(f),
       f'{what}: shapes {f.shape}, {t.shape}, {S.shape}')
    sr = c['sr']
    ck_close(f, logaxis(sr, c['w']), f'{what}: frequencies', 1e-6)
    t = [float(UTCDateTime(x)) for x in t]
    ck(t == sorted(t), f'{what}: order')
    have = {round(float(k), 4): z for k, z in want.items() if z is not None}
    gaps = {round(float(k), 4) for k, z in want.items() if z is None}
    got = {}
    for i, x in enumerate(t):
        x = round(x, 4)
        ck(x not in got, f'{what}: {x} twice')
        if x in gaps:
            ck(np.isnan(S[:, i]).all(), f'{what}: window at {x} has gaps')
            continue
        got[x] = S[:, i]
    ck(set(got) == set(have), f'{what}: windows at {sorted(got)[:20]}, '
       f'expected {sorted(have)[:20]}')
    for x, z in have.items():
        ff, p = psd(z, sr)
        ref = PchipInterpolator(ff, p)(f)
        ck_close(got[x], ref, f'{what}: window {x}', 1e-4,
                 1e-6*np.max(np.abs(ref)))


@sub(recs, quick=400, shards=2, rule='several windows, gaps')
def series(c, ctx):
    """One column per complete window, its power spectral density."""
    streams, want = record(c)
    perm = list(range(len(streams)))
    rng(c['seed']).shuffle(perm)
    args = ([streams[i] for i in perm], c['w']/c['sr'], c['sr']/2, False)
    if not any(z is not None for z in want.values()):
        try:
            f, t, S = quiet(lambda: spct_series_welch(*args))
        except ValueError:
            ctx.label('nothing')
            return
        ck(not np.isfinite(S).any(), 'windows without data')
        return
    f, t, S = quiet(lambda: spct_series_welch(iter(args[0]), *args[1:]))
    columns(f, t, S, want, c, 'series')
    n = sum(z is not None for z in want.values())
    ctx.nt(1 < n < len(want))
    ctx.label('gaps' if n < len(want) else 'no gaps')


@sub(st.fixed_dictionaries(dict(
    sr=st.sampled_from([20, 40, 50, 100, 80]), dec=st.sampled_from(
        [1, 1.25, 1.6, 2, 2, 4, 5, 8]), f=st.floats(.03, 1.8),
    A=st.floats(.1, 1e4), ph=st.floats(0, 6.28), w=si(30, 80), n=si(3, 5),
    mean=st.floats(-1, 1), gain=st.sampled_from([None, None, 1., 3., 1e3]))),
    quick=400, shards=2, rule='the signal can be seen')
def tone(c, ctx):
    """A sinusoid appears at its frequency and with its power."""
    sr, fmax = c['sr'], c['sr']/2/c['dec']
    # whole numbers of samples
    w, A = c['w'] // 2 * 2, c['A']
    if c['dec'] in (1.6, 8):
        w = w // 4 * 4
    f0 = c['f']*fmax
    # transition of the anti-alias filter
    if (.8 if c['dec'] == 1 else .5) < c['f'] < 1.2 or f0 > .45*sr or f0 < .3:
        raise Skip()
    n = int(w*c['n']*sr) + 1 + int(3*c['dec'])
    t = np.arange(n)/sr
    x = A*np.sin(2*np.pi*f0*t + c['ph']) + c['mean']*A*10
    tr = trace(x, float(sr), T0)
    g = c['gain']
    if g:
        tr.stats.response = Response.from_paz([], [], g)
        P1, P2 = tr.copy(), tr.copy()
        P2.stats.response = Response.from_paz([], [], 2*g)
        f, tt, S = quiet(lambda: spct_series_welch(
            [Stream([P1])], w, fmax, True))
        S2 = quiet(lambda: spct_series_welch(
            [Stream([P2])], w, fmax, True))[2]
        ck_close(S2*4, S, 'twice the gain', 1e-4, 1e-6*S.max())
        S = S*g**2
    else:
        f, tt, S = quiet(lambda: spct_series_welch(
            [Stream([tr])], w, fmax, False))
    ck(S.shape[1] == c['n'], f'{S.shape[1]} windows of {c["n"]}')
    ck_close([float(x - T0) for x in tt], np.arange(c['n'])*w, 'times')
    ck(abs(f[-1] - fmax) < 2e-2*fmax, f'highest frequency {f[-1]}')
    # not the ones with the onset and the taper
    S, f = S[f > .1], f[f > .1]
    for S in S.T[1:-1]:
        tot = np.trapz(S, f)
        if c['f'] > 1:
            ck(tot < 2e-3*A**2/2, f'signal above {fmax} Hz folded: '
               f'{tot/(A**2/2)}')
            continue
        df = max(2*fmax/256, 2/w)
        near = np.abs(f - f0) < 2.5*df + .025*f0
        out = S[~near]
        ck(out.max() < 2e-2*A**2/2/df, f'energy {out.max()/A**2*2*df} far '
           f'from {f0}')
        # samples between which the peak of a sinusoid can hide
        if .02*f0 < .5*df:
            p = np.trapz(S[near], f[near])/(A**2/2)
            ck(.75 < p < 1.2, f'power {p} of the signal')
            ck(abs(f[np.argmax(S)] - f0) < 1.01*df + .02*f0,
               f'peak at {f[np.argmax(S)]}, not at {f0}')
        ck(S.max() < 1.05*A**2/2*1.01/(1.5*min(2*fmax/256, 2/w))*1.5,
           'peak too high')
    if c['f'] < 1:
        ctx.nt()
    ctx.label('response' if g else 'raw')


@sub(st.fixed_dictionaries(dict(
    sr=st.sampled_from([2, 5, 10]), w=si(40, 200), n=si(2, 12), seed=seeds,
    start=si(-400, 400), rest=st.floats(0, .9), pre=si(0, 50),
    inc=st.lists(st.floats(1, 9), min_size=1, max_size=3),
    gap=st.one_of(st.none(), st.tuples(st.floats(0, 1), si(2, 300))),
    sub=st.just(0), locs=st.sampled_from(
        ['', '00']), other=st.booleans())), quick=240, shards=4,
    rule='read in several pieces')
def client(c, ctx):
    """The way the data are read does not matter."""
    sr, w = c['sr'], c['w']
    t0 = UTCDateTime(2012, 12, 31, 23, 59, 0) + c['start']
    n = c['n']*w*sr + int(c['rest']*w*sr) + 1
    r = rng(c['seed'])
    # more data than asked for, on both sides
    N = n + 2*c['pre'] + 4*w*sr
    x = r.normal(size=N)*1000 + 3000*np.sin(np.arange(N)*.9)
    x = x.astype(np.float32)
    i0 = c['pre'] + 2*w*sr
    keep = np.ones(N, bool)
    if c['gap']:
        a = i0 + int(c['gap'][0]*n)
        keep[a:a + c['gap'][1]] = False
    base = t0 - (i0 - c['sub'])/sr
    end = t0 + (n - 1)/sr
    with scratch() as d:
        cut = np.flatnonzero(np.diff(keep.astype(int))) + 1
        for p in np.split(np.arange(N), cut):
            if keep[p[0]]:
                write_sds(d, ('X', 'AB', c['locs'], 'HHZ'),
                          base + p[0]/sr, x[p], float(sr))
        if c['other']:
            write_sds(d, ('X', 'AB', '', 'HHN'), base, x*2, float(sr))
            write_sds(d, ('X', 'AC', '', 'HHZ'), base, x*2, float(sr))
        write_inventory(d, {('X', 'AB'): (0, 0, 0)},
                        {('X', 'AB'): ['HHZ']})
        sc = Store_Client(None, d, read_only=True)
        for inc in c['inc'] + [1e4]:
            step = inc = int(w*inc)
            # samples next to the times of the windows
            sh = (c['sub'] if c['sub'] < .5 else c['sub'] - 1)/sr
            k0 = i0 if c['sub'] < .5 else i0 - 1
            inc -= inc % w
            must, may = set(), {}
            for k in range(c['n']):
                a = k0 + k*w*sr
                good = keep[a:a + w*sr + 1].all()
                may[k] = good
                # data missing at the start of a piece shift its windows
                b = k0 + (k*w//inc)*inc*sr
                if good and keep[b - 1:b + 2].all():
                    must.add(k)
            try:
                f, t, S = quiet(lambda: sc.compute_spectrogram(
                    'X', 'AB', 'HHZ', t0, end, w, freq_max=sr/2,
                    read_increment=step, remove_response=False))
            except ValueError:
                ck(not must, f'increment {step}: nothing computed')
                continue
            seen = set()
            for i, tt in enumerate(t):
                if np.isnan(S[:, i]).all():
                    continue
                k = (tt - t0 - sh)/w
                if c['gap'] and abs(k - round(k)) > 1e-3/w:
                    a = k0 + int(round(k*w*sr))
                    ck(keep[a:a + w*sr + 1].all() and k0 <= a and
                       a + w*sr <= k0 + n - 1, f'window at {tt}: no data')
                    continue
                ck(abs(k - round(k)) < 1e-3/w, f'window at {tt}')
                k = int(round(k))
                ck(k in may, f'window {k} outside of the requested span')
                ck(may[k], f'window {k} has gaps')
                ck(k not in seen, f'window {k} twice')
                seen.add(k)
                a = k0 + k*w*sr
                ff, p = psd(x[a:a + w*sr + 1].astype(float), sr)
                ref = PchipInterpolator(ff, p)(f)
                if c['gap']:
                    continue
                hi = f > .2
                bad = np.abs(S[hi, i] - ref[hi]) > .15*ref[hi] + \
                    .02*np.mean(ref[hi])
                ck(not bad.any(), f'window {k}: spectrum at '
                   f'{f[hi][bad][:5]}: {S[hi, i][bad][:5]} instead of '
                   f'{ref[hi][bad][:5]}')
            ck(must <= seen, f'increment {inc}: windows '
               f'{sorted(must - seen)} missing of {c["n"]}')
            ck_close(f, logaxis(sr, w*sr), 'frequencies')
            ck(list(t) == sorted(t), 'order')
        expect_raises((ValueError,), lambda: sc.compute_spectrogram(
            'X', 'AB', 'HHZ', t0, end, w, freq_max=sr/2,
            read_increment=w - 1, remove_response=False), 'increment')
        if min(c['inc'])*w < (n - 1)/sr:
            ctx.nt()


@sub(st.fixed_dictionaries(dict(
    recs=st.lists(recs, min_size=6, max_size=6), n=si(2, 4))), quick=8,
    shards=4, rule='more than one process')
def ranks(case, ctx):
    """The number of processes does not matter."""
    with scratch() as d:
        e = dict(os.environ, TMPDIR=d, OMPI_MCA_btl='self,vader,tcp',
                 OMP_NUM_THREADS='1')
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n']
        if shutil.which('mpirun') is None or subprocess.run(
                cmd + ['2', sys.executable, '-c',
                       'from mpi4py import MPI;'
                       'assert MPI.COMM_WORLD.Get_size() == 2'],
                env=e, capture_output=True, timeout=300).returncode:
            raise Skip()
        jobs = []
        for c in case['recs']:
            streams, _ = record(c)
            jobs.append((streams, c['w']/c['sr'], c['sr']/2))
        i, o = os.path.join(d, 'in'), os.path.join(d, 'out')
        pickle.dump(jobs, open(i, 'wb'))
        try:
            p = subprocess.run(
                cmd + [str(case['n']), sys.executable, os.path.join(
                    env.ROOT, 'vlib', 'mpi_spct.py'), i, o],
                env=e, capture_output=True, text=True, timeout=180)
        except subprocess.TimeoutExpired:
            raise Violation('run with %d processes does not end' % case['n'])
        ck(p.returncode == 0, 'run with', case['n'], 'processes failed:',
           p.stderr[-2000:])
        for c, out in zip(case['recs'], pickle.load(open(o, 'rb'))):
            _, want = record(c)
            if not any(z is not None for z in want.values()):
                ck(out is None or not np.isfinite(out[2]).any(), 'no data')
                continue
            ck(out is not None, f'{case["n"]} processes: no result')
            columns(*out, want, c, '%d processes' % case['n'])
            ctx.nt()
