"""The verification units of every property."""
from .pubdev import statistic, DEFS

UNITS = {}
KINDS = [('array', 'phase'), ('list', 'phase'), ('array', 'freq'), ('list', 'freq')]
HEAVY = {}


def unit(pid, name, fn, weight=1):
    UNITS.setdefault(pid, []).append((name, fn))
    HEAVY[(pid, name)] = weight


def not_frame(n):
    return '.frame.' not in n


def stat_units(pid, fname, weight=1, kinds=KINDS):
    D = DEFS[fname]
    ex = {k: v for k, v in D.items() if k not in 'nd'}
    for kind, dt in kinds:
        def go(ctx, kind=kind, dt=dt):
            return statistic(ctx, fname, D['n'], D['d'], kind=kind, data_type=dt, only=not_frame, **ex)
        unit(pid, '%s(%s,%s)' % (fname, dt, kind), go, weight)


for _p, _fs in [('C01', ('adev', 'oadev')), ('C02', ('hdev', 'ohdev')), ('C03', ('mdev', 'tdev')), ('C04', ('pdev',)),
                ('C05', ('totdev',)), ('C06', ('mtotdev', 'ttotdev')), ('C07', ('htotdev',)), ('C08', ('theo1',)),
                ('C09', ('tierms', 'mtie'))]:
    for _f in _fs:
        stat_units(_p, _f, 3 if 'tot' in _f else 1)


# ---------------------------------------------------------------- many small units: weight 0 = batched in one process
def small(pid, name, fn):
    unit(pid, name, fn, 0)


def _lazy(mod, f, *a, **k):
    def go(ctx):
        import importlib
        return getattr(importlib.import_module('pyded.' + mod), f)(ctx, *a, **k)
    return go


CIN = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev')
for _d in (True, False):
    small('C18', 'confidence_interval(%s)' % ('default' if _d else 'ci'), _lazy('pubci', 'ci_unit', _d))
for _n in CIN + ('totdev', 'mtotdev', 'theo1', 'pdev', 'foo'):
    for _t in ('phase', 'freq'):
        small('C18', 'noiseID(%s,%s)' % (_n, _t), _lazy('pubci', 'ci_noise_unit', _n, _t, 'array'))
small('C18', 'noiseID(oadev,phase,list)', _lazy('pubci', 'ci_noise_unit', 'oadev', 'phase', 'list'))

for _a in (2, 1, 0, -1, -2):
    small('C19', 'edf_simple(%d)' % _a, _lazy('pubci', 'edf_simple_unit', _a))
    small('C19', 'edf_totdev(%d)' % _a, _lazy('pubci', 'edf_tot_unit', 'edf_totdev', _a))
    small('C19', 'edf_mtotdev(%d)' % _a, _lazy('pubci', 'edf_tot_unit', 'edf_mtotdev', _a))
for _a in range(2, -5, -1):
    small('C19', 'greenhall_sw(%d)' % _a, _lazy('pubci', 'sw_unit', _a))
    for _i in (True, False):
        small('C19', 'greenhall_sx(%d,%s)' % (_a, _i), _lazy('pubci', 'sx_unit', _a, _i))
    for _d in (1, 2, 3):
        if _a + 2 * _d > 1:
            for _i in (True, False):
                small('C19', 'greenhall_sz(%d,%d,%s)' % (_a, _d, _i), _lazy('pubci', 'sz_unit', _a, _d, _i))
            small('C19', 'greenhall_BasicSum(%d,%d)' % (_a, _d), _lazy('pubci', 'bsum_unit', _a, _d))
            for _o in (True, False):
                for _m in (True, False):
                    small('C19', 'edf_greenhall(%d,%d,%s,%s)' % (_a, _d, _o, _m), _lazy('pubci', 'greenhall_unit', _a, _d, _o, _m))

for _k in ('array', 'list'):
    small('C20', 'rn(%s)' % _k, _lazy('pubci', 'rn_unit', _k))
    small('C20', 'b1(%s)' % _k, _lazy('pubci', 'b1_unit', _k))
    small('C20', 'lag1_acf(%s)' % _k, _lazy('pubci', 'lag1_unit', _k))
for _b in (0, -1, -2, -3, -4):
    small('C20', 'rn_theory(%d)' % _b, _lazy('pubci', 'rn_theory_unit', _b))
for _b in (2, 1, 0, -1, -2):
    small('C20', 'b1_theory(%d)' % _b, _lazy('pubci', 'b1_theory_unit', _b))
for _b in (0, -1, -2, -3, -4, -5, -6):
    small('C20', 'b_to_mu(%d)' % _b, _lazy('pubci', 'b_to_mu_unit', _b))
for _d in (1, 2):
    small('C20', 'detrend(%d)' % _d, _lazy('pubci', 'detrend_unit', _d))
for _t in ('phase', 'freq'):
    for _lo, _hi in ((0, 2), (0, 3), (0, 1), (1, 2), (0, 0), (2, 3), (1, 1), (0, 4)):
        small('C20', 'autocorr_noise_id(%s,%d,%d)' % (_t, _lo, _hi), _lazy('pubci', 'noise_id_unit', _t, _lo, _hi))

for _v in ('init', 'set'):
    small('C21', 'generateNoise(%s)' % _v, _lazy('pubnoise', 'kasdin_unit', _v))
for _b in (0, -1, -2, -3, -4):
    for _w in ('phase_psd_from_qd', 'frequency_psd_from_qd', 'adev_from_qd', 'mdev_from_qd', 'pdev_from_qd', 'adev', 'mdev', 'c_avar', 'c_mvar'):
        small('C21', '%s(b=%d)' % (_w, _b), _lazy('pubnoise', 'kasdin_closed', _b, _w))
for _w in ('white', 'brown', 'violet'):
    small('C22', _w, _lazy('pubnoise', 'simple_noise', _w))
for _k in (0, 1, 'K'):
    for _o in ('phase', 'freq'):
        unit('C22', 'timmer_koenig_from_psd(%s nodes,%s)' % (_k, _o), _lazy('pubnoise', 'timmer_unit', _k, _o), 50)
unit('C22', 'timmer_koenig_from_psd(1 node,phase,seed)', _lazy('pubnoise', 'timmer_unit', 1, 'phase', 7), 50)

for _n in ('prc_tdev', 'prc_mtie', 'eprtc_tdev', 'eprtc_mtie', 'prtcA_tdev', 'prtcB_tdev', 'prtcA_mtie', 'prtcB_mtie'):
    for _k in ('f', 'i'):
        small('C24', '%s(%s)' % (_n, _k), _lazy('pubci', 'mask_unit', _n, _k))

for _z in ('wp', 'fp', 'wf', 'ff', 'rf'):
    for _g in (True, False):
        small('C10', 'calc_gradev_phase(%s,%s)' % (_z, 'gaps' if _g else 'complete'), _lazy('pubmisc', 'calc_gradev_unit', _z, 'array', _g))
    for _k in ('array', 'list'):
        small('C10', 'gradev(%s,%s,gaps)' % (_z, _k), _lazy('pubmisc', 'gradev_unit', _z, _k, True))
small('C10', 'gradev(wp,array,complete)', _lazy('pubmisc', 'gradev_unit', 'wp', 'array', False))

for _k in ('array', 'list'):
    for _t in ('phase', 'freq'):
        small('C11', 'gcodev(%s,%s)' % (_t, _k), _lazy('pubrel', 'gcodev_unit', _k, _t))
for _f in ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'totdev', 'mtotdev', 'ttotdev', 'pdev', 'theo1', 'mtie', 'tierms'):
    small('C11', 'three_cornered_hat_phase(%s)' % _f, _lazy('pubrel', 'hat_unit', _f))
small('C11', 'three_cornered_hat_phase(oadev,list)', _lazy('pubrel', 'hat_unit', 'oadev', 'list'))

for _t in ('array', 'list', 'all', 'octave', 'decade', 'none', 'empty'):
    for _e in (False, True):
        for _m in (False, True):
            unit('C12', 'tau_generator(%s%s%s)' % (_t, ',even' if _e else '', ',maximum' if _m else ''),
                 _lazy('pubrel', 'taugen_unit', _t, _e, _m), 1 if _t == 'decade' else 0)
small('C12', 'tau_generator(array,list data)', _lazy('pubrel', 'taugen_unit', 'array', False, False, 'list'))

for _w in (False, True):
    small('C13', 'remove_small_ns(%d error columns)' % (1 + _w), _lazy('pubrel', 'filter_unit', _w))
for _k in 'fi':
    small('C13', 'tau_reduction(%s)' % _k, _lazy('pubrel', 'tau_reduction_unit', _k))

for _k in ('array', 'list'):
    small('C14', 'trim_data(%s)' % _k, _lazy('pubrel', 'trim_unit', _k))
    small('C14', 'frequency2phase(%s)' % _k, _lazy('pubrel', 'f2p_unit', _k))
    small('C14', 'phase2frequency(%s)' % _k, _lazy('pubrel', 'p2f_unit', _k))
    small('C14', 'phase2radians(%s)' % _k, _lazy('pubrel', 'p2rad_unit', _k))
    for _n in (True, False):
        small('C14', 'frequency2fractional(%s,%s)' % (_k, 'nominal' if _n else 'mean'), _lazy('pubrel', 'frac_unit', _k, _n))
small('C14', 'frequency2phase(array,gaps)', _lazy('pubrel', 'f2p_unit', 'array', True))
small('C14', 'phase2frequency(frequency2phase)', _lazy('pubrel', 'p2f_unit', 'array', True))
ALLSTAT = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'mtotdev', 'ttotdev', 'htotdev', 'theo1', 'tierms', 'mtie')
for _f in ALLSTAT:
    stat_units('C14', _f, 3 if 'tot' in _f else 1, [('array', 'freq')])
    small('C14', '%s(unknown data_type)' % _f, _lazy('pubrel', 'bad_type_unit', _f))
for _f in ('gcodev', 'gradev'):
    small('C14', '%s(unknown data_type)' % _f, _lazy('pubrel', 'bad_type_unit', _f))
small('C14', 'gcodev(freq,array)', _lazy('pubrel', 'gcodev_unit', 'array', 'freq'))


# ---------------------------------------------------------------- C26: the same executions, frame conditions instead
def frames(name, fn, weight=0, alias=True):
    def go(ctx):
        ctx.only_frames()
        ctx.alias = alias
        return fn(ctx)
    unit('C26', name, go, weight)


for _f in ALLSTAT:
    for _u, _fn in [(u, f) for us in list(UNITS.values()) for u, f in us]:
        if _u.startswith(_f + '(') and 'unknown' not in _u and '(b=' not in _u and _u not in [u for u, _ in UNITS.get('C26', [])]:
            frames(_u, _fn, 3 if 'tot' in _f else 1)
for _p, _k in [('C18', 'confidence_interval('), ('C18', 'noiseID('), ('C20', 'rn('), ('C20', 'b1('), ('C20', 'lag1_acf('), ('C20', 'detrend('),
               ('C20', 'autocorr_noise_id('), ('C10', 'gradev(wp'), ('C11', ''), ('C12', ''), ('C13', ''), ('C14', 'frequency2phase('),
               ('C14', 'phase2frequency('), ('C14', 'phase2radians'), ('C14', 'frequency2fractional'), ('C14', 'trim_data')]:
    for _u, _fn in UNITS[_p]:
        if _u.startswith(_k):
            frames(_u, _fn, HEAVY[(_p, _u)], alias=not _u.startswith('trim_data'))


# ---------------------------------------------------------------- C15, C27: two runs on related inputs
INV = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'theo1')
for _f in INV:
    for _v in ('offset', 'ramp', 'scale') + (('drift',) if 'hdev' in _f else ()):
        for _k in ('array',) + (('list',) if _f != 'theo1' else ()):
            unit('C15', '%s(%s,%s)' % (_f, _v, _k), _lazy('pubpair', 'pair_unit', _f, _v, _k), 1 if _f == 'theo1' else 0)
for _f in tuple(f for f in ALLSTAT if f != 'htotdev') + ('gcodev',):
    for _k in ('array', 'list'):
        if _k == 'array' or 'tot' not in _f:
            unit('C27', '%s(rate,%s)' % (_f, _k), _lazy('pubpair', 'pair_unit', _f, 'rate', _k), 3 if 'tot' in _f else 1 if _f == 'theo1' else 0)


# ---------------------------------------------------------------- C16, C17: class invariants of the realtime statistics
for _s in ('oadev', 'ohdev', 'tdev'):
    for _k in ('array', 'list'):
        unit('C16', '%s_realtime.add_phase(%s)' % (_s, _k), _lazy('pubrt', 'step_unit', _s, _k), 3 if _s == 'tdev' else 2)
        small('C16', '%s_realtime(%s)' % (_s, _k), _lazy('pubrt', 'init_unit', _s, _k))
    for _n in (True, False):
        small('C16', '%s_realtime.add_frequency(%s point)' % (_s, 'first' if _n else 'later'), _lazy('pubrt', 'freq_unit', _s, _n))
    small('C16', '%s_realtime accessors' % _s, _lazy('pubrt', 'get_unit', _s))
    small('C16', '%s_realtime meaning' % _s, _lazy('pubrt', 'meaning_unit', _s))
    unit('C17', '%s_realtime.add_phase(auto)' % _s, _lazy('pubrt', 'auto_unit', _s), 3 if _s == 'tdev' else 2)
    small('C17', '%s_realtime(auto)' % _s, _lazy('pubrt', 'auto_init_unit', _s))
    small('C17', '%s_realtime meaning' % _s, _lazy('pubrt', 'meaning_unit', _s))
small('C17', 'dev_realtime.next_af', _lazy('pubrt', 'next_unit'))


# ---------------------------------------------------------------- C23
for _v, _k in (('adev', 'array'), ('adev', 'list'), ('hdev', 'array'), ('HDEV', 'array')):
    unit('C23', 'adev2psd_piecewise_approx(%s,%s)' % (_v, _k), _lazy('pubpsd', 'from_adev_unit', _v, _k), 1)
small('C23', 'adev2psd_piecewise_approx(unknown variance)', _lazy('pubpsd', 'refuse_unit', 'unknown variance'))
for _k in ('array', 'list'):
    small('C23', 'psd_piecewise_to_adev(%s)' % _k, _lazy('pubpsd', 'to_adev_unit', _k))
small('C23', 'psd_piecewise_to_adev(adev2psd_piecewise_approx)', _lazy('pubpsd', 'roundtrip_unit'))


# ---------------------------------------------------------------- C25
for _h in ('positional', 'keywords', 'empty', 'set_input', 'set_input(data)'):
    small('C25', 'Dataset(%s)' % _h, _lazy('pubds', 'init_unit', _h))
for _f in ALLSTAT + ('gradev',):
    small('C25', 'Dataset.compute(%s)' % _f, _lazy('pubds', 'compute_unit', _f))
small('C25', 'Dataset.compute(any other name)', _lazy('pubds', 'refused_unit'))
for _k in ('plain', 'gradev'):
    small('C25', 'Dataset.write_results(%s errors)' % _k, _lazy('pubds', 'write_unit', _k))

for _e in (True, False):
    for _g in (True, False):
        for _d in (True, False):
            small('C28', 'Plot.plot(%s,%s,%s)' % (_e, _g, _d), _lazy('pubplot', 'plot_unit', _e, _g, False, False, _d))
    small('C28', 'Plot.plot(%s,twice)' % _e, _lazy('pubplot', 'plot_unit', _e, False, False, True))
    small('C28', 'Plot.plot(%s,gradev)' % _e, _lazy('pubplot', 'plot_unit', _e, True, True))
for _w in ('save', 'show'):
    small('C28', 'Plot.%s' % _w, _lazy('pubplot', 'save_unit', _w))

# ---------------------------------------------------------------- C29
for _k in ('adev', 'mdev', 'ADEV', 'm'):
    for _f in ('step', 'vector', 'default'):
        for _b in ('>', '<='):
            if _k in ('adev', 'mdev') or _f == 'step' and _b == '>':
                unit('C29', 'psd2allan(%s,%s,base%s1)' % (_f, _k, _b), _lazy('pubpsd', 'psd2allan_unit', _f, _k, _b), 1)
for _w in ('list spectrum', 'list frequencies'):
    small('C29', 'psd2allan(%s)' % _w, _lazy('pubpsd', 'psd2allan_refuse_unit', _w))
