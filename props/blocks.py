"""Payloads of the data blocks and what they mean, written from the format.

Every spec is a function (h, w, b, **variant) that writes the payload with w,
sets version and id of the block b and returns the expected result of parse()."""
from .common import Arr, Approx, Rec, Seq, header
from .large import HUGE, LARGE, SLOW, SUMS, Sparse
from .spec import REGISTERED

SPECS = {}        # property -> list of Spec


class Spec:
    heavy = False

    def __init__(self, prop, name, type_, fn, variants):
        self.prop, self.name, self.type, self.fn, self.variants = prop, name, type_, fn, variants

    def cases(self):
        for v in self.variants:
            yield '%s-%s' % (self.name, '-'.join('%s%s' % (k, short(x)) for k, x in v.items())), v


def short(x):
    return str(x).replace(' ', '').replace("'", '').replace('True', '1').replace('False', '0')


class B:
    """A block: header fields, payload and the expected result."""

    def __init__(self, h, spec, variant, id=None, tel=None):
        self.h = h
        self.spec = spec
        self.type = spec.type
        self.version = 0
        self.id = id
        self.tel = tel
        self.kw = {}
        w = h.writer()
        self.want = spec.fn(h, w, self, **variant)
        self.payload = w.bytes()
        if self.id is None:
            self.id = h.int(32, True)
        self.cls = REGISTERED[self.type][1] if self.type in REGISTERED else None

    def emit(self, top=True, payload=None, version=None):
        p = self.payload if payload is None else payload
        return self.h.join([header(self.h, self.type, self.version if version is None else version, self.id, len(p), top=top), p])

    def verify(self, got, msg):
        self.h.eq(got, self.want, msg)


def spec(prop, type_, variants, name=None):
    def deco(f):
        SPECS.setdefault(prop, []).append(Spec(prop, name or f.__name__, type_, f, variants))
        return f
    return deco


def grid(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


def f4z(n):
    return Arr((n,), [0.0] * n)


# ---------------------------------------------------------------- C15: CORSIKA

# word positions of the CORSIKA blocks (1-based), from the CORSIKA guide
RUNH = dict(run_number=2, date=3, version=4, n_observation_levels=5, energy_spectrum_slope=16, energy_min=17, energy_max=18, n_showers=93,
            x_scatter=248, y_scatter=249)
EVTH = dict(event_number=2, particle_id=3, total_energy=4, starting_altitude=5, first_target_id=6, first_interaction_height=7, momentum_x=8,
            momentum_y=9, momentum_minus_z=10, zenith=11, azimuth=12, n_random_sequences=13, run_number=44, date=45, version=46,
            n_observation_levels=47)
EVTE = dict(event_number=2, n_photons_weighted=3, n_electrons_weighted=4, n_hadrons_weighted=5, n_muons_weighted=6, n_particles_written=7)


def words(h, w, n, tag, fixed, symbolic):
    """n words: the tag, fixed words (position -> float), symbolic ones at the given positions, distinct numbers elsewhere."""
    import struct
    out = []
    for i in range(1, n + 1):
        if i == 1 and tag:
            w.raw(tag)
            out.append(None)
        elif i in fixed:
            w.raw(struct.pack('<f', fixed[i]))
            out.append(fixed[i])
        elif i in symbolic:
            out.append(w.f4())
        else:
            w.raw(struct.pack('<f', float(i)))
            out.append(float(i))
    return out


def f32(x):
    import struct
    return struct.unpack('<f', struct.pack('<f', x))[0]


class Fields:
    """Selected fields of a record."""

    def __init__(self, fields, names=()):
        self.fields = fields


@spec('C15', 1200, grid(cv=[6.5, 7.3, 7.41, 7.75], part=[0, 1]), name='iact_run_header')
def iact_run_header(h, w, b, cv, part):
    w.i32(273)
    sym = set([2, 3, 5, 6, 15, 16, 17, 18, 19, 93]) if part == 0 else set([20, 25, 74, 95, 134, 248, 249, 255, 259, 269, 270, 273])
    v = words(h, w, 273, b'RUNH', {4: f32(cv)}, sym)
    f = {k: v[p - 1] for k, p in RUNH.items() if (k != 'n_showers' or cv >= 7.4) and (not k.endswith('scatter') or cv >= 7.3)}
    f['observation_height'] = Arr(10, v[5:15])
    f['aatm'] = Arr(5, v[254:259])
    f['catm'] = Arr(5, v[264:269])
    f['physical_constants_and_interaction_flags'] = Arr(50, v[24:74])
    f['nflche_100nfragm'] = v[272]
    return Rec(None, f, exact=False)


@spec('C15', 1201, grid(n=[1, 2, 3, 5]))
def telescope_definition(h, w, b, n):
    w.i32(n)
    cols = [[w.f4() for _ in range(n)] for _ in range(4)]
    return Rec(n, dict(zip('xyzr', cols)))


@spec('C15', 1202, grid(cv=[6.5, 7.41, 7.75], part=[0, 1]), name='iact_event_header')
def iact_event_header(h, w, b, cv, part):
    w.i32(273)
    v = words(h, w, 273, b'EVTH', {46: f32(cv)}, set([2, 3, 4, 5, 6, 7, 8, 9, 10]) if part == 0 else set([11, 12, 13, 44, 45, 47, 60, 98, 99, 119, 273]))
    f = {k: v[p - 1] for k, p in EVTH.items()}
    f['observation_height'] = Arr(10, v[47:57])
    f['n_reuse'] = v[97]
    f['reuse_x'] = Arr(20, v[98:118])
    f['reuse_y'] = Arr(20, v[118:138])
    return Rec(None, f, exact=False)


@spec('C15', 1203, grid(version=[0, 1], n=[0, 1, 2, 4]))
def array_offsets(h, w, b, version, n):
    b.version = version
    w.i32(n)
    t = w.f4()
    cols = ['x', 'y'] + (['weight'] if version else [])
    f = {c: [w.f4() for _ in range(n)] for c in cols}
    return (t, Rec(n, f))


@spec('C15', 1209, grid(cv=[6.5, 7.8]), name='iact_event_end')
def iact_event_end(h, w, b, cv):
    w.i32(273)
    v = words(h, w, 273, b'EVTE', {}, set([2, 3, 4, 5, 6, 7, 256, 261, 262, 263, 267]))
    f = {k: [v[p - 1]] for k, p in EVTE.items()}
    f['chi_square_longitudinal'] = [v[261]]
    f['n_em_particles_preshower'] = [v[266]]
    if cv >= 7.3:
        f['longitudinal_fit_parameters'] = Arr((1, 6), v[255:261])
    if cv != 7.8:
        b.kw = dict(corsika_version=cv)
    return Rec(1, f, exact=False)


@spec('C15', 1210, [{}], name='iact_run_end')
def iact_run_end(h, w, b):
    w.i32(3)
    w.raw(b'RUNE')
    return Rec(1, dict(RUNE=[b'RUNE'], run_number=[w.f4()], n_events=[w.f4()]))


@spec('C15', 1211, [dict(np_=a, nt=c) for a, c in ((0, 0), (1, 1), (2, 3), (3, 2), (9, 1))])
def longitudinal(h, w, b, np_, nt):
    r = dict(event_id=w.i32(), type=w.i32(), np=w.i16(np_), nthick=w.i16(nt), thickstep=w.f4())
    r['data'] = Arr((np_, nt), w.many('f4', np_ * nt))
    return r


@spec('C15', 1212, [dict(lens=l) for l in ((), (0,), (3,), (1, 0, 2), (4, 4))])
def input_card(h, w, b, lens):
    w.i32(len(lens))
    out = []
    for n in lens:
        out += [w.string(n), b'\n']
    return h.join(out)


@spec('C15', 1216, [dict(version=v, name=l, n=n, layers=k) for v, l, n, k in ((0, 3, 1, 5), (1, 0, 2, 0), (1, 4, 0, 5), (0, 1, 0, 0), (1, 2, 3, 5), (1, 2, 1, 4))])
def atmospheric_profile(h, w, b, version, name, n, layers):
    b.version = version
    nm = w.varstring(name)
    obs = w.f8()
    w.varint(v=n)
    t = [[w.f8() for _ in range(4)] for _ in range(n)]
    col = lambda i: Arr(n, [r[i] for r in t])
    w.varint(v=layers)
    htoa, five = None, None
    if layers == 5:
        htoa = w.f8()
        five = Arr((5, 5), w.many('f8', 25))
    return {'id': bid(h, b), 'name': nm, 'obslevel': obs, 'altitude_km': col(0), 'rho': col(1), 'thickness': col(2),
            'refractive_index_minus_1': col(3), 'five_layer_atmosphere': five, 'htoa': htoa}


def bid(h, b):
    """Any id."""
    if b.id is None:
        b.id = h.int(32, True)
    return b.id


# ------------------------------------------------------- C16: run and camera

@spec('C16', 71, grid(n=[0, 1, 5]))
def history_command_line(h, w, b, n):
    return (w.i32(), w.string(n))


@spec('C16', 72, grid(n=[0, 1, 5]))
def history_config(h, w, b, n):
    return (w.i32(), w.string(n))


@spec('C16', 75, [dict(lens=l) for l in ((), ((1, 0),), ((2, 3),), ((1, 2), (2, 1)), ((0, 1), (1, 1), (2, 2)))])
def history_meta(h, w, b, lens):
    w.varint(v=len(lens))
    out = {}
    for i, (k, v) in enumerate(lens):
        w.varint(v=k)
        key = bytes([97 + i]) * k
        w.raw(key)
        out[key] = w.varstring(v)
    return out


@spec('C16', 2000, [dict(version=v, n=n, s=s) for v, n, s in ((0, 1, 0), (1, 2, 3), (2, 2, 1), (2, 0, 2), (0, 3, 4), (1, 1, 0), (2, 4, 0))])
def run_header(h, w, b, version, n, s):
    b.version = version
    r = dict(run=w.i32(), time=w.i32(), run_type=w.i32(), tracking_mode=w.i32())
    if version >= 2:
        r['reverse_flag'] = w.i32()
    r['direction'] = w.arr('f4', 2)
    r['offset_fov'] = w.arr('f4', 2)
    r['conv_depth'] = w.f4()
    if version >= 1:
        r['conv_ref_pos'] = w.arr('f4', 2)
    r['n_telescopes'] = w.i32(n)
    r['tel_id'] = w.arr('i16', n)
    r['tel_pos'] = w.arr('f4', n, 3)
    r['min_tel_trig'] = w.i32()
    r['duration'] = w.i32()
    r['target'] = w.string(s)
    r['observer'] = w.string(max(0, 3 - s))
    return r


MCRUN = [('shower_prog_id', 'i'), ('shower_prog_vers', 'i'), ('shower_prog_start', 'i'), ('detector_prog_id', 'i'), ('detector_prog_vers', 'i'),
         ('detector_prog_start', 'i'), ('obsheight', 'f'), ('n_showers', 'i'), ('n_use', 'i'), ('core_pos_mode', 'i'), ('core_range', 'ff'),
         ('alt_range', 'ff'), ('az_range', 'ff'), ('diffuse', 'i'), ('viewcone', 'ff'), ('E_range', 'ff'), ('spectral_index', 'f'), ('B_total', 'f'),
         ('B_inclination', 'f'), ('B_declination', 'f'), ('injection_height', 'f'), ('atmosphere', 'i'), ('corsika_iact_options', 'i'),
         ('corsika_low_E_model', 'i'), ('corsika_high_E_model', 'i'), ('corsika_bunchsize', 'f'), ('corsika_wlen_min', 'f'), ('corsika_wlen_max', 'f'),
         ('corsika_low_E_detail', 'i'), ('corsika_high_E_detail', 'i')]


def simple(w, fields):
    out = {}
    for k, t in fields:
        out[k] = {'i': w.i32, 'f': w.f4, 's': w.i16, 'ff': lambda: w.arr('f4', 2)}[t]()
    return out


@spec('C16', 2001, [{}])
def mc_run_header(h, w, b):
    b.version = 4
    return simple(w, MCRUN)


@spec('C16', 2002, [dict(version=v, n=n, curved=c, par=p, common=k) for v, n, c, p, k in
                    ((0, 2, 0, 0, 0), (1, 2, 0, 0, 0), (2, 1, 0, 0, 0), (3, 2, 0, 0, 0), (3, 0, 0, 0, 0), (4, 2, 0, 0, 0), (4, 2, 1, 1, 1), (5, 2, 1, 0, 0), (5, 2, 0, 1, 1),
                     (6, 2, 1, 0, 1), (6, 2, 0, 1, 0), (6, 1, 1, 1, 0), (6, 3, 0, 0, 1), (6, 0, 1, 0, 0), (4, 1, -3, -1, 64), (6, 2, 100, 0, -70))])
def camera_settings(h, w, b, version, n, curved, par, common):
    b.version = version
    r = dict(n_pixels=w.i32(n), telescope_id=bid(h, b))
    r['focal_length'] = w.f4()
    if version >= 5:
        r['effective_focal_length'] = w.f4()
    if version >= 6:
        for k in ('_x', '_y', '_dx', '_dy'):
            r['effective_focal_length' + k] = w.f4()
    r['pixel_x'] = w.arr('f4', n)
    r['pixel_y'] = w.arr('f4', n)
    z = f4z(n)
    if version >= 4:
        r['curved_surface'] = w.svarint(v=curved)
        r['pixels_parallel'] = w.svarint(v=par)
        r['pixel_z'] = w.arr('f4', n) if curved else z
        r['nxpix'] = z if par else w.arr('f4', n)
        r['nypix'] = z if par else w.arr('f4', n)
        r['common_pixel_shape'] = w.svarint(v=common)
        if not common:
            r['pixel_shape'] = Arr(n, [w.svarint(1 + i % 2) for i in range(n)])
            r['pixel_area'] = w.arr('f4', n)
            r['pixel_size'] = w.arr('f4', n)
        else:
            s, a, d = w.svarint(2), w.f4(), w.f4()
            r.update(pixel_shape=Arr(n, [s] * n), pixel_area=Arr(n, [a] * n), pixel_size=Arr(n, [d] * n))
    else:
        r.update(curved_surface=0, pixels_parallel=1, common_pixel_shape=0, pixel_z=z, nxpix=z, nypix=z, pixel_shape=Arr(n, [-1] * n))
        r['pixel_area'] = w.arr('f4', n)
        r['pixel_size'] = w.arr('f4', n) if version >= 1 else z
    r['n_mirrors'], r['mirror_area'] = (w.i32(), w.f4()) if version >= 2 else (0, 0)
    r['cam_rot'] = w.f4() if version >= 3 else 0
    return r


@spec('C16', 2003, [dict(version=v, n=n, g=g, s=s, lens=l) for v, n, g, s, l in
                    ((1, 2, 1, 1, (2, 1)), (1, 1, 2, 0, (0,)), (1, 3, 1, 2, (0, 3, 1)), (1, 0, 1, 1, ()), (2, 2, 1, 1, (2, 1)), (2, 1, 2, 2, (3,)),
                     (2, 3, 1, 0, (0, 1, 0)), (2, 0, 2, 1, ()), (2, 2, 2, 1, (1, 0)), (1, 2, 2, 3, (1, 1)))])
def camera_organization(h, w, b, version, n, g, s, lens):
    b.version = version
    r = dict(telescope_id=bid(h, b), n_pixels=w.i32(n), n_drawers=w.i32(), n_gains=w.i32(g), n_sectors=w.i32(s))
    k = [0]

    def num():
        k[0] += 1
        return w.i16() if version == 1 else w.svarint(1 + k[0] % 3)
    r['drawer'] = Arr(n, [num() for _ in range(n)])
    for c in ('card', 'chip', 'channel'):
        r[c] = Arr((n, g), [num() for _ in range(n * g)])
    sectors = []
    for i in range(n):
        if version == 1:
            w.i16(lens[i])
        else:
            w.svarint(v=lens[i])
        sectors.append(Seq([num() for _ in range(lens[i])]))
    r['sectors'] = sectors
    t, a, p = [], [], []
    for _ in range(s):
        t.append(w.u8())
        a.append(w.f4())
        p.append(w.f4())
    r.update(sector_type=Arr(s, t), sector_threshold=Arr(s, a), sector_pixel_threshold=Arr(s, p))
    return r


@spec('C16', 2004, [dict(version=v, n=n, d=d, ref=r) for v, n, d, r in
                    ((0, 2, 1, (0, 0)), (1, 1, 2, (0, 0)), (2, 2, 1, (1, 2)), (3, 1, 1, (2, 2)), (3, 2, 2, (1, 3)), (3, 0, 0, (0, 0)), (2, 3, 0, (2, 1)), (0, 0, 3, (0, 0)))])
def pixel_settings(h, w, b, version, n, d, ref):
    b.version = version
    r = dict(telescope_id=bid(h, b), setup_id=w.i32(), trigger_mode=w.i32(), min_pixel_mult=w.i32(), n_pixels=w.i32(n), pixel_HV_DAC=w.arr('i32', n))
    w.i32(d)
    r['threshold_DAC'] = w.arr('i32', d)
    r['n_drawers'] = w.i32(d)
    r['ADC_start'] = w.arr('i16', d)
    r['ADC_count'] = w.arr('i16', d)
    if version >= 1:
        r['time_slice'] = w.f4()
        r['sum_bins'] = w.i32()
    if version >= 2:
        w.svarint(v=ref[0])
        w.svarint(v=ref[1])
        r['ref_step'] = w.f4()
        r['ref_shape'] = Arr(ref, [f2(h, w) for _ in range(ref[0] * ref[1])])
    r['sum_offset'] = w.i32() if version >= 3 else None
    return r


def f2(h, w):
    u = w.u16()
    return h.f2(u)


@spec('C16', 2005, [dict(a=a, c=c) for a, c in ((0, 0), (1, 0), (0, 2), (2, 1))])
def disabled_pixels(h, w, b, a, c):
    return dict(telescope_id=bid(h, b), n_trig_disabled=w.i32(a), trigger_disabled=w.arr('i32', a), n_HV_disabled=w.i32(c), HV_disabled=w.arr('i32', c))


SOFT = ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period', 'monitor_cur_period', 'report_cur_period', 'monitor_HV_period', 'report_HV_period')


@spec('C16', 2006, grid(n=[0, 1, 3]))
def camera_software_settings(h, w, b, n):
    r = simple(w, [(k, 'i') for k in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold', 'data_red_mode', 'zero_sup_mode')])
    r['zero_sup_n_thr'] = w.i32(n)
    r['zero_sup_thresholds'] = w.arr('i32', n)
    r.update(simple(w, [(k, 'i') for k in SOFT]))
    r['telescope_id'] = bid(h, b)
    return r


@spec('C16', 2007, grid(n=[0, 1, 3]))
def pointing_correction(h, w, b, n):
    return dict(telescope_id=bid(h, b), function_type=w.i32(), n_param=w.i32(n), pointing_param=w.arr('f4', n))


@spec('C16', 2008, [{}])
def drive_settings(h, w, b):
    r = dict(drive_type_az=w.i16(), drive_type_alt=w.i16())
    r.update(simple(w, [(a + c, 'f') for a in ('zeropoint', 'sign', 'resolution', 'range_low', 'range_high', 'park_pos') for c in ('_az', '_alt')]))
    return r


# --------------------------------------------------------------- C17: Monte Carlo

@spec('C17', 2020, [dict(version=v, steps=s, ext=e) for v, s, e in
                    ((0, (), None), (0, (2,), None), (1, (), None), (1, (1, 0, 2), None), (1, (3, 1), None), (2, (), (0, 0)), (2, (2,), (1, 2)), (2, (1, 1), (2, 0)), (2, (), (0, 3)))])
def mc_shower(h, w, b, version, steps, ext):
    b.version = version
    r = dict(shower=bid(h, b), primary_id=w.i32(), energy=w.f4(), azimuth=w.f4(), altitude=w.f4())
    if version >= 1:
        r['depth_start'] = w.f4()
    r['h_first_int'] = w.f4()
    r['xmax'] = w.f4()
    for k in ('hmax', 'emax', 'cmax'):
        r[k] = w.f4() if version >= 1 else 0
    r['n_profiles'] = w.i16(len(steps))
    r['profiles'] = [dict(id=w.i32(), n_steps=w.i32(n), start=w.f4(), end=w.f4(), content=w.arr('f4', n)) for n in steps]
    if version >= 2:
        v = h.writer()
        r['mc_extra_params'] = extra(v, *ext)
        p = v.bytes()
        w.raw(header(h, 1215, 0, h.int(32, True), len(p), top=False))
        w.raw(p)
    return r


def extra(w, ni, nf):
    r = dict(weight=w.f4(), n_iparam=w.varint(v=ni), n_fparam=w.varint(v=nf))
    if ni:
        r['iparam'] = w.arr('i32', ni)
    if nf:
        r['fparam'] = w.arr('f4', nf)
    return r


@spec('C17', 1215, grid(ni=[0, 1, 3], nf=[0, 1, 2]))
def mc_extra_params(h, w, b, ni, nf):
    return extra(w, ni, nf)


@spec('C17', 2021, grid(version=[0, 1, 2]))
def mc_event(h, w, b, version):
    b.version = version
    r = dict(event_id=bid(h, b), shower_num=w.i32(), xcore=w.f4(), ycore=w.f4())
    r['aweight'] = w.f4() if version >= 2 else 1.0
    return r


@spec('C17', 2026, grid(version=[0, 1, 2], n=[0, 1, 3]))
def mc_photoelectron_sum(h, w, b, version, n):
    b.version = version
    r = dict(event=bid(h, b), shower_num=w.i32(), n_tel=w.i32(n), n_pe=w.arr('i32', n))
    for _ in range(n):
        w.i32(0)
    if version >= 1:
        for k in ('photons', 'photons_atm', 'photons_atm_3_6', 'photons_atm_qe'):
            r[k] = w.arr('f4', n)
    if version >= 2:
        r['photons_atm_400'] = w.arr('f4', n)
    return r


# ------------------------------------------------- C18: trigger, headers, tracking

def time_(w):
    return (w.i32(), w.i32())


def fixed_mask(h, m):
    """The bits 0x10, 0x20, 0x40 belong at 0x100, 0x200, 0x400."""
    return (m & ~0x70) | ((m & 0x70) << 4)


MASKBITS = {1: 7, 2: 14, 3: 21, 5: 35, 9: 64}


@spec('C18', 2009, [dict(version=v, n=n, d=d, masks=m, size=s) for v, n, d, m, s in
                    ((0, 0, 0, (), 1), (1, 0, 0, (), 1), (1, 2, 1, (), 1), (1, 1, 3, (), 1), (2, 0, 1, (), 1), (2, 1, 0, (None,), 2), (2, 2, 1, (3, 8), 1), (2, 1, 2, (None,), 3),
                     (3, 0, 0, (), 1), (3, 1, 1, (None,), 1), (3, 2, 2, (None, 5), 2), (3, 1, 0, (15,), 1), (3, 2, 0, (0x71, None), 1), (3, 3, 0, (3, 0x16, 9), 1), (2, 1, 0, (1,), 5), (3, 1, 0, (2,), 9))])
def trigger_information(h, w, b, version, n, d, masks, size):
    b.version = version
    r = dict(cpu_time=time_(w), gps_time=time_(w), trigger_pattern=w.i32(), data_pattern=w.i32())
    tels = []
    if version >= 1:
        r['n_triggered_telescopes'] = w.i16(n)
        for i in range(n):
            tels.append(w.i16(*([] if masks == () else [7 * i + 3])))
        r['triggered_telescopes'] = Arr(n, tels)
        r['trigger_times'] = w.arr('f4', n)
        if isinstance(d, int):
            r['n_telescopes_with_data'] = w.i16(d)
            r['telescopes_with_data'] = w.arr('i16', d)
        else:
            r['n_telescopes_with_data'] = w.i16(len(d))
            r['telescopes_with_data'] = Arr(len(d), [w.i16(t) for t in d])
    if version >= 2:
        ms = []
        for m in masks:
            if m is None:
                ms.append(w.varint(size))
            else:
                v = h.int(MASKBITS[size]) & ~0xf | m & 0xf if size > 1 else m
                w.raw(h.varint_bytes(v, size))
                ms.append(v)
        r['teltrg_type_mask'] = Arr(n, [fixed_mask(h, m) for m in ms])
        times = {}
        for t, m in zip(tels, ms):
            low = h.concrete(m & 15)
            bits = [k for k in range(4) if low >> k & 1]
            if len(bits) > 1:
                times[t] = {k: w.f4() for k in bits}
        r['teltrg_time_by_type'] = times
    if version >= 3:
        r['plane_wavefront_compensation'] = dict(az=w.f4(), alt=w.f4(), speed_of_light=w.f4())
    return r


@spec('C18', 2011, [dict(version=v, sect=s, phys=p, tim=t) for v, s, p, t in
                    ((0, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (1, 1, 2, 0), (1, 2, 0, 1), (2, 0, 0, 0), (2, 2, 1, 0), (2, 1, 2, 1), (3, 0, 0, 0), (3, 2, 2, 1), (4, 0, 0, 0), (4, 1, 0, 1),
                     (4, 0, 2, 0), (4, 2, 3, 1), (0, 1, 1, 1), (1, None, None, 1), (4, None, 1, 0), (4, 1, None, 0), (3, None, None, 0))])
def telescope_event_header(h, w, b, version, sect, phys, tim):
    """sect and phys: number of sectors and addresses (None: not stored)."""
    b.version = version
    r = dict(loc_count=w.i32(), glob_count=w.i32(), cpu_time=time_(w), gps_time=time_(w), telescope_id=bid(h, b))
    src = h.int(8)
    t = src | (0x100 if sect is not None else 0) | (0x200 if phys is not None else 0) | (0x400 if tim else 0)
    hi = h.int(4)
    w.raw(h.le(t | (hi << 12), 2))
    r['trg_source'] = src

    def numbers(n):
        if version <= 1:
            w.i16(n)
            return w.arr('i16', n)
        w.svarint(v=n)
        return Arr(n, [w.svarint(1 + i % 3) for i in range(n)])
    if sect is not None:
        r['list_trgsect'] = numbers(sect)
        if version >= 1 and tim:
            r['time_trgsect'] = w.arr('f4', sect)
    if phys is not None:
        r['n_phys_addr'] = phys
        r['phys_addr'] = numbers(phys)
    if version >= 3:
        r['readout_time'] = w.f4()
        r['relative_trigger_time'] = w.f4()
    if version >= 4:
        r['start_readout'] = w.i32()
    return r


@spec('C18', 2100, [dict(tel=t, raw=a, cor=c) for t, a, c in ((5, 1, 1), (0, 1, 0), (999, 0, 1), (123, 1, 1), (300, 0, 1), (99, 1, 0))])
def tracking_position(h, w, b, tel, raw, cor):
    b.type = 2100 + tel % 100 + 1000 * (tel // 100)
    other = h.int(32) & ~0x3f0003ff
    b.id = h.signed32(other | (tel & 0xff) | ((tel & 0x3f00) << 16) | (0x100 * raw) | (0x200 * cor))
    r = dict(telescope_id=tel)
    if raw:
        r['azimuth_raw'], r['altitude_raw'] = w.f4(), w.f4()
    if cor:
        r['azimuth_cor'], r['altitude_cor'] = w.f4(), w.f4()
    return r


# ------------------------------------------------------------------- C19: ADC data

def diff(h, w, n, sizes, bits=32):
    """A differentially packed row of n values; returns the values."""
    acc = 0
    out = []
    for i in range(n):
        acc = acc + h.zigzag(w.varint(sizes[i % len(sizes)]))
        out.append(acc & ((1 << bits) - 1))
    return out


def adc_id(h, b, zero, red=0, known=0):
    """Object id of ADC data; telescope id and the bits that mean nothing are free."""
    b.tel = h.int(16) if b.tel is None else b.tel
    top = h.int(4)
    spare = h.int(1)
    b.id = h.signed32(zero | red << 5 | known << 10 | spare << 11 | b.tel << 12 | top << 28)


@spec('C19', 2012, [dict(n=n, g=g, sizes=s) for n, g, s in ((2, 1, (1, 2)), (3, 2, (1,)), (2, 2, (3, 1)), (0, 2, (1,)), (5, 1, (2,)), (2, 1, (5, 4)), (4, 2, (2, 1)), (1, 1, (2,)), (1, 2, (1, 3)))])
def adc_sums_full(h, w, b, n, g, sizes):
    b.version = 3
    adc_id(h, b, 0)
    w.i32(n)
    w.i16(g)
    return Arr((g, n), [x for _ in range(g) for x in diff(h, w, n, sizes)])


@spec('C19', 2012, [dict(n=n, g=g, bits=z) for n, g, z in
                    ((3, 1, (None,)), (3, 2, (None,)), (2, 2, (3,)), (16, 1, (0x8001,)), (16, 2, (0x8421,)), (17, 2, (0x8003, 1)), (18, 1, (0, None)), (33, 2, (0x10, 0x8000, 1)),
                     (20, 2, (0x4000, 9)), (32, 1, (1, 0x8000)), (5, 1, (0,)), (5, 2, (0,)), (1, 1, (1,)), (1, 2, (None,)))])
def adc_sums_bits(h, w, b, n, g, bits):
    """Zero suppression by a bit pattern for 16 pixels each."""
    b.version = 3
    adc_id(h, b, 1)
    w.i32(n)
    w.i16(g)
    hi, lo = [0] * n, [0] * n
    for k, z in enumerate(bits):
        here = min(16, n - 16 * k)
        if z is None:
            z = h.range(0, (1 << here) - 1)
        w.i16(z if z < 0x8000 else z - 0x10000)
        pix = [16 * k + j for j in range(here) if z >> j & 1]
        if g == 2:
            for p, v in zip(pix, diff(h, w, len(pix), (1, 2))):
                lo[p] = v
        for p, v in zip(pix, diff(h, w, len(pix), (2, 1, 3))):
            hi[p] = v
    return Arr((g, n), hi + lo if g == 2 else hi)


NOLG, NARROW = 0x2000, 0x4000


@spec('C19', 2012, [dict(n=n, g=g, pix=p) for n, g, p in
                    ((3, 1, ((1, 0),)), (4, 2, ((0, 0), (3, 0))), (4, 2, ((1, NOLG), (2, 0))), (4, 2, ((0, NOLG | NARROW), (1, 0), (3, NOLG))), (3, 1, ((0, NARROW), (2, 0))),
                     (3, 1, ((2, NARROW), (1, NARROW))), (2, 2, ()), (3, 2, ((2, NOLG | NARROW),)), (5, 2, ((4, 0), (0, NOLG), (1, NOLG | NARROW), (2, 0))), (4, 1, ((1, NOLG), (3, NOLG | NARROW))), (1, 2, ((0, 0),)), (1, 1, ()))])
def adc_sums_list(h, w, b, n, g, pix):
    """Zero suppression by a list of pixels."""
    b.version = 3
    adc_id(h, b, 2)
    w.i32(n)
    w.i16(g)
    w.i16(len(pix))
    for p, f in pix:
        w.u16(p | f)
    hi, lo = [0] * n, [0] * n
    if g == 2:
        with_lg = [p for p, f in pix if not f & NARROW and not f & NOLG]
        for p, v in zip(with_lg, diff(h, w, len(with_lg), (2, 1))):
            lo[p] = v
    wide = [p for p, f in pix if not f & NARROW]
    for p, v in zip(wide, diff(h, w, len(wide), (1, 2))):
        hi[p] = v
    for p, f in pix:
        if f & NARROW:
            hi[p] = w.u8()
    return Arr((g, n), hi + lo if g == 2 else hi)


@spec('C19', 2013, [dict(n=n, g=g, m=m, sizes=s) for n, g, m, s in ((2, 1, 2, (1, 2)), (1, 2, 3, (2, 1)), (3, 2, 2, (1,)), (2, 2, 1, (1,)), (2, 1, 1, (3,)), (0, 1, 2, (1,)), (1, 1, 4, (1, 2, 3)), (1, 1, 1, (1,)), (1, 2, 1, (2,)))])
def adc_samples_full(h, w, b, n, g, m, sizes):
    b.version = 3
    adc_id(h, b, 0)
    w.i32(n)
    w.i16(g)
    w.i16(m)
    v = [x for _ in range(g * n) for x in diff(h, w, m, sizes, 16)]
    return Arr((g, n, m) if m != 1 else (g, n), v)


@spec('C19', 2013, [dict(n=n, g=g, m=m, ranges=r, mode=z) for n, g, m, r, z in
                    ((3, 1, 2, ((1, 1, False),), 1), (4, 2, 2, ((0, 1, False), (3, 3, True)), 1), (3, 1, 2, (), 1), (5, 1, 2, ((0, 0, True), (2, 4, False)), 2), (2, 2, 1, ((0, 1, False),), 1),
                     (4, 2, 3, ((2, 2, True),), 1), (6, 1, 2, ((5, 5, True), (0, 2, False)), 3), (4, 1, 2, ((1, 2, False), (3, 3, False)), 1), (3, 2, 2, ((1, 1, True),), None))])
def adc_samples_ranges(h, w, b, n, g, m, ranges, mode):
    """Zero suppression by ranges of pixels; single pixels may be stored as one negative number."""
    b.version = 3
    if mode is None:
        mode = h.int(5)
        h.assume(mode != 0)
    adc_id(h, b, mode)
    w.i32(n)
    w.i16(g)
    w.i16(m)
    w.svarint(v=len(ranges))
    pix = []
    for a, z, single in ranges:
        if single:
            w.svarint(v=-a - 1)
        else:
            w.svarint(v=a)
            w.svarint(v=z)
        pix += list(range(a, z + 1))
    out = [0] * (g * n * m)
    for k in range(g):
        for p in pix:
            for i, v in enumerate(diff(h, w, m, (1, 2), 16)):
                out[(k * n + p) * m + i] = v
    return Arr((g, n, m) if m != 1 else (g, n), out)


# ----------------------------------------------------- C20: pixel timing, lists, traces

@spec('C20', 2016, [dict(version=v, lt=t, n=n, g=g, nt=k, pix=p, sums=s, sel=o, gran=q) for v, t, n, g, k, p, s, o, q in
                    ((1, 1, 3, 1, 1, (1,), 1, 0, 0.25), (1, 1, 3, 1, 2, (2, 0), 1, 1, 0.1), (1, 1, 2, 2, 1, (0,), 0, 0, 1.0), (1, 2, 3, 1, 1, ((0, 1),), 1, 0, 0.25), (1, 2, 4, 2, 1, ((1, 1), (3, 3)), 1, 1, 0.5),
                     (2, 1, 3, 2, 1, (1, 2), 1, 0, 0.25), (2, 1, 2, 1, 2, (), 1, 0, None), (2, 2, 3, 1, 1, (), 1, 1, None), (2, 2, 4, 1, 2, ((2, 3),), 1, 0, 2.0), (2, 2, 3, 2, 1, ((0, 2),), 1, 1, 0.25),
                     (2, 1, 3, 1, 1, (2,), 0, 1, 0.1), (2, 2, 3, 1, 2, ((1, 2),), 0, 0, 0.3), (1, 1, 2, 1, 0, (1,), 1, 0, 0.25), (2, 1, 1, 2, 2, (0,), 1, 1, 0.2), (2, 2, 3, 1, 1, (), 1, 0, None), (1, 2, 2, 2, 1, (), 1, 0, 0.25), (1, 1, 2, 2, 1, (), 1, 0, 0.25))])
def pixel_timing(h, w, b, version, lt, n, g, nt, pix, sums, sel, gran):
    import struct
    b.version = version
    num = (lambda v: w.i16(v)) if version == 1 else (lambda v: w.svarint(v=v))
    r = dict(n_pixels=num(n), n_gains=w.i16(g))
    if sums:
        before, after = h.int(15), h.int(15)
    else:
        before, after = h.int(16, True), h.int(16, True)
        h.assume(h.Or(before < 0, after < 0))
    r['before_peak'], r['after_peak'] = w.i16(before), w.i16(after)
    r['with_sum'] = bool(sums)
    r['list_type'] = w.i16(lt)
    num(len(pix))
    for p in pix:
        for q in (p if lt == 2 else (p,)):
            num(q)
    r['pixel_list'] = Arr((len(pix), 2), [x for p in pix for x in p]) if lt == 2 else Arr(len(pix), list(pix))
    thr = h.int(15)
    r['threshold'] = w.i16(-thr - 1 if sel else thr)
    r['glob_only_selected'] = bool(sel)
    r['n_types'] = w.i16(nt)
    r['time_type'] = w.arr('i16', nt)
    r['time_level'] = w.arr('f4', nt)
    if gran is None:
        r['granularity'] = w.f4()
    else:
        w.raw(struct.pack('<f', gran))
        r['granularity'] = gran = f32(gran)
    r['peak_global'] = w.f4()
    time = [float('nan')] * (n * nt)
    loc, glob = [0] * (g * n), [0] * (g * n)
    listed = [i for p in pix for i in (range(p[0], p[1] + 1) if lt == 2 else (p,))]
    k = 0
    for i in listed:
        for t in range(nt):
            time[i * nt + t] = Approx(scaled(h, w.i16(), gran))
        if sums:
            for c in range(g):
                k += 1
                loc[c * n + i] = w.svarint(1 + k % 3)
            if sel:
                for c in range(g):
                    k += 1
                    glob[c * n + i] = w.svarint(1 + k % 3)
    if sums and pix and not sel:
        for c in range(g):
            for i in range(n):
                k += 1
                glob[c * n + i] = w.svarint(1 + k % 3)
    r['time'] = Arr((n, nt), time, 'f')
    r['pulse_sum_loc'] = Arr((g, n), loc, 'i')
    r['pulse_sum_glob'] = Arr((g, n), glob, 'i')
    return r


def scaled(h, n, c):
    """The number n * c."""
    return h.scaled(n, c)


@spec('C20', 2027, grid(version=[0, 1], n=[0, 1, 3]))
def pixel_list(h, w, b, version, n):
    b.version = version
    b.id = h.int(31) if b.id is None else b.id
    r = dict(code=b.id // 1000000, telescope_id=b.id % 1000000)
    if version == 0:
        r['pixels'] = w.i16(n)
        r['pixel_list'] = w.arr('i16', n)
    else:
        r['pixels'] = w.svarint(v=n)
        r['pixel_list'] = Arr(n, [w.svarint(1 + i % 3) for i in range(n)])
    return r


@spec('C20', 2032, grid(n=[0, 1, 3], s=[1, 2]))
def pixel_trigger_times(h, w, b, n, s):
    r = dict(time_step=w.f4(), n_times=w.svarint(v=n))
    r['pixel_ids'] = Arr(n, [w.svarint(s + i % 2) for i in range(n)])
    r['trigger_times'] = Arr(n, [w.svarint(3 - s) for i in range(n)])
    return r


@spec('C20', 2029, [dict(n=n, m=m) for n, m in ((0, 0), (1, 2), (2, 1), (2, 3), (3, 2), (0, 2))])
def auxiliary_digital_traces(h, w, b, n, m):
    r = dict(tel_id=w.i32(), time_scale=w.f4())
    w.varint(v=n)
    w.varint(v=m)
    r['trace_data'] = Arr((n, m), [x for i in range(n) for x in diff(h, w, m, (1 + i % 2, 2))])
    return r


@spec('C20', 2030, [dict(n=n, m=m) for n, m in ((0, 0), (1, 2), (2, 1), (2, 3), (130, 1), (0, 2))])
def auxiliary_analog_traces(h, w, b, n, m):
    r = dict(tel_id=w.i32(), time_scale=w.f4())
    w.varint(v=n)
    w.varint(v=m)
    r['trace_data'] = w.arr('f4', n, m)
    return r


# ------------------------------------------------ C21: images and reconstructed showers

@spec('C21', 2014, [dict(version=v, flags=f, sat=s, hot=k) for v in (5, 6) for f, s, k in
                    ((0, 0, 0), (1, 1, 0), (2, 0, 0), (4, 1, 2), (8, 0, 0), (12, 0, 1), (7, 1, 0), (15, 0, 3), (15, 1, 1), (5, 0, 2), (11, 1, 0), (10, 0, 0), (6, 1, 1))])
def image_parameters(h, w, b, version, flags, sat, hot):
    b.version = version
    tel = h.int(14) if b.tel is None else b.tel
    cut = h.int(8)
    spare = h.int(4)
    b.tel = tel
    b.id = (tel & 0xff) | flags << 8 | cut << 12 | spare << 20 | (tel & 0x3f00) << 16
    r = dict(flags=b.id, telescope_id=tel, cut_id=cut, flags_hex=h.hex(b.id))
    if version == 6:
        r['pixels'] = w.svarint(2)
        n_sat = w.svarint(1) if not getattr(h, 'constants', False) else w.svarint(v=sat)
    else:
        r['pixels'] = w.i16()
        n_sat = w.i16()
    h.assume(n_sat > 0 if sat else n_sat <= 0)
    r['n_sat'] = n_sat
    if sat:
        r['clip_amp'] = w.f4()
    for k in ('amplitude', 'x', 'y', 'phi', 'l', 'w'):
        r[k] = w.f4()
    r['n_conc'] = w.i16()
    r['concentration'] = w.f4()
    if flags & 1:
        for k in ('x_err', 'y_err', 'phi_err', 'l_err', 'w_err'):
            r[k] = w.f4()
    if flags & 2:
        for k in ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err'):
            r[k] = w.f4()
    if flags & 4:
        r['n_hot'] = w.svarint(v=hot) if version == 6 else w.i16(hot)
        r['hot_amp'] = w.arr('f4', hot)
        r['hot_pixel'] = Arr(hot, [w.svarint(1 + i % 2) for i in range(hot)]) if version == 6 else w.arr('i16', hot)
    if flags & 8:
        for k in ('tm_slope', 'tm_residual', 'tm_width1', 'tm_width2', 'tm_rise'):
            r[k] = w.f4()
    return r


STEREO = [(0x01, ('Az', 'Alt')), (0x02, ('err_dir1', 'err_dir2', 'err_dir3')), (0x04, ('xc', 'yc')), (0x08, ('err_core1', 'err_core2', 'err_core3')),
          (0x10, ('mscl', 'mscw')), (0x20, ('err_mscl', 'err_mscw')), (0x40, ('energy',)), (0x80, ('err_energy',)), (0x100, ('xmax',)), (0x200, ('err_xmax',))]


@spec('C21', 2015, [dict(fixed=f, free=x) for f, x in ((0, 0x1f), (0x3e0, 0x1f), (0, 0x3e0), (0x1f, 0x3e0), (0x155, 0x22), (0x0aa, 0x111), (0x3ff, 0))])
def stereo_reconstruction(h, w, b, fixed, free):
    """Every combination of the free bits together with the fixed ones."""
    b.version = 1
    bits = fixed
    for k in range(10):
        if free >> k & 1 and h.bool():
            bits |= 1 << k
    b.id = h.signed32(h.int(22) << 10 | bits)
    r = dict(result_bits=b.id, n_trg=w.i16(), n_read=w.i16(), n_img=w.i16(), img_pattern=w.i32())
    for m, names in STEREO:
        if bits & m:
            for k in names:
                r[k] = w.f4()
    return r


# -------------------------------------------------- C22: monitoring and calibration

@spec('C22', 2022, [dict(version=v, what=x, dims=d) for v in (0, 1) for x, d in
                    ((0, (1, 1, 1, 1)), (1, (1, 2, 1, 1)), (2, (3, 1, 1, 1)), (4, (1, 2, 1, 2)), (8, (1, 2, 2, 1)), (16, (1, 3, 1, 1)), (32, (1, 2, 3, 1)), (64, (1, 1, 1, 1)),
                     (127, (2, 3, 2, 1)), (127, (1, 2, 1, 2)), (0x2a, (2, 2, 1, 1)), (0x55, (1, 2, 2, 2)), (3, (0, 1, 1, 1)), (12, (1, 1, 0, 1)), (48, (1, 0, 0, 1)), (124, (1, 0, 1, 2)), (0x60, (2, 1, 2, 1)))])
def camera_monitoring(h, w, b, version, what, dims):
    b.version = version
    ns, np_, nd, ng = dims
    tel = h.int(14) if b.tel is None else b.tel
    high = h.int(8)
    b.tel = tel
    b.id = (tel & 0xff) | what << 8 | high << 16 | (tel & 0x3f00) << 16
    r = dict(telescope_id=tel, what=what | high << 8, known=w.i16(), new_parts=w.i16(), monitor_id=w.i32(), moni_time=time_(w))
    for k, v in (('n_sectors', ns), ('n_pixels', np_), ('n_drawers', nd), ('n_gains', ng)):
        r[k] = w.i16(v) if version == 0 else w.svarint(v=v)
    if what & 1:
        r['status_time'] = time_(w)
        r['status_bits'] = w.i32()
    if what & 2:
        r['trig_time'] = time_(w)
        r['coinc_count'] = w.i32()
        r['event_count'] = w.i32()
        r['trigger_rate'] = w.f4()
        r['sector_rate'] = w.arr('f4', ns)
        r['event_rate'] = w.f4()
        r['data_rate'] = w.f4()
        r['mean_significant'] = w.f4()
    if what & 4:
        r['ped_noise_time'] = time_(w)
        r['n_ped_slices'] = w.i16()
        r['pedestal'] = w.arr('f4', ng, np_)
        r['noise'] = w.arr('f4', ng, np_)
    if what & 8:
        r['hv_temp_time'] = time_(w)
        ndt, nct = 1 + np_ % 2, np_ % 3
        r['n_drawer_temp'] = w.i16(ndt)
        r['n_camera_temp'] = w.i16(nct)
        r['hv_v_mon'] = w.arr('i16', np_)
        r['hv_i_mon'] = w.arr('i16', np_)
        r['hv_stat'] = w.arr('u8', np_)
        r['drawer_temp'] = w.arr('i16', nd, ndt)
        r['camera_temp'] = w.arr('i16', nct)
    if what & 16:
        r['dc_rate_time'] = time_(w)
        r['current'] = w.arr('u16', np_)
        r['scaler'] = w.arr('u16', np_)
    if what & 32:
        r['hv_thr_time'] = time_(w)
        r['hv_dac'] = w.arr('u16', np_)
        r['thresh_dac'] = w.arr('u16', nd)
        r['hv_set'] = w.arr('u8', np_)
        r['trig_set'] = w.arr('u8', np_)
    if what & 64:
        r['set_daq_time'] = time_(w)
        for k in ('daq_conf', 'daq_scaler_win', 'daq_nd', 'daq_acc', 'daq_nl'):
            r[k] = w.i16()
    return r


@spec('C22', 2023, [dict(version=v, n=n, g=g) for v in range(4) for n, g in ((2, 1), (1, 2), (3, 2), (0, 1))])
def laser_calibration(h, w, b, version, n, g):
    b.version = version
    w.u16(n)
    w.i16(g)
    r = dict(telescope_id=bid(h, b), lascal_id=w.i32(), calib=w.arr('f4', g, n))
    if version >= 1:
        t = w.many('f4', 2 * g)
        r['max_int_frac'] = Arr(g, t[0::2])
        r['max_pixtm_frac'] = Arr(g, t[1::2])
    if version >= 2:
        r['tm_calib'] = w.arr('f4', g, n)
    if version >= 3:
        r['flat_fielding'] = w.arr('f4', g, n)
    return r


PIXMON = ('nsb_rate', 'qe_rel', 'gain_rel', 'hv_rel', 'current', 'fadc_amp_hg', 'fadc_amp_lg', 'disabled')


@spec('C22', 2033, [dict(free=f, fixed=x, n=n, g=g) for f, x, n, g in ((0x0f, 0, 1, 1), (0xf0, 0, 2, 1), (0xf0, 0, 1, 2), (0x0f, 0xf0, 1, 2), (0x99, 0x24, 2, 2), (0x66, 0x81, 1, 1), (0, 0xff, 3, 2), (0, 0xff, 0, 2), (0, 0xff, 2, 3))])
def pixel_monitoring(h, w, b, free, fixed, n, g):
    bits = fixed
    for k in range(8):
        if free >> k & 1 and h.bool():
            bits |= 1 << k
    flags = h.signed32(h.int(24) << 8 | bits)
    r = dict(flags=w.i32(flags), n_pixels=w.i32(n), n_gains=w.i16(g))
    for k, name in enumerate(PIXMON):
        if bits >> k & 1 and not (name == 'fadc_amp_lg' and g <= 1):
            if name == 'disabled':
                v = [h.int(1) for _ in range(n)]
                for x in v:
                    w.u8(x)
                r[name] = Arr(n, [x == 1 for x in v], 'b')
            else:
                r[name] = w.arr('f4', n)
    return r


# ------------------------------------------------------------ C14: photo-electrons

@spec('C14', 1208, [dict(version=v, n=n, pix=p, amp=a, photons=q) for v, n, p, a, q in
                    ((1, 3, (), 0, None), (1, 3, ((1, 2),), 0, None), (1, 4, ((0, 1), (3, 2)), 0, None), (2, 3, ((2, 1),), 1, None), (2, 3, ((0, 2), (1, 1)), 1, ((1,), (2,))), (2, 3, ((1, 1),), 0, ((0,),)),
                     (2, 2, (), 0, ()), (3, 3, ((2, 2),), 0, None), (3, 3, ((0, 1), (2, 3)), 1, None), (3, 3, ((1, 0), (2, 1)), 1, ((0,), (1,), (2,))), (3, 200, ((150, 1), (3, 1)), 0, ((199,),)),
                     (3, 3, ((2, 1), (0, 2), (1, 1)), 1, ((1,),)), (2, 2, ((1, 3),), 0, None), (3, 1, ((0, 4),), 1, None))])
def photo_electrons(h, w, b, version, n, pix, amp, photons):
    b.version = version
    r = dict(n_pe=w.i32(sum(k for _, k in pix)), n_pixels=w.i32(n))
    if version > 1:
        spare = h.int(15) & ~5
        w.raw(h.le(spare | (1 if amp else 0) | (4 if photons is not None else 0), 2))
    r['non_empty'] = w.i32(len(pix))
    pe, ids, times, amps = [0] * n, [], [], []
    for p, k in pix:
        if version > 2:
            w.svarint(v=p)
        else:
            w.i16(p)
        pe[p] = w.i32(k)
        times += w.many('f4', k)
        ids += [p] * k
        if amp:
            amps += w.many('f4', k)
    r['photoelectrons'] = Arr(n, pe)
    r['pixel_id'] = Arr(len(ids), ids)
    r['time'] = Arr(len(ids), times, 'f')
    if amp:
        r['amplitude'] = Arr(len(ids), amps, 'f')
    if photons is not None:
        ph = [0] * n
        w.i32(len(photons))
        for (p,) in photons:
            w.i16(p)
            ph[p] = w.i32()
        r['photons'] = Arr(n, ph)
    return r


# ------------------------------------------------------------ C12: photon bunches

PHOTON = ('x', 'y', 'cx', 'cy', 'time', 'zem', 'photons', 'wavelength')
PARTICLE = ('x', 'y', 'cx', 'cy', 'time', 'momentum', 'weight', 'particle_id')
EMITTER = ('x', 'y', 'mass', 'charge', 'time', 'emission_time', 'energy', 'wavelength')


def bunch(h, w, compact, kind):
    """Writes one bunch; returns whether it is an emitter record and its values."""
    if not compact:
        v = [w.f4() for _ in range(7)]
        if kind == 'e':
            bits = 0x461c3c00
            w.raw(h.le(bits, 4))
        else:
            bits = h.int(32)
            w.raw(h.le(bits, 4))
            if kind == 'p':
                h.assume(bits != 0x461c3c00)
        return kind != 'x' and bool(bits == 0x461c3c00), v + [h.f4(bits)]
    v = [w.i16() for _ in range(7)]
    if kind == 'e':
        wl = w.i16(9999)
    else:
        wl = w.i16()
        if kind == 'p':
            h.assume(wl != 9999)
    clip = lambda n: h.ite(n > 30000, 30000, h.ite(n < -30000, -30000, n))
    a = lambda n, c: Approx(h.scaled(n, c))
    r = [a(v[0], 0.1), a(v[1], 0.1), a(clip(v[2]), 1 / 30000), a(clip(v[3]), 1 / 30000), a(v[4], 0.1), h.pow10(v[5], 0.001), a(v[6], 0.01), h.scaled(wl, 1)]
    return kind != 'x' and bool(wl == 9999), r


def table(rows, names):
    return Rec(len(rows), {c: Arr(len(rows), [r[i] for r in rows]) for i, c in enumerate(names)})


def bunches(h, w, b, compact, kinds):
    """Header and bunches of a photon object; returns the list of (is emitter, values)."""
    if getattr(h, 'constants', False):
        b.version = 1000 if compact else 0
    else:
        b.version = h.int(12)
    h.assume(h.And(b.version >= 1000, b.version < 2000) if compact else h.Or(b.version < 1000, b.version >= 2000))
    b.attrs = dict(array=w.i16(), telescope=w.i16() if b.tel is None else w.i16(b.tel), n_photons=w.f4(), n_bunches=w.i32(len(kinds)))
    return [bunch(h, w, compact, k) for k in kinds]


def photon_tables(rows):
    em = [v for e, v in rows if e]
    return (table([v for e, v in rows if not e], PHOTON), table(em, EMITTER) if em else None)


@spec('C12', 1205, [dict(compact=c, kinds=k) for c in (0, 1) for k in ('', 'p', 'e', '??', 'ep', 'ppp', 'pep', 'epe')])
def photons(h, w, b, compact, kinds):
    if b.id is None:
        b.id = h.int(31)
        h.assume(b.id != 999999)
    rows = bunches(h, w, b, compact, kinds)
    b.attrs.update(array_id=b.id // 1000, telescope_id=b.id % 1000)
    return photon_tables(rows)


@spec('C12', 1205, [dict(compact=c, n=n) for c in (0, 1) for n in (0, 1, 2, 3)], name='observation_level_particles')
def observation_level_particles(h, w, b, compact, n):
    b.id = 999999
    rows = bunches(h, w, b, compact, 'x' * n if n < 3 else 'exp')
    b.attrs.update(array_id=999, telescope_id=999)
    return table([v for _, v in rows], PARTICLE)


# --------------------------------------------------------------- C29: histograms

@spec('C29', 100, [dict(version=v, hists=x) for v, x in (
    (1, ()), (2, (('F', (1, 1), 2, 0, 1),)), (1, (('F', (), 1, 2, 1),)), (2, (('D', (1,), 2, 2, 0),)), (1, (('D', (2,), 3, 0, 0),)), (2, (('R', (1, 2), 3, 0, 1),)),
    (2, (('r', (3,), 2, 2, 1),)), (1, (('I', (1, 1, 1), 3, 2, 1),)), (2, (('i', (2, 2), 2, 3, 0),)), (1, (('I', (4, 1), 1, 0, 1),)), (2, (('R', (), 0, 0, 1),)),
    (2, (('F', (1,), 0, 3, 1),)), (1, (('F', (2, 1), 1, 0, 1), ('I', (), 2, 1, 1))), (2, (('I', (1,), 2, 0, 0), ('D', (3,), 1, 1, 1), ('r', (1, 1), 1, 0, 1))))],
    name='histograms')
def histograms(h, w, b, version, hists):
    """Every histogram: type, lengths in bytes of the characters of the title, bins in x and y, filled or not."""
    b.version = version
    w.i16(len(hists))
    out = []
    for type_, title, nx, ny, filled in hists:
        r = dict(type=type_)
        w.raw(type_.encode())
        raw, r['title'] = h.utf8(title)
        w.i16(sum(title))
        w.raw(raw)
        if sum(title) % 2 == 0:
            w.u8()
        r['id'] = w.i32()
        r['n_bins_x'], r['n_bins_y'] = w.i16(nx), w.i16(ny)
        r['entries'] = w.i32()
        r['tentries'] = w.i32() if not getattr(h, 'constants', False) else w.i32(7 if filled else 0)
        h.assume(r['tentries'] > 0 if filled else r['tentries'] <= 0)
        num = w.i32 if type_ in 'Ii' else w.f4
        for ax in 'xy' if ny else 'x':
            r['underflow_' + ax], r['overflow_' + ax] = w.i32(), w.i32()
            for k in ('lower_', 'upper_', 'sum_', 'tsum_'):
                r[k + ax] = num()
        if type_ in 'FD':
            r['content_all'], r['content_inside'] = w.f4(), w.f4()
            r['content_outside'] = w.arr('f4', 8)
        n = nx * max(ny, 1)
        data = w.many('f4' if type_ in 'FD' else 'i32', n) if filled else [0] * n
        r['data'] = Arr((ny, nx) if ny else (nx,), data)
        out.append(r)
    return out


def run(h, spec_, variant, place='second', large=False):
    """The block decodes to what was written, wherever it is in the file."""
    if large:
        h = Sparse(h, 4 if spec_.name in SUMS else None)
    b = B(h, spec_, variant)
    ev = h.load('eventio')
    before = header(h, 7, 0, 5, 3)
    if place == 'second':
        data = h.join([before, h.bytes(3), b.emit(), header(h, 9, 0, 1, 0)])
        f = ev.EventIOFile(h.file(data))
        next(f)
        o = next(f)
    else:
        inner = b.emit(top=False)
        data = h.join([header(h, 11, 0, 1, len(inner), sub=True), inner])
        f = ev.EventIOFile(h.file(data))
        o = next(next(f))
    h.eq(type(o).__name__, b.cls, 'class')
    attributes(h, o, b)
    got = o.parse(**b.kw)
    b.verify(got, 'parsed')
    return b, o, f


def attributes(h, o, b):
    """What the object itself reports."""
    for k, v in getattr(b, 'attrs', {}).items():
        h.eq(getattr(o, k), v, k)
    tel = b.tel
    if tel is not None:
        h.eq(o.telescope_id, tel, 'telescope_id')
    elif b.type in (71, 72, 75, 100):
        pass
    elif 'telescope_id' in (b.want if isinstance(b.want, dict) else ()):
        h.eq(o.telescope_id, b.want['telescope_id'], 'telescope_id')


def standard_cases(prop, tier):
    from vf.h import Case
    out = []
    for s in SPECS[prop]:
        for i, (nm, v) in enumerate(s.cases()):
            place = 'second' if i % 3 else 'inside'
            out.append(Case(nm, run, dict(spec_=s, variant=v, place=place), witness=3))
        for i, v in enumerate(LARGE.get(s.name, ())):
            out.append(Case('large-%s-%d' % (s.name, i), run, dict(spec_=s, variant=v, place='inside' if i % 2 else 'second', large=True), witness=1, seconds=200))
        if tier != 'quick' or s.name not in SLOW:
            for i, v in enumerate(HUGE.get(s.name, ())):
                out.append(Case('huge-%s-%d' % (s.name, i), run, dict(spec_=s, variant=v, place='second' if i % 2 else 'inside', large=True), witness=1, seconds=200 if tier == 'quick' else 800))
    return out
