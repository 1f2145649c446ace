"""sim_telarray files: build them object by object and know which events they hold.

Every operation of a Sim appends one top-level object and tells the reference
assembler (Ref) what the object means; neither looks at the code under test."""
from .blocks import B, SPECS
from .common import header, open_file

BY_NAME = {s.name: s for v in SPECS.values() for s in v}
DESCRIPTIONS = ['camera_settings', 'camera_organization', 'pixel_settings', 'disabled_pixels', 'camera_software_settings', 'drive_settings', 'pointing_correction']
SMALL = dict(
    camera_settings=dict(version=2, n=1, curved=0, par=0, common=0), camera_organization=dict(version=1, n=1, g=1, s=0, lens=(0,)),
    pixel_settings=dict(version=0, n=1, d=0, ref=(0, 0)), disabled_pixels=dict(a=1, c=0), camera_software_settings=dict(n=0), drive_settings={},
    pointing_correction=dict(n=1), mc_shower=dict(version=0, steps=(), ext=None), mc_event=dict(version=1), run_header=dict(version=2, n=1, s=0),
    mc_photoelectron_sum=dict(version=1, n=1), camera_monitoring=dict(version=1, what=1, dims=(1, 1, 1, 1)), laser_calibration=dict(version=0, n=1, g=1),
    pixel_monitoring=dict(free=0, fixed=1, n=1, g=1), telescope_event_header=dict(version=3, sect=None, phys=None, tim=0),
    adc_sums_full=dict(n=1, g=1, sizes=(1,)), adc_samples_full=dict(n=1, g=1, m=2, sizes=(1,)), pixel_list=dict(version=1, n=1),
    pixel_trigger_times=dict(n=1, s=1), auxiliary_digital_traces=dict(n=1, m=2), auxiliary_analog_traces=dict(n=1, m=1),
    image_parameters=dict(version=6, flags=0, sat=0, hot=0), stereo_reconstruction=dict(fixed=1, free=0),
    pixel_timing=dict(version=2, lt=1, n=1, g=1, nt=1, pix=(0,), sums=1, sel=0, gran=0.25), photo_electrons=dict(version=2, n=2, pix=((1, 1),), amp=0, photons=None),
    photons=dict(compact=0, kinds='p'), observation_level_particles=dict(compact=0, n=1), input_card=dict(lens=(2,)),
    atmospheric_profile=dict(version=0, name=1, n=1, layers=0), mc_run_header={}, history_command_line=dict(n=1), history_config=dict(n=1), history_meta=dict(lens=((1, 1),)),
    histograms=dict(version=2, hists=(('I', (1,), 1, 0, 0),)))


class Fixed:
    """Like h, but contents are different constants instead of free ones (h.free makes a free number)."""
    constants = True

    def __init__(self, h):
        self._h = h
        self._n = 0

    def __getattr__(self, k):
        return getattr(self._h, k)

    def int(self, bits, signed=False, name=None):
        self._n += 1
        n = self._n * 2654435761 % (1 << 32) | 1
        return n >> 33 - bits if bits <= 32 else n << bits - 33

    def free(self, bits, signed=False):
        return self._h.int(bits, signed)

    def byte(self):
        return self.int(8)

    def bytes(self, n):
        return bytes(self.int(8) for _ in range(n))

    def writer(self):
        from vf.h import W
        return W(self)

    def assume(self, c):
        assert c is not False, 'constants do not fit'
        self._h.assume(c)


def blk(h, name, id=None, tel=None, **kw):
    v = dict(SMALL.get(name, {}))
    v.update(kw)
    if name == 'tracking_position':
        v['tel'], tel = tel, None
    return B(h, BY_NAME[name], v, id=id, tel=tel)


def container(h, type_, parts, id_=0, version=0, top=False):
    p = h.join(parts)
    return h.join([header(h, type_, version, id_, len(p), sub=True, top=top), p])


def unknown(h, type_, top=False, id_=None, size=2):
    """An object of a type without a meaning here, whatever its id, version and contents."""
    return h.join([header(h, type_, h.int(12), h.int(32, True) if id_ is None else id_, size, user=h.bool(), top=top), h.bytes(size)])


class Ref:
    """Which events a sequence of objects makes."""

    def __init__(self, skip_non_triggered=False, skip_calibration=False, allowed=None):
        self.snt, self.sc, self.allowed = skip_non_triggered, skip_calibration, allowed
        self.out = []
        self.cur = None
        self.shower = None
        self.particles = None
        self.calib_pe = None
        self.moni = dict(camera={}, laser={}, pixel={})
        self.attrs = dict(history=[], mc_run_headers=[], corsika_inputcards=[], atmospheric_profiles=[], telescope_meta={}, global_meta={},
                          telescope_descriptions={}, histograms=None)
        self.done = False

    def flush(self):
        e, self.cur = self.cur, None
        if e is None:
            return
        if e['type'] == 'data' and self.snt and not e.get('telescope_events'):
            return
        if e['type'] == 'calibration' and self.sc:
            return
        self.out.append(e)

    def end(self):
        self.flush()
        self.done = True

    def monitoring(self, kind, tel, values):
        self.moni[kind].setdefault(tel, {}).update(values)

    def array(self, ev, a):
        """Adds the content of an array event."""
        tels = {t: e for t, e in a['telescope_events'].items() if self.allowed is None or t in self.allowed}
        pos = {t: e for t, e in a['tracking_positions'].items() if self.allowed is None or t in self.allowed}
        ev.update(event_id=a['event_id'], trigger_information=a['trigger_information'])
        # (version 0 does not say which telescopes have data)
        if self.allowed is not None and a['with_data'] is not None and not (set(a['with_data']) & set(self.allowed)):
            # nothing of the event is kept
            tels, pos = {}, {}
        elif 'stereo_reconstruction' in a:
            ev['stereo_reconstruction'] = a['stereo_reconstruction']
        ev['telescope_events'] = tels
        ev['tracking_positions'] = pos
        for key, kind in (('camera_monitorings', 'camera'), ('laser_calibrations', 'laser'), ('pixel_monitorings', 'pixel')):
            ev[key] = {t: dict(self.moni[kind].get(t, {})) for t in tels}
        return ev


class Sim:
    salt = 0                     # other constants than those of another file

    def __init__(self, h, fixed=False):
        self.real = h
        self.h = h = Fixed(h) if fixed else h
        # the ids of events are free unless nothing is
        self.free = h.int if fixed == 'all' or not fixed else h.free
        self.parts = []          # (bytes, what it does to the reference, whether it is read)
        self.n_head = 0

    # ---- building blocks
    def add(self, data, fn=None, read=True):
        self.parts.append((data, fn or (lambda r: None), read))
        if isinstance(self.h, Fixed):
            self.h._n = 100000 * len(self.parts) + self.salt

    def top(self, name, fn=None, **kw):
        b = blk(self.h, name, **kw)
        self.add(b.emit(), fn and (lambda r: fn(r, b.want)))
        return b

    def run_header(self, n=1):
        def f(r, v):
            r.attrs['header'] = v
            r.attrs['n_telescopes'] = n
        self.top('run_header', f, n=n)

    def description(self, name, tel):
        def f(r, v):
            r.attrs['telescope_descriptions'].setdefault(tel, {})[name] = v
        self.top(name, f, id=tel)

    def head(self, tels=(1,)):
        """The shortest header part."""
        self.run_header(len(tels))
        for t in tels:
            for d in DESCRIPTIONS:
                self.description(d, t)
        self.n_head = len(self.parts)

    def history(self, kinds='lc'):
        h = self.h
        bs = [blk(h, 'history_command_line' if k == 'l' else 'history_config') for k in kinds]
        self.add(container(h, 70, [b.emit(top=False) for b in bs], top=True), lambda r: r.attrs['history'].extend(b.want for b in bs))

    def meta(self, tel):
        def f(r, v):
            if tel == -1:
                r.attrs['global_meta'] = v
            else:
                r.attrs['telescope_meta'][tel] = v
        self.top('history_meta', f, id=tel)

    def listed(self, name, attr):
        self.top(name, lambda r, v: r.attrs[attr].append(v))

    def mc_run(self):
        self.listed('mc_run_header', 'mc_run_headers')

    def card(self):
        self.listed('input_card', 'corsika_inputcards')

    def profile(self):
        self.listed('atmospheric_profile', 'atmospheric_profiles')

    def histograms(self):
        def f(r, v):
            r.attrs['histograms'] = v
            r.end()
        self.top('histograms', f)

    def unknown(self, type_=7, id_=None, size=2):
        self.add(unknown(self.real, type_, True, id_, size), read=False)

    def moni(self, tel, what=1):
        self.top('camera_monitoring', lambda r, v: r.monitoring('camera', tel, v), tel=tel, what=what)

    def laser(self, tel, version=0):
        self.top('laser_calibration', lambda r, v: r.monitoring('laser', tel, v), id=tel, version=version)

    def pixmon(self, tel, fixed=1):
        self.top('pixel_monitoring', lambda r, v: r.monitoring('pixel', tel, v), id=tel, fixed=fixed)

    # ---- showers and events
    def shower(self):
        def f(r, v):
            r.shower, r.particles = v, None
        self.top('mc_shower', f)

    def particles(self, **kw):
        def f(r, v):
            r.particles = v
        self.top('observation_level_particles', f, **kw)

    def event(self):
        h = self.h
        i = self.free(32, True)

        def f(r, v):
            r.flush()
            r.cur = dict(type='data', event_id=i, mc_shower=r.shower, mc_event=v)
            if r.particles is not None:
                r.cur['observation_level_particles'] = r.particles
        self.top('mc_event', f, id=i)

    def tel_data(self, items, top=False, array=0):
        """TelescopeData with photons ('p'), photons with emitters ('e') and photo-electrons ('1') of telescopes: list of (kind, tel)."""
        h = self.h
        out, parts = {}, []
        for k, t in items:
            if k == '?':
                parts.append(unknown(self.real, t))
                continue
            if k == '1':
                b = blk(h, 'photo_electrons', id=1000 * array + t)
                out.setdefault('photoelectrons', {})[t] = b.want
            else:
                b = blk(h, 'photons', id=1000 * array + t, kinds={'p': 'p', 'e': 'pe', 'E': 'e', '0': ''}[k])
                p, e = b.want
                out.setdefault('photons', {})[t] = p
                if e is not None:
                    out.setdefault('emitter', {})[t] = e
            parts.append(b.emit(top=False))
        return container(h, 1204, parts, id_=array, top=top), out

    def data(self, items=(('p', 1),), array=0):
        d, out = self.tel_data(items, top=True, array=array)
        self.add(d, lambda r: r.cur.update(out))

    def pesum(self):
        self.top('mc_photoelectron_sum', lambda r, v: r.cur.__setitem__('photoelectron_sums', v))

    def telescope_event(self, tel, subs=()):
        """(bytes, meaning) of a telescope event; subs: names of objects after the header."""
        h = self.h
        b = blk(h, 'telescope_event_header', id=tel)
        parts = [b.emit(top=False)]
        want = dict(header=b.want, pixel_lists={})
        for s in subs:
            if s.startswith('list'):
                code = int(s[4:])
                b = blk(h, 'pixel_list', id=code * 1000000 + tel)
                want['pixel_lists'][code] = b.want
            elif s.startswith('digital') or s.startswith('analog'):
                k = 'digital' if s[0] == 'd' else 'analog'
                i = int(s[len(k):])
                b = blk(h, 'auxiliary_%s_traces' % k, id=i)
                want.setdefault('aux_traces', {})[i] = b.want
            elif s.startswith('unknown'):
                parts.append(unknown(self.real, int(s[7:] or 7)))
                continue
            else:
                key, name = dict(samples=('adc_samples', 'adc_samples_full'), sums=('adc_sums', 'adc_sums_full'), timing=('pixel_timing', 'pixel_timing'),
                                 image=('image_parameters', 'image_parameters'), times=('pixel_trigger_times', 'pixel_trigger_times'))[s]
                b = blk(h, name, id=tel if s in ('times', 'timing') else None, tel=tel if s in ('samples', 'sums', 'image') else None)
                want[key] = b.want
            parts.append(b.emit(top=False))
        return container(h, 2200 + tel % 100 + 1000 * (tel // 100), parts, id_=self.real.int(32, True)), want

    def array_event(self, tels, track=None, subs=(), stereo=False, trig_zero=False, top=True, order='te', trigger=2):
        """An array event: telescopes with data, with tracking positions (default: the same), further objects."""
        h = self.h
        track = tels if track is None else track
        i = self.free(32, True)
        ti = 0 if trig_zero else self.free(32, True)
        if not trig_zero:
            h.assume(ti != 0)
        b = blk(h, 'trigger_information', id=ti, version=trigger, n=0, d=tuple(tels), masks=(), size=1)
        parts = [b.emit(top=False)]
        te, tp = {}, {}
        if not isinstance(subs, dict):
            subs = {t: subs for t in tels}
        groups = {'t': [], 'e': []}
        for t in tels:
            d, te[t] = self.telescope_event(t, subs.get(t, ()))
            groups['t'].append(d)
        for t in track:
            c = blk(h, 'tracking_position', tel=t, raw=1, cor=0)
            h_ = header(h, c.type, 0, c.id, len(c.payload), top=False)
            groups['e'].append(h.join([h_, c.payload]))
            tp[t] = c.want
        if order == 'unknown':
            for k in 'te':
                parts += [unknown(self.real, 7)] + groups[k]
        elif order == 'mixed':
            for k in range(max(len(groups['t']), len(groups['e']))):
                parts += groups['e'][k:k + 1] + groups['t'][k:k + 1]
        else:
            for k in order:
                parts += groups[k]
        a = dict(event_id=i if trig_zero else ti, trigger_information=b.want, telescope_events=te, tracking_positions=tp, with_data=tuple(tels) if trigger else None, id=i)
        if stereo:
            c = blk(h, 'stereo_reconstruction')
            parts.append(c.emit(top=False))
            a['stereo_reconstruction'] = c.want
        return container(h, 2010, parts, id_=i, top=top), a

    def array(self, tels=(1,), **kw):
        d, a = self.array_event(tels, **kw)
        self.add(d, lambda r: r.array(r.cur, a))

    def bare_calibration(self, tels=(1,), **kw):
        """An array event before the first shower: an unpacked calibration event."""
        d, a = self.array_event(tels, **kw)

        def f(r):
            r.flush()
            r.cur = r.array(dict(type='calibration'), a)
        self.add(d, f)

    def calibration(self, tels=(1,), kind=None, **kw):
        h = self.h
        d, a = self.array_event(tels, top=False, **kw)
        t = self.free(32, True) if kind is None else kind

        def f(r):
            r.flush()
            r.cur = r.array(dict(type='calibration', calibration_type=t), a)
            # does not overlap with the ids of air shower events
            r.cur['event_id'] = -a['id']
            if r.calib_pe is not None:
                r.cur['photoelectrons'], r.calib_pe = r.calib_pe, None
        self.add(container(h, 2028, [d], id_=t, top=True), f)

    def calib_pe(self, tels=(1,), items=None):
        h = self.h
        d, out = self.tel_data([('1', t) for t in tels] if items is None else items)

        def f(r):
            r.calib_pe = out.get('photoelectrons', {})
        self.add(container(h, 2034, [d], id_=self.real.int(32, True), top=True), f)

    def calib_pe_unknown(self):
        """Calibration photo-electrons without the expected container: ignored."""
        h = self.h
        d = unknown(self.real, 7)
        self.add(container(h, 2034, [d], id_=self.real.int(32, True), top=True), lambda r: None)

    # ---- comparing
    def bytes(self):
        return self.h.join([p[0] for p in self.parts])

    def ends(self):
        out, n = [], 0
        for p in self.parts:
            n += len(p[0])
            out.append(n)
        return out

    def reference(self, upto=None, end=True, **options):
        r = Ref(**options)
        for _, f, _ in self.parts[:upto]:
            if r.done:
                break
            f(r)
        if end and not r.done:
            r.end()
        return r


def read_all(h, f, limit):
    """Every event (read to the end before any is compared) and how the iteration ended."""
    from .common import take
    return take(f, limit)


def check_attributes(h, f, r, skip=()):
    for k, v in r.attrs.items():
        if k in skip:
            continue
        if k == 'history':
            h.eq(len(f.history), len(v), 'history entries')
            h.eq(list(f.history), v, 'history')
            continue
        h.eq(getattr(f, k), v, k)


def check_monitoring(h, f, r):
    for k, a in (('camera', 'camera_monitorings'), ('laser', 'laser_calibrations'), ('pixel', 'pixel_monitorings')):
        for t, v in r.moni[k].items():
            h.eq(getattr(f, a)[t], v, '%s of telescope %d' % (a, t))


def check_events(h, got, want):
    h.eq(len(got), len(want), 'number of events')
    for i, (g, w) in enumerate(zip(got, want)):
        h.eq(g, w, 'event %d' % i)
