"""Payloads with hundreds of entries: counts and positions that need more than 8 (or 7, 14 or 15) bits.

Contents are different constants except for numbers spread over the payload, which are free."""

BOUNDS = ('large-*, huge-*: payloads of 100 to 600 and of 33 000 to 70 000 entries (some blocks only in the thorough tier); '
          'every 37th number and those around the 12th, 257th, 32 768th and 65 537th free, the others constants')


class Sparse:
    """Like h, but most numbers are constants."""

    constants = True

    def __init__(self, h, few=None):
        self._h = h
        self._n = 0
        self._few = few

    def __getattr__(self, k):
        return getattr(self._h, k)

    def int(self, bits, signed=False, name=None):
        self._n += 1
        i = self._n
        if i <= (self._few or 0) or i == 257 or not self._few and (i <= 12 or i % 37 == 5 and i < 2000 or 250 <= i <= 262 or 32766 <= i <= 32770 or 65534 <= i <= 65539):
            return self._h.int(bits, signed)
        n = i * 2654435761 % (1 << 32)
        v = n >> 32 - bits if bits <= 32 else n << bits - 32
        return v - (1 << bits) if signed and v >> bits - 1 else v

    def bytes(self, n):
        return self._h.join([self._h.le(self.int(8), 1) for _ in range(n)])

    def writer(self):
        from vf.h import W
        return W(self)


SUMS = ('adc_sums_full', 'adc_sums_bits', 'adc_sums_list', 'adc_samples_full', 'adc_samples_ranges', 'auxiliary_digital_traces')    # running sums: fewer free numbers


def adc_bits(n):
    return tuple((0x8421, 0, 0x1008)[k % 3] for k in range((n + 15) // 16))


LARGE = dict(
    telescope_definition=[dict(n=300), dict(n=70000)],
    array_offsets=[dict(version=1, n=300), dict(version=1, n=70000)],
    longitudinal=[dict(np_=9, nt=150), dict(np_=2, nt=300)],
    input_card=[dict(lens=(300, 2)), dict(lens=(1,) * 140)],
    atmospheric_profile=[dict(version=1, name=140, n=140, layers=5)],
    history_command_line=[dict(n=300)],
    history_config=[dict(n=300)],
    history_meta=[dict(lens=((2, 200), (140, 3))), dict(lens=tuple((i + 1, 1) for i in range(130)))],
    run_header=[dict(version=2, n=300, s=300)],
    camera_settings=[dict(version=3, n=300, curved=0, par=0, common=0), dict(version=6, n=300, curved=1, par=0, common=0), dict(version=5, n=300, curved=0, par=1, common=1)],
    camera_organization=[dict(version=1, n=140, g=2, s=300, lens=(1,) * 139 + (300,)), dict(version=2, n=300, g=1, s=3, lens=(1, 0, 300) + (0,) * 297)],
    pixel_settings=[dict(version=3, n=300, d=140, ref=(1, 140)), dict(version=2, n=2, d=300, ref=(140, 1))],
    disabled_pixels=[dict(a=300, c=140), dict(a=70000, c=66000)],
    camera_software_settings=[dict(n=300), dict(n=70000)],
    pointing_correction=[dict(n=300)],
    mc_shower=[dict(version=2, steps=(300,), ext=(140, 2)), dict(version=2, steps=(2,) * 20, ext=(1, 2)), dict(version=1, steps=(1,) * 130, ext=None)],
    mc_extra_params=[dict(ni=140, nf=300)],
    mc_photoelectron_sum=[dict(version=2, n=300)],
    trigger_information=[dict(version=3, n=140, d=300, masks=(3,) + (8,) * 138 + (5,), size=1)],
    telescope_event_header=[dict(version=1, sect=300, phys=140, tim=1), dict(version=4, sect=140, phys=300, tim=1)],
    adc_sums_full=[dict(n=300, g=2, sizes=(1, 2))],
    adc_sums_bits=[dict(n=600, g=2, bits=adc_bits(600))],
    adc_sums_list=[dict(n=600, g=2, pix=tuple((p, (0, 0x2000, 0, 0x6000)[p % 4]) for p in range(7, 600, 3))),
                   dict(n=8192, g=2, pix=((8191, 0), (4095, 0x2000), (4096, 0), (2048, 0x6000), (6000, 0x2000)))],
    adc_samples_full=[dict(n=140, g=2, m=3, sizes=(1, 2)), dict(n=2, g=1, m=300, sizes=(1, 2))],
    adc_samples_ranges=[dict(n=600, g=1, m=2, ranges=((0, 1, False), (63, 66, False), (300, 300, True), (500, 599, False)), mode=1),
                        dict(n=300, g=2, m=1, ranges=tuple((2 * i, 2 * i, True) for i in range(140)), mode=1)],
    pixel_timing=[dict(version=1, lt=1, n=300, g=1, nt=1, pix=tuple(range(0, 300, 2)), sums=1, sel=0, gran=0.25),
                  dict(version=2, lt=2, n=300, g=2, nt=1, pix=((1, 3), (60, 200), (299, 299)), sums=1, sel=1, gran=0.25),
                  dict(version=2, lt=2, n=600, g=1, nt=1, pix=tuple((i * 4, i * 4 + 1) for i in range(130)), sums=0, sel=0, gran=0.25),
                  dict(version=2, lt=2, n=40000, g=1, nt=1, pix=((32767, 32769), (39999, 39999)), sums=1, sel=1, gran=0.25), dict(version=2, lt=1, n=40000, g=1, nt=1, pix=(39999, 32768), sums=1, sel=1, gran=0.25)],
    pixel_list=[dict(version=0, n=300), dict(version=1, n=300)],
    pixel_trigger_times=[dict(n=300, s=2)],
    auxiliary_digital_traces=[dict(n=300, m=1), dict(n=2, m=200)],
    auxiliary_analog_traces=[dict(n=2, m=300)],
    image_parameters=[dict(version=5, flags=15, sat=1, hot=300), dict(version=6, flags=4, sat=0, hot=140)],
    camera_monitoring=[dict(version=0, what=127, dims=(140, 300, 140, 2)), dict(version=1, what=127, dims=(300, 140, 140, 1))],
    laser_calibration=[dict(version=3, n=300, g=2), dict(version=0, n=40000, g=1), dict(version=1, n=65535, g=1)],
    pixel_monitoring=[dict(free=0, fixed=0xff, n=300, g=2)],
    photo_electrons=[dict(version=1, n=600, pix=tuple((p, 1) for p in range(0, 600, 2)), amp=0, photons=None),
                     dict(version=3, n=600, pix=((550, 300), (3, 1), (255, 2)), amp=1, photons=tuple((p,) for p in range(0, 600, 2))),
                     dict(version=3, n=40000, pix=((39000, 1), (33000, 1)), amp=0, photons=None),
 dict(version=3, n=10, pix=((3, 70000), (4,2)), amp=0, photons=None)],
    photons=[dict(compact=0, kinds='p' * 70000), dict(compact=0, kinds='p' * 300), dict(compact=1, kinds='p' * 150 + 'e' + 'p' * 149)],
    histograms=[dict(version=2, hists=(('F', (1,) * 300, 300, 0, 1), ('I', (2,), 20, 15, 1))), dict(version=1, hists=tuple(('R', (), 1, 0, 1) for _ in range(130)))],
)

# counts of more than 16 bits
HUGE = dict(
    longitudinal=[dict(np_=300, nt=230)],
    atmospheric_profile=[dict(version=1, name=2, n=17000, layers=5)],
    history_meta=[dict(lens=((2, 66000), (3, 2)))],
    camera_settings=[dict(version=6, n=66000, curved=1, par=1, common=1)],
    camera_organization=[dict(version=2, n=3, g=1, s=2, lens=(1, 66000, 2))],
    pixel_settings=[dict(version=3, n=66000, d=2, ref=(1, 2)), dict(version=2, n=2, d=66000, ref=(1, 1)), dict(version=2, n=2, d=1, ref=(1, 66000))],
    pointing_correction=[dict(n=66000)],
    mc_shower=[dict(version=2, steps=(66000, 2), ext=(1, 2))],
    mc_extra_params=[dict(ni=66000, nf=2), dict(ni=2, nf=66000)],
    mc_photoelectron_sum=[dict(version=2, n=66000)],
    telescope_event_header=[dict(version=4, sect=66000, phys=2, tim=1)],
    pixel_list=[dict(version=1, n=66000)],
    pixel_trigger_times=[dict(n=66000, s=2)],
    auxiliary_digital_traces=[dict(n=66000, m=1), dict(n=1, m=66000)],
    auxiliary_analog_traces=[dict(n=66000, m=1), dict(n=1, m=66000)],
    image_parameters=[dict(version=6, flags=4, sat=0, hot=66000)],
    pixel_monitoring=[dict(free=0, fixed=0xff, n=66000, g=2)],
    pixel_timing=[dict(version=2, lt=2, n=66000, g=1, nt=1, pix=((65534, 65537), (2, 3)), sums=1, sel=1, gran=0.25)],
    adc_sums_list=[dict(n=66000, g=2, pix=((8191, 0), (4, 0)))],
    adc_samples_ranges=[dict(n=66000, g=1, m=2, ranges=((65534, 65537, False), (3, 3, True)), mode=1)],
)
SLOW = ('telescope_event_header', 'camera_organization', 'auxiliary_digital_traces', 'image_parameters', 'pixel_trigger_times')    # thorough tier only
