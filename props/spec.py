"""The object types of the eventio format (written from the format, not from the code)."""
S = 'eventio.simtel.objects'
I = 'eventio.iact.objects'
REGISTERED = {
    70: (S, 'History'), 71: (S, 'HistoryCommandLine'), 72: (S, 'HistoryConfig'), 75: (S, 'HistoryMeta'),
    100: ('eventio.histograms', 'Histograms'),
    1200: (I, 'RunHeader'), 1201: (I, 'TelescopeDefinition'), 1202: (I, 'EventHeader'), 1203: (I, 'ArrayOffsets'),
    1204: (I, 'TelescopeData'), 1205: (I, 'Photons'), 1206: (I, 'CameraLayout'), 1207: (I, 'TriggerTime'),
    1208: (I, 'PhotoElectrons'), 1209: (I, 'EventEnd'), 1210: (I, 'RunEnd'), 1211: (I, 'Longitudinal'), 1212: (I, 'InputCard'),
    1213: (I, 'TelescopeArrayHead'), 1214: (I, 'TelescopeArrayEnd'), 1215: (S, 'MCExtraParams'), 1216: (I, 'AtmosphericProfile'),
    2000: (S, 'RunHeader'), 2001: (S, 'MCRunHeader'), 2002: (S, 'CameraSettings'), 2003: (S, 'CameraOrganization'),
    2004: (S, 'PixelSettings'), 2005: (S, 'DisabledPixels'), 2006: (S, 'CameraSoftwareSettings'), 2007: (S, 'PointingCorrection'),
    2008: (S, 'DriveSettings'), 2009: (S, 'TriggerInformation'), 2010: (S, 'ArrayEvent'), 2011: (S, 'TelescopeEventHeader'),
    2012: (S, 'ADCSums'), 2013: (S, 'ADCSamples'), 2014: (S, 'ImageParameters'), 2015: (S, 'StereoReconstruction'),
    2016: (S, 'PixelTiming'), 2017: (S, 'PixelCalibration'), 2020: (S, 'MCShower'), 2021: (S, 'MCEvent'),
    2022: (S, 'CameraMonitoring'), 2023: (S, 'LaserCalibration'), 2024: (S, 'RunStatistics'), 2025: (S, 'MCRunStatistics'),
    2026: (S, 'MCPhotoelectronSum'), 2027: (S, 'PixelList'), 2028: (S, 'CalibrationEvent'), 2029: (S, 'AuxiliaryDigitalTraces'),
    2030: (S, 'AuxiliaryAnalogTraces'), 2031: (S, 'FSPhot'), 2032: (S, 'PixelTriggerTimes'), 2033: (S, 'PixelMonitoring'),
    2034: (S, 'CalibrationPhotoelectrons'),
}
for _t in range(1000):
    REGISTERED[2200 + _t % 100 + 1000 * (_t // 100)] = (S, 'TelescopeEvent')
    REGISTERED[2100 + _t % 100 + 1000 * (_t // 100)] = (S, 'TrackingPosition')


def class_of(t, h=None):
    return REGISTERED[t][1] if t in REGISTERED else 'EventIOObject'


def tel_of_type(t, base):
    """Telescope id encoded in an object type."""
    return 100 * ((t - base) // 1000) + (t - base) % 1000


def tracking_id(t):
    """An object id for a tracking position of type t (anything for other types)."""
    tel = tel_of_type(t, 2100)
    return (tel & 0xff) | ((tel & 0x3f00) << 16)
