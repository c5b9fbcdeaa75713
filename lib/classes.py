"""Which class an object of a type is delivered as (module below eventio, class name)"""
_IACT = {
    1200: "RunHeader", 1201: "TelescopeDefinition", 1202: "EventHeader", 1203: "ArrayOffsets", 1204: "TelescopeData",
    1205: "Photons", 1206: "CameraLayout", 1207: "TriggerTime", 1208: "PhotoElectrons", 1209: "EventEnd", 1210: "RunEnd",
    1211: "Longitudinal", 1212: "InputCard", 1213: "TelescopeArrayHead", 1214: "TelescopeArrayEnd",
    1216: "AtmosphericProfile",
}
_SIMTEL = {
    70: "History", 71: "HistoryCommandLine", 72: "HistoryConfig", 75: "HistoryMeta", 1215: "MCExtraParams",
    2000: "RunHeader", 2001: "MCRunHeader", 2002: "CameraSettings", 2003: "CameraOrganization", 2004: "PixelSettings",
    2005: "DisabledPixels", 2006: "CameraSoftwareSettings", 2007: "PointingCorrection", 2008: "DriveSettings",
    2009: "TriggerInformation", 2010: "ArrayEvent", 2011: "TelescopeEventHeader", 2012: "ADCSums", 2013: "ADCSamples",
    2014: "ImageParameters", 2015: "StereoReconstruction", 2016: "PixelTiming", 2017: "PixelCalibration", 2020: "MCShower",
    2021: "MCEvent", 2022: "CameraMonitoring", 2023: "LaserCalibration", 2024: "RunStatistics", 2025: "MCRunStatistics",
    2026: "MCPhotoelectronSum", 2027: "PixelList", 2028: "CalibrationEvent", 2029: "AuxiliaryDigitalTraces",
    2030: "AuxiliaryAnalogTraces", 2031: "FSPhot", 2032: "PixelTriggerTimes", 2033: "PixelMonitoring",
    2034: "CalibrationPhotoelectrons",
}
GENERIC = ("base", "EventIOObject")
CONTAINERS = (70, 1204, 2010, 2028, 2034)
NO_DECODER = (1206, 1207, 2017, 2024, 2025, 2031)


def telescope_of_type(t):
    """(base, tel) for the types of telescope events and tracking positions, else None"""
    for base in (2100, 2200):
        d = t - base
        if d >= 0 and d % 1000 < 100 and d // 1000 < 10:
            return base, d // 1000 * 100 + d % 1000
    return None


def expected_class(t):
    if t == 100:
        return ("histograms", "Histograms")
    if t in _IACT:
        return ("iact", _IACT[t])
    if t in _SIMTEL:
        return ("simtel", _SIMTEL[t])
    tt = telescope_of_type(t)
    if tt:
        return ("simtel", "TrackingPosition" if tt[0] == 2100 else "TelescopeEvent")
    return GENERIC


def known_types():
    return [100] + list(_IACT) + list(_SIMTEL)


def class_of(t):
    """the class object of the code under test"""
    import eventio
    from eventio.base import EventIOObject
    mod, name = expected_class(t)
    if mod == "base":
        return EventIOObject
    if mod == "histograms":
        return eventio.Histograms
    return getattr(getattr(eventio, mod), name, None) or getattr(getattr(eventio, mod).objects, name)


def class_matches(obj):
    mod, name = expected_class(obj.header.type)
    return type(obj).__name__ == name
