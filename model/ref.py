"""Reference model of the library's observable behaviour.

Written as plain data plus a handful of small functions, independent of the
implementation: the line gate, the record-type lookup, the continuation and
application-type dispatch, the column layouts (layouts.txt) and the meaning of
every field (chapter 5 sections).  Every check compares the implementation in
/repo with this model on every member of a bounded, fully enumerated space.

Nothing here imports the library.
"""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

DIGITS = '0123456789'
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
CONT_NUMBERS = DIGITS + UPPER
PRINTABLE = ''.join(chr(i) for i in range(32, 127))


# --------------------------------------------------------------------------
# layouts


class FieldSpec:
  __slots__ = ('name', 'cols', 'sec', 'lo', 'hi', 'width')

  def __init__(self, name, cols, sec):
    self.name, self.cols, self.sec = name, cols, sec
    self.width = len(cols)
    if cols == tuple(range(cols[0], cols[-1] + 1)):
      self.lo, self.hi = cols[0], cols[-1] + 1
    else:
      self.lo = self.hi = None

  def value(self, line):
    if self.lo is not None:
      return line[self.lo:self.hi]
    return ''.join([line[c] for c in self.cols])

  def __repr__(self):
    return '%s@%s' % (self.name, '+'.join(str(c + 1) for c in self.cols))


def _load():
  out, cur = {}, None
  with open(os.path.join(HERE, 'layouts.txt')) as f:
    for line in f:
      line = line.rstrip('\n')
      if not line or line.startswith('#'):
        continue
      if line.startswith('['):
        cur = out.setdefault(line[1:-1], [])
        continue
      cols, sec, name = re.match(r'(\S+)\s+5\.(\d+)\s+(.*)$', line).groups()
      if '-' in cols:
        a, b = cols.split('-')
        cs = tuple(range(int(a) - 1, int(b)))
      else:
        cs = tuple(int(c) - 1 for c in cols.split('+'))
      cur.append(FieldSpec(name, cs, int(sec)))
  return out


LAYOUTS = _load()


# --------------------------------------------------------------------------
# record types.  Columns are 1-based here, as in the specification.


class RecordType:
  def __init__(self, cont, app, primary, conts, default=None):
    self.cont = None if cont is None else cont - 1
    self.app = None if app is None else app - 1
    self.app_width = 2 if isinstance(primary, dict) else 1
    self.primary = primary          # layout, or {restriction type: layout}
    self.conts = conts              # {application type: layout}
    self.default = default          # layout of any other application type

  def application(self, line):
    return line[self.app:self.app + self.app_width]


T = RecordType
TYPES = {
  'AS': T(None, None, 'grid-mora.primary', {}),
  'D ': T(22, 23, 'vhf.primary', {'A': 'vhf.cont-A', 'L': 'vhf.cont-L', 'P': 'vhf.cont-P', 'S': 'vhf.cont-S'}),
  'DB': T(22, 23, 'ndb.primary', {'A': 'ndb.cont-A', 'P': 'ndb.cont-P', 'Q': 'ndb.cont-Q', 'S': 'ndb.cont-S'}),
  'EA': T(22, 23, 'enroute-waypoint.primary', {'A': 'enroute-waypoint.cont-A', 'P': 'enroute-waypoint.cont-P', 'Q': 'enroute-waypoint.cont-Q'}),
  'EM': T(22, 23, 'airways-marker.primary', {'A': 'airways-marker.cont-A'}),
  'EP': T(39, 40, 'holding.primary', {'A': 'holding.cont-A'}),
  'ER': T(39, 40, 'airway.primary', {'A': 'airway.cont-A', 'P': 'airway.cont-P', 'Q': 'airway.cont-Q'}),
  'ET': T(39, 40, 'preferred-route.primary', {'A': 'preferred-route.cont-A', 'T': 'preferred-route.cont-T'}),
  'EU': T(18, 16, {'AE': 'airway-restriction.primary-AE', 'TC': 'airway-restriction.primary-TC', 'SC': 'airway-restriction.primary-SC', 'NR': 'airway-restriction.primary-NR'}, {'AE': 'airway-restriction.cont-AE', 'TC': 'airway-restriction.cont-TC', 'NR': 'airway-restriction.cont-NR'}),
  'EV': T(56, 57, 'enroute-comm.primary', {' ': 'enroute-comm.cont-blank', 'T': 'enroute-comm.cont-T'}),
  'HA': T(22, 23, 'heliport.primary', {'A': 'heliport.cont-A', 'P': 'heliport.cont-P', 'Q': 'heliport.cont-Q'}),
  'HC': T(22, 23, 'heliport-waypoint.primary', {'A': 'heliport-waypoint.cont-A', 'P': 'heliport-waypoint.cont-P'}, default='heliport-waypoint.cont-other'),
  'HD': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'HE': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'HF': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'HK': T(30, 31, 'heliport-taa.primary', {'A': 'heliport-taa.cont-A'}),
  'HS': T(39, 40, 'heliport-msa.primary', {'A': 'heliport-msa.cont-A'}),
  'HV': T(26, 27, 'heliport-comm.primary', {'A': 'heliport-comm.cont-A', 'T': 'heliport-comm.cont-T'}),
  'PA': T(22, 23, 'airport.primary', {'A': 'airport.cont-A', 'P': 'airport.cont-P', 'Q': 'airport.cont-Q'}),
  'PB': T(22, 23, 'gate.primary', {'A': 'gate.cont-A'}),
  'PC': T(22, 23, 'terminal-waypoint.primary', {'A': 'terminal-waypoint.cont-A', 'P': 'terminal-waypoint.cont-P', 'Q': 'terminal-waypoint.cont-Q'}),
  'PD': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'PE': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'PF': T(39, 40, 'procedure.primary', {'E': 'procedure.cont-E', 'P': 'procedure.cont-P', 'W': 'procedure.cont-W'}),
  'PG': T(22, 23, 'runway.primary', {'A': 'runway.cont-A', 'S': 'runway.cont-S'}),
  'PI': T(22, 23, 'localizer.primary', {'A': 'localizer.cont-A', 'S': 'localizer.cont-S'}),
  'PK': T(30, 31, 'taa.primary', {'A': 'taa.cont-A'}),
  'PL': T(22, 23, 'mls.primary', {'A': 'mls.cont-A'}),
  'PM': T(22, 23, 'marker.primary', {'A': 'marker.cont-A'}),
  'PN': T(22, 23, 'ndb.primary', {'A': 'ndb.cont-A', 'P': 'ndb.cont-P', 'Q': 'ndb.cont-Q', 'S': 'ndb.cont-S'}),
  'PP': T(27, 28, 'path-point.primary', {'E': 'path-point.cont-E'}),
  'PR': T(70, 71, 'flight-planning.primary', {'A': 'flight-planning.cont-A', 'T': 'flight-planning.cont-T'}),
  'PS': T(39, 40, 'msa.primary', {'A': 'msa.cont-A'}),
  'PT': T(22, 23, 'gls.primary', {'A': 'gls.cont-A'}),
  'PV': T(26, 27, 'airport-comm.primary', {'N': 'airport-comm.cont-N'}),
  'R ': T(None, None, 'company-route.primary', {}),
  'RA': T(None, None, 'alternate.primary', {}),
  'TC': T(None, None, 'cruising-table.primary', {}),
  'TG': T(39, 40, 'geo-reference.primary', {'A': 'geo-reference.cont-A'}),
  'UC': T(25, 26, 'controlled-airspace.primary', {'A': 'controlled-airspace.cont-A'}),
  'UF': T(20, 21, 'fir-uir.primary', {'A': 'fir-uir.cont-A'}),
  'UR': T(25, 26, 'restrictive-airspace.primary', {'C': 'restrictive-airspace.cont-C', 'P': 'restrictive-airspace.cont-P', 'T': 'restrictive-airspace.cont-T'}),
}


def gate(line):
  """The stripped line if it is well-formed, else None."""
  s = line.strip()
  if len(s) != 132 or s[0] not in 'ST':
    return None
  for c in s[123:]:
    if c not in DIGITS:
      return None
  return s


def route(s):
  a = s[4:6]
  if a in TYPES:
    return a
  b = s[4] + s[12]
  if b in TYPES:
    return b
  return None


class Verdict:
  __slots__ = ('ok', 'why', 'raw', 'ident', 'layout', 'primary', 'has_cont')

  def __init__(self, ok, why='', raw='', ident='', layout=None, primary=False, has_cont=False):
    self.ok, self.why, self.raw, self.ident = ok, why, raw, ident
    self.layout, self.primary, self.has_cont = layout, primary, has_cont

  @property
  def fields(self):
    return LAYOUTS[self.layout] if self.ok else []

  def values(self):
    return [(f.name, f.value(self.raw)) for f in self.fields]


def classify(line):
  """What reading this line must do."""
  s = gate(line)
  if s is None:
    return Verdict(False, 'gate')
  ident = route(s)
  if ident is None:
    return Verdict(False, 'type')
  t = TYPES[ident]
  if t.cont is None:
    return Verdict(True, '', s, ident, t.primary, True, False)
  n = s[t.cont]
  if n not in CONT_NUMBERS:
    return Verdict(False, 'continuation')
  if n in '01':
    lay = t.primary
    if isinstance(lay, dict):
      lay = lay.get(t.application(s))
      if lay is None:
        return Verdict(False, 'application')
    return Verdict(True, '', s, ident, lay, True, n == '1')
  lay = t.conts.get(t.application(s), t.default)
  if lay is None:
    return Verdict(False, 'application')
  return Verdict(True, '', s, ident, lay, False, False)


# --------------------------------------------------------------------------
# meaning of the fields (chapter 5).  decode() gives ('ok', text) or ('err',).

AREA = {
  'USA': 'United States of America', 'AFR': 'Africa', 'CAN': 'Canada', 'EEU': 'Eastern Europe and Asia',
  'EUR': 'Europe', 'LAM': 'Latin America', 'MES': 'Middle East', 'PAC': 'Pacific', 'SAM': 'Southern America',
  'SPA': 'South Pacific',
}

SECTION = {
  'AS': 'Grid MORA', 'D ': 'VHF Navaid', 'DB': 'NDB Navaid', 'EA': 'Waypoint', 'EM': 'Airways Marker',
  'EP': 'Holding Pattern', 'ER': 'Airways and Route', 'ET': 'Preferred Route', 'EU': 'Airway Restrictions',
  'EV': 'Enroute Communication', 'HA': 'Heliport Pads', 'HC': 'Heliport Terminal Waypoint', 'HD': 'Heliport SID',
  'HE': 'Heliport STAR', 'HF': 'Heliport Approach Procedure', 'HK': 'Heliport TAA', 'HS': 'Heliport MSA',
  'HV': 'Heliport Communication', 'PA': 'Airport Reference Point', 'PB': 'Airport Gates',
  'PC': 'Airport Terminal Waypoint', 'PD': 'Airport SID', 'PE': 'Airport STAR', 'PF': 'Airport Approach Procedure',
  'PG': 'Airport Runway', 'PI': 'Airport Localizer/Glideslope', 'PK': 'Airport TAA', 'PL': 'Airport MLS',
  'PM': 'Airport Localizer Marker', 'PN': 'Airport Terminal', 'PP': 'Airport Path',
  'PR': 'Airport Flt Planning ARR/DEP', 'PS': 'Airport MSA', 'PT': 'Airport GLS Station',
  'PV': 'Airport Communication', 'R ': 'Company Route', 'RA': 'Alternate Record', 'TC': 'Cruising Table',
  'TG': 'Geographical Reference', 'TN': 'RNAV Name Table', 'UC': 'Controller Airspace', 'UF': 'Airspace FIR/UIR',
  'UR': 'Restrictive Airspace',
}

_SID = {
  '0': 'Engine Out SID', '1': 'SID Runway Transition', '2': 'SID or SID Common Route', '3': 'SID Enroute Transition',
  '4': 'RNAV SID Runway Transition', '5': 'RNAV SID or SID Common Route', '6': 'RNAV SID Enroute Transition',
  'F': 'FMS SID Runway Transition', 'M': 'FMS SID or SID Common Route', 'S': 'FMS SID Enroute Transition',
  'R': 'RNP SID Runway Transition', 'N': 'RNP SID or SID Common Route', 'P': 'RNP SID Enroute Transition',
  'T': 'Vector SID Runway Transition', 'V': 'Vector SID Enroute Transition',
}
_STAR = {
  '1': 'STAR Enroute Transition', '2': 'STAR or STAR Common Route', '3': 'STAR Runway Transition',
  '4': 'RNAV STAR Enroute Transition', '5': 'RNAV STAR or STAR Common Route', '6': 'RNAV STAR Runway Transition',
  '7': 'Profile Descent Enroute Transition', '8': 'Profile Descent Common Route',
  '9': 'Profile Descent Runway Transition', 'F': 'FMS STAR Enroute Transition', 'M': 'FMS STAR or STAR Common Route',
  'S': 'FMS STAR Runway Transition', 'R': 'RNP STAR Enroute Transition', 'N': 'RNP STAR or STAR Common Route',
  'P': 'RNP STAR Runway Transition',
}
_APPROACH = {
  'A': 'Approach Transition', 'B': 'Localizer/Backcourse Approach', 'D': 'VORDME Approach',
  'F': 'Flight Management System (FMS) Approach', 'G': 'Instrument Guidance System (IGS) Approach',
  'H': 'Area Navigation (RNAV) Approach with Required Navigation Performance (RNP) Approach',
  'I': 'Instrument Landing System (ILS) Approach', 'J': 'GNSS Landing System (GLS) Approach',
  'L': 'Localizer Only (LOC) Approach', 'M': 'Microwave Landing System (MLS) Approach',
  'N': 'Non-Directional Beacon (NDB) Approach', 'P': 'Global Position System (GPS) Approach',
  'Q': 'Non-Directional Beacon + DME (NDB+DME) Approach', 'R': 'Area Navigation (RNAV) Approach (Note 1)',
  'S': 'VOR Approach using VORDME/VORTAC', 'T': 'TACAN Approach',
  'U': 'Simplified Directional Facility (SDF) Approach', 'V': 'VOR Approach',
  'W': 'Microwave Landing System (MLS), Type A Approach', 'X': 'Localizer Directional Aid (LDA) Approach',
  'Y': 'Microwave Landing System (MLS), Type B and C Approach', 'Z': 'Missed Approach',
}
ROUTE_TYPE = {
  'ER': {
    'A': 'Airline Airway (Tailored Data)', 'C': 'Control', 'D': 'Direct Route', 'H': 'Helicopter Airways',
    'O': 'Officially Designated Airways', 'R': 'RNAV Airways', 'S': 'Undesignated ATS Route',
  },
  'ET': {
    'C': 'North American Routes for North Atlantic Traffic Common Portion', 'D': 'Preferential Routes',
    'J': 'Pacific Oceanic Transition Routes (PACOTS)', 'M': 'RNAV Airways', 'N': 'Undesignated ATS Route',
  },
  'PD': _SID, 'HD': _SID, 'PE': _STAR, 'HE': _STAR, 'PF': _APPROACH, 'HF': _APPROACH,
}

WAYPOINT_DESC = [
  {
    'A': 'Airport as Waypoint', 'E': 'Essential Waypoint', 'F': 'Off Airway Waypoint',
    'G': 'Runway/Helipad as Waypoint', 'H': 'Heliport as Waypoint', 'N': 'NDB Navaid as Waypoint',
    'P': 'Phantom Waypoint', 'R': 'Non-Essential Waypoint', 'T': 'Transition Essential Waypoint',
    'V': 'VHF Navaid as Waypoint',
  },
  {
    'B': 'Flyover Waypoint: End of SID/STAR Route Type, APCH Transition or Final Approach',
    'E': 'End of Enroute Airway or Terminal Procedure Route Type', 'U': 'Uncharted Airway Intersection',
    'Y': 'Fly-Over Waypoint',
  },
  {
    'A': 'Unnamed Stepdown Fix After Final Approach Fix', 'B': 'Unnamed Stepdown Fix Before Final Approach Fix',
    'C': 'ATC Compulsory Waypoint', 'G': 'Oceanic Gateway Waypoint', 'M': 'First Leg of Missed Approach Procedure',
    'P': 'Path Point Fix', 'R': 'Fix used for turning final approach', 'S': 'Named Stepdown Fix',
  },
  {
    'A': 'Initial Approach Fix', 'B': 'Intermediate Approach Fix', 'C': 'Initial Approach Fix with Holding',
    'D': 'Initial Approach Fix with Final Approach Course Fix', 'E': 'Final End Point Fix',
    'F': 'Published Final Approach Fix or Database Final Approach Fix', 'H': 'Holding Fix',
    'I': 'Final Approach Course Fix', 'M': 'Published Missed Approach Point Fix',
  },
]

LEG = {
  'IF': 'Initial Fix or IF Leg.', 'TF': 'Track to a Fix or TF Leg.', 'CF': 'Course to a Fix or CF Leg.',
  'DF': 'Direct to a Fix or DF Leg.', 'FA': 'Fix to an Altitude or FA Leg.',
  'FC': 'Track from a Fix for a Distance or FC Leg.', 'FD': 'Track from a Fix to a DME Distance or FD Leg.',
  'FM': 'From a Fix to a Manual termination or FM Leg.', 'CA': 'Course to an Altitude or CA Leg.',
  'CD': 'Course to a DME Distance or CD Leg.', 'CI': 'Course to an Intercept or CI Leg.',
  'CR': 'Course to a Radial termination or CR Leg.', 'RF': 'Constant Radius Arc or RF Leg.',
  'AF': 'Arc to a Fix or AF Leg.', 'VA': 'Heading to an Altitude termination or VA Leg.',
  'VD': 'Heading to a DME Distance termination or VD Leg.', 'VI': 'Heading to an Intercept or VI Leg.',
  'VM': 'Heading to a Manual termination or VM Leg.', 'VR': 'Heading to a Radial termination or VR Leg.',
  'PI': '045/180 Procedure Turn or PI Leg.', 'HA': 'Holding pattern (Altitude Termination)',
  'HF': 'Holding pattern (Single circuit terminating at the fix)', 'HM': 'Holding pattern (Manual Termination)',
}

WAYPOINT_TYPE_1 = {
  'C': 'Combined Named Intersection and RNAV', 'I': 'Unnamed, Charted Intersection', 'R': 'Named Intersection',
  'U': 'Uncharted Airway Intersection', 'V': 'VFR Waypoint', 'W': 'RNAV Waypoint',
}
WAYPOINT_TYPE_2 = {
  'A': 'Final Approach Fix', 'B': 'Initial and Final Approach Fix', 'C': 'Final Approach Course Fix',
  'D': 'Intermediate Approach Fix', 'E': 'Off-Route intersection in FAA National Reference System',
  'F': 'Off-Route Intersection', 'I': 'Initial Approach Fix',
  'K': 'Final Approach Course Fix at Initial Approach Fix',
  'L': 'Final Approach Course Fix at Intermediate Approach Fix', 'M': 'Missed Approach Fix',
  'N': 'Initial Approach Fix and Missed Approach Fix', 'O': 'Oceanic Entry/Exit Waypoint',
  'P': 'Pitch and Catch Point in the FAA High Altitude Redesign',
  'S': 'AACAA and SUA Waypoints in the FAA High Altitude Redesign',
  'U': 'FIR/UIR or Controlled Airspace Intersection',
  'V': 'Latitude/Longitude Intersection, Full Degree of Latitude',
  'W': 'Latitude/Longitude Intersection, Half Degree of Latitude',
}

APPLICATION = {
  'A': 'Standard ARINC Continuation containing notes or other formatted data',
  'B': 'Combined Controlling Agency/Call Sign and formatted Time of Operation',
  'C': 'Call Sign/Controlling Agency Continuation', 'E': 'Primary Record Extension',
  'L': 'VHF Navaid Limitation Continuation', 'N': 'Sector Narrative Continuation',
  'T': 'Time of Operations Continuation "formatted time data"',
  'U': 'Time of Operations Continuation "Narrative time data"',
  'V': 'Time of Operations Continuation, Start/End Date', 'P': 'Flight Planning Application Continuation',
  'Q': 'Flight Planning Application Primary Data Continuation', 'S': 'Simulation Application Continuation',
  'W': 'Airport or Heliport Procedure Data Continuation with SBAS use authorization information',
}

COMM_TYPE = {
  'ACC': 'Area Control Center', 'ACP': 'Airlift Command Post', 'AIR': 'Air to Air', 'APP': 'Approach Control',
  'ARR': 'Arrival Control', 'ASO': 'Automatic Surface Observing System (ASOS)',
  'ATI': 'Automatic Terminal Info Service (ATIS)', 'AWI': 'Airport Weather Information Broadcast (AWIB)',
  'AWO': 'Automatic Weather Observing Service (AWOS)', 'AWS': 'Aerodrome Weather Information Services (AWIS)',
  'CLD': 'Clearance Delivery', 'CPT': 'Clearance, Pre-Taxi', 'CTA': 'Control Area (Terminal)', 'CTL': 'Control',
  'DEP': 'Departure Control', 'DIR': 'Director (Approach Control Radar)',
  'EFS': 'Enroute Flight Advisory Service (EFAS)', 'EMR': 'Emergency', 'FSS': 'Flight Service Station',
  'GCO': 'Ground Comm Outlet', 'GND': 'Ground Control', 'GTE': 'Gate Control', 'HEL': 'Helicopter Frequency',
  'INF': 'Information', 'MIL': 'Military Frequency', 'MUL': 'Multicom', 'OPS': 'Operations',
  'PAL': 'Pilot Activated Lighting (Note 1)', 'RDO': 'Radio', 'RDR': 'Radar',
  'RFS': 'Remote Flight Service Station (RFSS)', 'RMP': 'Ramp/Taxi Control',
  'RSA': 'Airport Radar Service Area (ARSA)', 'TCA': 'Terminal Control Area', 'TMA': 'Terminal Control Area',
  'TML': 'Terminal', 'TRS': 'Terminal Radar Service Area (TRSA)', 'TWE': 'Transcribe Weather Broadcast (TWEB)',
  'TWR': 'Tower, Air Traffic Control', 'UAC': 'Upper Area Control', 'UNI': 'Unicom', 'VOL': 'Volmet',
}

SERVICE = {
  'A  ': 'Airport Advisory Serivce (AAS)', 'C  ': 'Community Aerodrome Radio Station (CARS)',
  'D  ': 'Departure Service (Other than Departure Control Unit)', 'F  ': 'Flight Information Serivce (FIS)',
  'I  ': 'Initial Contact (IC)', 'L  ': 'Arrival Service (Other than Arrival Control Unit)',
  'P  ': 'Pre-Departure Clearance (Data Link Service)', 'S  ': 'Aerodrome Flight Information Service (AFIS)',
  'T  ': 'Terminal Area Control (Other than dedicated Terminal Control Unit)',
  ' A ': 'Aerodrome Traffic Frequency (ATF)', ' C ': 'Common Traffic Advisory Frequency (CTAF)',
  ' M ': 'Mandatory Frequency (MF) ', ' R ': 'Air/Air', ' S ': 'Secondary Frequency', '  A': 'Air/Ground',
  '  D': 'VHF Direction Finding Service (VDF)', '  G': 'Remote Communications Air to Ground (RCAG)',
  '  L': 'Language other than English', '  M': 'Military Use Frequency', '  P': 'Pilot Controlled Light (PCL)',
  '  R': 'Remote Communications Outlet (RCO)',
}

NAME_FORMAT_1 = {
  'A': 'Abeam Fix', 'B': 'Bearing and Distance Fix ', 'D': 'Airport Name as Fix', 'F': 'FIR Fix',
  'H': 'Phonetic Letter Name Fix', 'I': 'Airport Ident as Fix', 'L': 'Latitude/Longitude Fix ',
  'M': 'Multiple Word Name Fix', 'N': 'Navaid Ident as Fix', 'P': 'Published Five - Letter - Name - Fix',
  'Q': 'Published Name Fix, less than five letters', 'R': 'Published Name Fix, more than five letters',
  'T': 'Airport/Rwy Related Fix (Note 2)', 'U': 'UIR Fix',
}
NAME_FORMAT_2 = {
  'O': 'Localizer Marker with officially published five - letter identifier',
  'M': 'Localizer Marker without officially published five - letter identifier',
}

EMISSION = {
  '3': 'Double Sideband (A3) ', 'A': 'Single sideband, reduced carrier (A3A) ',
  'B': 'Two Independent sidebands (A3B)', 'H': 'Single sideband, full carrier (A3H) ',
  'J': 'Single sideband, suppressed carrier (A3J)', 'L': 'Lower (single) sideband, carrier unknown',
  'U': 'Upper (single) sideband, carrier unknown',
}

UNKNOWN = '<UNKNOWN>'
ERR = ('err',)


def ok(x):
  return ('ok', x)


def _digits(v):
  return v != '' and all(c in DIGITS for c in v)


def _alnum(v):
  return v != '' and all(c in DIGITS or c in UPPER or c in 'abcdefghijklmnopqrstuvwxyz' for c in v)


def _alpha(v):
  return v != '' and all(c in UPPER or c in 'abcdefghijklmnopqrstuvwxyz' for c in v)


def _tenths(v):
  """Digits in tenths, as a decimal number with one decimal place."""
  n = int(v)
  return '%d.%d' % (n // 10, n % 10)


def _hundredths(v):
  n = int(v)
  return '%d.%02d' % (n // 100, n % 100)


def _table(t, fallback):
  def f(v, ident):
    return ok(t[v]) if v in t else fallback(v)
  return f


def _self(v):
  return ok(v)


def _fixed(text):
  return lambda v: ok(text)


def _err(v):
  return ERR


def _unsupported(v):
  return ok('Unsupported Value: "%s"' % v)


def _blank_or(then):
  return lambda v: ok(v) if v.strip() == '' else then(v)


def _feet(v, ident):
  return ok('%d ft' % int(v)) if _digits(v) else ok(v)


def _hundred_feet(v, ident):
  return ok('%d ft' % (int(v) * 100)) if _digits(v) else ok(v)


def _route_type(v, ident):
  return ok(ROUTE_TYPE.get(ident, {}).get(v, UNKNOWN))


def _route_ident(v, ident):
  s = v.strip()
  return ok(v) if s == '' or _alnum(s) else ERR


def _approach_ident(v, ident):
  return ok('Approach: %s, Runway: %s' % (v[0], v[1:4]))


_SEQ = {
  1: 'MSA Table, TAA Table, Cruise Table - Sequence No. ',
  2: 'VHF Navaid Limitation Continuation Records - Sequence No. ',
  3: 'SID/STAR/Approach and Company Routes - Sequence No. ',
  4: 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. ',
}


def _sequence(v, ident):
  return ok(_SEQ.get(len(v.strip()), '') + v)


def _waypoint_desc(v, ident):
  return ok('\n'.join(t[c] for t, c in zip(WAYPOINT_DESC, v) if c in t))


def _leg(v, ident):
  s = v.strip()
  if s == '':
    return ok('')
  if not _alpha(s):
    return ERR
  return ok(LEG.get(s, UNKNOWN))


def _trim_alpha(v, ident):
  s = v.strip()
  return ok(s) if s == '' or _alpha(s) else ERR


def _trim_alnum4(v, ident):
  s = v.strip()
  return ok(s) if s == '' or (_alnum(s) and len(s) <= 4) else ERR


def _course(v, ident):
  s = v.strip()
  if s == '':
    return ok('')
  if not _alnum(s):
    return ERR
  if s[-1] == 'T':
    return ok(s)
  return ok(_tenths(s)) if _digits(s) else ERR


def _distance_time(v, ident):
  s = v.strip()
  if s == '':
    return ok('')
  if s[0] == 'T':
    return ok(_tenths(s[1:]) + ' min') if _digits(s[1:]) else ERR
  return ok(_tenths(s) + ' nm') if _digits(s) else ERR


def _cycle(v, ident):
  return ok('%s%s, Release %s' % ('19' if int(v[:2]) > 50 else '20', v[:2], v[2:]))


def _frequency(v, ident):
  s = v.strip()
  if s == '':
    return ok('')
  if not _digits(s):
    return ERR
  return ok(_tenths(s) if ident in ('DB', 'PN', 'PM') else _hundredths(s))


def _mhz(v, ident):
  return ok(_hundredths(v)) if _digits(v) else ok('BAD VALUE')


def _variation(v, ident):
  if v.strip() == '':
    return ok(v)
  s = v[1:].strip()
  return ok('%03d %s' % (int(s), v[0])) if _digits(s) else ERR


def _waypoint_type(v, ident):
  if v[0] == 'N':
    return ok('NDB Navaid as Waypoint' + v[1:])
  if v[0] in WAYPOINT_TYPE_1:
    return ok(WAYPOINT_TYPE_1[v[0]])
  return ok(WAYPOINT_TYPE_2.get(v[1], 'Unknown Waypoint Type'))


def _name_format(v, ident):
  if v[0] in NAME_FORMAT_1:
    return ok(NAME_FORMAT_1[v[0]])
  return ok(NAME_FORMAT_2.get(v[1], 'Unknown Name Format Indicator'))


def _trim(v, ident):
  return ok(v.strip())


def _tenth_degree(v, ident):
  return ok(_tenths(v)) if _digits(v) else ok('BAD VALUE')


def _leg_time(v, ident):
  if v.strip() == '':
    return ok(v)
  if _digits(v):
    return ok('%dm %ds' % (int(v[0]), int(v[1]) * 6))
  return ok('Invalid Value: "%s"' % v)


def _speed(v, ident):
  if _digits(v):
    return ok(v + ' knots (IAS)')
  return ok(v) if v.strip() == '' else ERR


def _usage(v, ident):
  t = {'B': 'HI and LO Altitude', 'H': 'HI Altitude', 'L': 'LO Altitude', ' ': 'Terminal Use Only'}
  if v[1] in t:
    return ok(t[v[1]])
  return ok('RNAV') if v[0] == 'R' else ERR


def _boundary(v, ident):
  t = {'C': 'Circle', 'G': 'Great Circle', 'H': 'Rhumb Line', 'L': 'Counter Clockwise ARC', 'R': 'Clockwise ARC'}
  if v[0] not in t:
    return _unsupported(v)
  return ok(t[v[0]] + (', End of description, return to origin point' if v[1] == 'E' else ''))


def _zone(v, ident):
  if _digits(v[1:]):
    if v[0] in 'ZNOPQRSTUVWXY':
      return ok('GMT +%d:%s' % ('ZNOPQRSTUVWXY'.index(v[0]), v[1:]))
    if v[0] in 'ABCDEFGHIKLM':
      return ok('GMT -%d:%s' % ('ABCDEFGHIKLM'.index(v[0]) + 1, v[1:]))
  return _unsupported(v)


def _heli_course(v, ident):
  s = v.strip()
  if s == '':
    return ok(v)
  return ok(_tenths(s)) if _digits(s) else ERR


def _continuation(v, ident):
  return ok({'0': 'Primary Record', '1': 'Primary Record (with Cont.)'}.get(v, v + ' - Continuation'))


def _text(v, ident):
  return ok(v)


CODED = {
  2: _table({'S': 'Standard', 'T': 'Tailored'}, _err),
  3: _table(AREA, _fixed(UNKNOWN)),
  4: _table(SECTION, _blank_or(_fixed(UNKNOWN))),
  7: _route_type,
  16: _continuation,
  17: _waypoint_desc,
  20: _table({'R': 'Right', 'L': 'Left', 'E': 'Either', ' ': 'Either'}, _err),
  21: _leg,
  42: _waypoint_type,
  49: _table({'@': 'Beyond stop end of runway', '+': 'Ahead of approach end of runway', '-': 'To the side of runway'},
             _self),
  82: _usage,
  91: _table(APPLICATION, lambda v: ok('Unknown Application Type: ' + v)),
  101: _table(COMM_TYPE, _fixed(UNKNOWN)),
  102: _table({'R': 'Radar Capabilities', 'N': 'No Radar Capabilities'}, _self),
  104: _table({'H': 'High Frequency (3000 kHz - 30,000 kHz)', 'V': 'Very High Frequency (30,000 kHz - 200 MHz)',
               'U': 'Ultra High Frequency (200 MHz - 3000 MHz)',
               'C': 'Communication Channel for 8.33 kHz spacing'}, _fixed(UNKNOWN)),
  106: _table(SERVICE, _blank_or(_fixed(UNKNOWN))),
  108: _table({'Y': 'Official', 'N': 'Non-official'}, _err),
  112: _table({'E': 'Elliptical', 'B': 'Bone'}, _self),
  113: _table({'H': 'High Power (general use)', 'L': 'Low Power (low altitude use)'}, _self),
  117: _table({'F': 'FIR', 'U': 'UIR', 'B': 'Combined FIR/UIR'}, _self),
  118: _boundary,
  165: _table({'M': 'Magnetic', 'T': 'True'}, _self),
  177: _table({'C': 'Public / Civil', 'M': 'Military', 'P': 'Private (not open to public)'}, _unsupported),
  178: _zone,
  179: _table({'Y': 'Yes', 'N': 'No'}, _unsupported),
  181: _table({'Y': '24-Hour Availability', 'N': 'Part-time Availability'}, _fixed(UNKNOWN)),
  182: _table({'G': 'Guard (radio receives on this freq)', 'T': 'Transmit (radio transmits on this freq)',
               ' ': 'Guards and Transmits'}, _err),
  196: _name_format,
  198: _table({'A': 'Amplitude Modulated', 'F': 'Frequency Modulated'}, _fixed(UNKNOWN)),
  199: _table(EMISSION, _blank_or(_fixed(UNKNOWN))),
  270: _table({'I': 'ILS or MLS Glideslope', 'R': 'RNAV Procedure', 'V': 'Visual Glideslope Indicator (VGSI)',
               'D': 'Default Value (40 or 50 feet)', ' ': ' '}, _err),
}

NUMERIC = {
  26: _course, 27: _distance_time, 29: _feet, 30: _feet, 32: _cycle, 34: _frequency, 39: _variation, 45: _mhz,
  48: _feet, 50: _feet, 53: _feet, 54: _hundred_feet, 62: _tenth_degree, 65: _leg_time, 72: _speed, 73: _feet,
  86: _feet, 92: _feet, 103: _mhz, 123: _feet, 127: _feet, 135: _tenth_degree, 147: _hundred_feet, 161: _feet,
  184: _feet, 209: _feet, 240: _feet, 269: _heli_course,
}

# text with a fixed presentation or validation
FORMATTED = {
  8: _route_ident, 10: _approach_ident, 12: _sequence, 22: _trim_alpha, 23: _trim_alnum4, 24: _trim_alnum4,
  25: _trim_alnum4, 43: _trim,
}

DECODERS = {}
DECODERS.update(CODED)
DECODERS.update(NUMERIC)
DECODERS.update(FORMATTED)


def decode(spec, value, ident):
  return DECODERS.get(spec.sec, _text)(value, ident)


def decode_all(v):
  """[(name, value, result)] for an accepted line."""
  return [(f.name, f.value(v.raw), decode(f, f.value(v.raw), v.ident)) for f in v.fields]


def decodable(v):
  return all(decode(f, f.value(v.raw), v.ident) is not ERR for f in v.fields)


# --------------------------------------------------------------------------
# lines


def variants():
  """Every reachable record variant: (ident, layout, continuation number, application)."""
  out = []
  for ident, t in TYPES.items():
    if t.cont is None:
      out.append((ident, t.primary, None, None))
      continue
    if isinstance(t.primary, dict):
      for a, lay in t.primary.items():
        out.append((ident, lay, '0', a))
    else:
      out.append((ident, t.primary, '0', None))
    for a, lay in t.conts.items():
      out.append((ident, lay, '2', a))
    if t.default:
      out.append((ident, t.default, '2', '5'))
  return out


# Content that every decoder accepts, per chapter 5 section; used as a base
# that the enumerations then vary.  %d is replaced by a running digit.
_GOOD = {
  2: 'S', 3: 'EUR', 4: 'PA', 7: '1', 8: 'J501', 9: 'ILS07L', 10: 'I07LZ ', 12: '010', 16: '0', 17: 'EBCF', 20: 'L',
  21: 'CF', 22: 'Y', 23: 'ABCD', 24: '1234', 25: '0123', 26: '0875', 27: '0123', 29: '+', 30: '04500', 34: '11380',
  39: 'E0140', 42: 'RAI', 45: '11030', 48: '1000', 49: '@', 50: '1050', 53: '18000', 54: '118', 62: '1270',
  65: '15', 72: '250', 73: '10000', 82: 'RB', 86: '35000', 91: 'A', 92: '00345', 101: 'TWR', 102: 'R',
  103: '0118300', 104: 'V', 106: '  A', 108: 'Y', 112: 'E', 113: 'H', 117: 'F', 118: 'GE', 123: '1', 127: '45000',
  135: '0900', 147: '062', 161: '180', 165: 'M', 177: 'C', 178: 'U00', 179: 'Y', 181: 'Y', 182: 'G', 184: '12000',
  196: 'A  ', 198: 'A', 199: '3', 209: '018000', 240: '180', 269: '123', 270: 'I', 43: 'WAYPOINT NAME',
}

_FILL = 'QWERTYUIOPASDFGHJKLZXCVBNM1234567890'


def build(ident, layout, number, application, area='EUR', rtype='S', style='rich'):
  """A line of the given variant.  Styles: rich (every column filled with content that decodes),
  blank (optional columns blank), digits, letters (as far as the decoders accept)."""
  if style == 'blank':
    line = [' '] * 132
  elif style == 'digits':
    line = [DIGITS[(7 * i + 3) % 10] for i in range(132)]
  else:
    line = [_FILL[(5 * i + i // 7) % 36] for i in range(132)]
  for k, f in enumerate(LAYOUTS[layout]):
    good = _GOOD.get(f.sec)
    if good is None:
      continue
    if style == 'blank' and f.sec not in (8, 10, 108):
      continue
    if style == 'digits' and f.sec not in (20, 21, 22, 39, 82, 108, 178, 182, 270):
      continue
    good = good.ljust(f.width)[:f.width] if f.sec not in NUMERIC or f.width < len(good) else good.rjust(f.width, '0')
    for c, ch in zip(f.cols, good):
      line[c] = ch
  line[0] = rtype
  line[1:4] = area
  if ident[0] + ident[1] in TYPES:
    line[4:6] = ident
  sub13 = any(f.name == 'Section Code' and f.cols == (4, 12) for f in LAYOUTS[layout])
  if sub13:
    line[5] = ' '
    line[12] = ident[1]
  t = TYPES[ident]
  if t.cont is not None:
    line[t.cont] = number
    if application is not None:
      line[t.app:t.app + t.app_width] = application
  line[123:132] = '048118612' if style != 'digits' else '987650213'
  out = ''.join(line)
  v = classify(out)
  assert v.ok and v.layout == layout and v.ident == ident, (ident, layout, style, v.why, v.layout)
  return out


VARIANTS = variants()
