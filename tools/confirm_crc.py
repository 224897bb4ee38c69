#!/usr/bin/env python3
"""Cross-check harness/ref/schema.json against MAVLink's CRC_EXTRA rule, and mark what it confirms.

CRC_EXTRA is a hash of the message name and of the name, type and array length of every
non-extension field, so recomputing it from the schema's own layout confirms name, field order and
types independently of the library's tables.  The generator mangled the XML field names into Go
names; NAMES restores those that cannot be undone mechanically (from the MAVLink XML, by memory).
Run by hand when the schema is (re)made; no check runs it."""
import json, re, sys
P = '/verif/harness/ref/schema.json'
CT = {'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'uint32': 'uint32_t',
      'int32': 'int32_t', 'float32': 'float', 'uint64': 'uint64_t', 'int64': 'int64_t', 'float64': 'double'}
NAMES = '''omegaIx omegaIy omegaIz EAS2TAS Pax Pby Pcz AOA SSA cam_idx img_idx CompensationX CompensationY CompensationZ
FF P I D idx confidence uElev uThrot uThrot2 uAilL uAilR uRud hRef hRef_t PitchAngle PitchAngleRef qRef nZ AirspeedRef
SpoilersEngaged YawAngle YawAngleRef RollAngle RollAngleRef pRef rRef uAil i32_1 i8_1 i8_2 f_1 f_2 f_3 f_4 f_5 f_6 f_7 f_8
LED_status SATCOM_status Servo_status Motor_rpm Windspeed WindDir WindZ Airspeed timestampModeChanged xW xR xLat xLon
VarW VarR VarLat VarLon LoiterRadius LoiterDirection DistToSoarPoint vSinkExp z1_LocalUpdraftSpeed z2_DeltaRoll z1_exp z2_exp
ThermalGSNorth ThermalGSEast TSE_dot DebugVar1 DebugVar2 ControlMode valid TempAmbient Humidity SoC escid Index ICAO_address
MMSI COG flow_comp_m_x flow_comp_m_y Vcc Vservo grid_spacing gridbit numBands sue_trap_source sue_ID_VEHICLE_MODEL_NAME
sue_ID_VEHICLE_REGISTRATION sue_ID_LEAD_PILOT sue_ID_DIY_DRONES_URL sue_ROLL_STABILIZATION_AILERONS
sue_ROLL_STABILIZATION_RUDDER sue_PITCH_STABILIZATION sue_YAW_STABILIZATION_RUDDER sue_YAW_STABILIZATION_AILERON
sue_AILERON_NAVIGATION sue_RUDDER_NAVIGATION sue_ALTITUDEHOLD_STABILIZED sue_ALTITUDEHOLD_WAYPOINT sue_RACING_MODE
sue_YAWKP_AILERON sue_YAWKD_AILERON sue_ROLLKP sue_ROLLKD sue_PITCHGAIN sue_PITCHKD sue_RUDDER_ELEV_MIX sue_ROLL_ELEV_MIX
sue_ELEVATOR_BOOST sue_YAWKP_RUDDER sue_YAWKD_RUDDER sue_ROLLKP_RUDDER sue_ROLLKD_RUDDER sue_RUDDER_BOOST
sue_RTL_PITCH_DOWN sue_HEIGHT_TARGET_MAX sue_HEIGHT_TARGET_MIN sue_ALT_HOLD_THROTTLE_MIN sue_ALT_HOLD_THROTTLE_MAX
sue_ALT_HOLD_PITCH_MIN sue_ALT_HOLD_PITCH_MAX sue_ALT_HOLD_PITCH_HIGH sue_air_speed_3DIMU mControl bControl idSurface sensLoad
ctrlLoad batVolt bitfieldPt diagFl1 diagFl2 diagFl3 diagSh1 diagSh2 diagSh3 clockStat visSat useSat GppGl sigUsedMask
percentUsed hCommand uCommand rCommand timeStatus receiverStatus solStatus posType velType posSolAge csFails axBias ayBias
azBias gxBias gyBias gzBias moveHome idOrder u_m phi_c theta_c psiDot_c totalDist dist2Go fromWP toWP h_c gpsQuality msgsType
posStatus magVar magDir modeInd r2Type ICAO emitterType aircraftSize gpsOffsetLat gpsOffsetLon stallSpeed rfSelect utcTime
gpsLat gpsLon gpsAlt gpsFix numSats baroAltMSL accuracyHor accuracyVert accuracyVel velVert velNS VelEW emergencyStatus
rfHealth middleware_sw_version middleware_custom_version video_status time_to_minimum_delta altitude_minimum_delta
horizontal_minimum_delta width dgps_age dgps_numch manual_override_switch origin_sysid origin_compid valid_points resolution_v
resolution_h discharge_minimum_voltage charging_minimum_voltage resting_minimum_voltage'''.split()
# Names that differ between messages: these win in a second variant.
SPECIAL = {n.replace('_', '').lower(): n for n in '''cog emitter_type p I2Cerr sue_magFieldEarth0 sue_magFieldEarth1
sue_magFieldEarth2 sue_WIND_ESTIMATION sue_GPS_TYPE sue_DR sue_BOARD_TYPE sue_AIRFRAME sue_RCON sue_TRAP_FLAGS
sue_TRAP_SOURCE sue_osc_fail_count sue_CLOCK_CONFIG sue_FLIGHT_PLAN_TYPE'''.split()}
KEY = {}
for n in NAMES:
    KEY.setdefault(n.replace('_', '').lower(), []).append(n)


def acc(c, bs):
    for b in bs:
        t = (b ^ c) & 0xff
        t = (t ^ (t << 4)) & 0xff
        c = ((c >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xffff
    return c


def snake(n):
    for a in ('IMU', 'GPS', 'NAV', 'UAV', 'IDs'):
        n = n.replace(a, a.capitalize())
    n = n.replace('AzImuth', 'Azimuth')
    s = re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n)
    return re.sub(r'(?<=[A-Z])(?=[A-Z][a-z])', '_', s).lower()


def crc(name, fields):
    c = acc(0xffff, (name + ' ').encode())
    for ct, n, cnt in fields:
        c = acc(c, f'{ct} {n} '.encode())
        if cnt:
            c = acc(c, [cnt])
    return (c & 0xff) ^ (c >> 8)


def msgname(pkg, typ):
    import glob
    for f in glob.glob(f'/repo/{pkg}/*.go'):
        if re.search(r'^type %s struct' % typ, open(f).read(), re.M):
            return f.split('/')[-1][:-3].upper()


def main():
    s = json.load(open(P))
    ok, bad = 0, []
    for d in s['Dialects']:
        for m in d['Msgs']:
            name = msgname(d['Package'], m['Type'])
            src = open(next(f for f in __import__('glob').glob(f'/repo/{d["Package"]}/*.go')
                            if re.search(r'^type %s struct' % m['Type'], open(f).read(), re.M))).read()
            chars = set(re.findall(r'^\t(\w+) \[\d+\]byte$', src, re.M))
            base, tot = [], 0
            for f in m['Fields']:
                if f.get('Ext') and m['Type'] != 'V2Extension':
                    break
                ct = 'char' if f['Name'] in chars and m['Type'] != 'V2Extension' else CT[f['Type']]
                base.append((ct, f['Name'], f.get('Count', 0)))
            hit = False
            sn = [snake(n) for _, n, _ in base]
            variants = [sn, [re.sub(r'(?<=[a-z])(?=\d)', '_', x) for x in sn], [re.sub(r'(?<=\d)_(?=[a-z])', '', x) for x in sn],
                        [x.replace('_', '') for x in sn]]
            k = [KEY.get(n.lower(), [x]) for (_, n, _), x in zip(base, sn)]
            variants.append([c[0] for c in k])
            variants.append([x if x in c or len(x) > 1 and x == c[0] else c[0] for x, c in zip(sn, k)])
            variants.append([SPECIAL.get(n.lower(), c[0]) for (_, n, _), c in zip(base, k)])
            for v in variants:
                if crc(name, [(ct, x, c) for (ct, _, c), x in zip(base, v)]) == m['CRC']:
                    hit = True
                    break
            if hit:
                ok += 1
                m['Confirmed'] = True
            else:
                m.pop('Confirmed', None)
                bad.append((d['Package'], name, m['ID'], [(c, x) for (c, _, _), x in zip(base, variants[4])]))
    json.dump(s, open(P, 'w'), indent=1)
    print('confirmed', ok, 'unconfirmed', len(bad))
    for b in bad:
        print(b)


main()
