"""C09: airspeed/Mach/dynamic pressure consistency.  C11: atmosphere."""
import numpy as np

from aviary.mission.solved_two_dof.ode.unsteady_solved_flight_conditions import UnsteadySolvedFlightConditions
from aviary.subsystems.atmosphere.atmosphere import AtmosphereComp
from aviary.subsystems.atmosphere.flight_conditions import FlightConditions
from aviary.subsystems.atmosphere.utils.get_atmosphere_data import get_atmosphere_data
from aviary.variable_info.enums import AtmosphereModel, SpeedType
from aviary.variable_info.variables import Dynamic as D, Mission as M, Settings
from sx.scen import scenario

RHO, SOS, Q, MACH, V = (D.Atmosphere.DENSITY, D.Atmosphere.SPEED_OF_SOUND, D.Atmosphere.DYNAMIC_PRESSURE,
                        D.Atmosphere.MACH, D.Mission.VELOCITY)
KEY = {SpeedType.TAS: V, SpeedType.EAS: 'EAS', SpeedType.MACH: MACH}


def air(c, nn):
    return {RHO: c.array('rho', nn, 1e-6, 5e-3, 1.5e-3), SOS: c.array('sos', nn, 500.0, 1500.0, 1040.0)}, c.real('rho0', 1e-4, 5e-3, 2.3e-3)


@scenario('C09', functions=['FlightConditions'],
          params=[dict(kind=k, nn=n) for k in ('TAS', 'EAS', 'MACH') for n in (1, 2)], thorough=[dict(kind=k, nn=5) for k in ('TAS', 'EAS', 'MACH')])
def definitions(c, kind, nn):
    """M a = V, q = rho V^2 / 2 = rho0 EAS^2 / 2, whichever speed is given"""
    kind = SpeedType[kind]
    a, rho0 = air(c, nn)
    s = c.array('speed', nn, 0.0, 4.0 if kind is SpeedType.MACH else 4000.0, 0.8)
    r = dict(c.comp(FlightConditions, {'num_nodes': nn, 'input_speed_type': kind}, dict(a, **{KEY[kind]: s}),
                    sopts={M.SEA_LEVEL_DENSITY: (rho0, 'slug/ft**3')}))
    r[KEY[kind]] = s
    for i in range(nn):
        c.equal(f'Mach times speed of sound {i}', r[MACH][i] * a[SOS][i], r[V][i])
        c.equal(f'dynamic pressure {i}', r[Q][i], 0.5 * a[RHO][i] * r[V][i] ** 2)
        c.equal(f'equivalent airspeed {i}', 0.5 * rho0 * r['EAS'][i] ** 2, r[Q][i])
        c.ge(f'nonnegative {i}', r[Q][i], 0.0)


@scenario('C09', functions=['FlightConditions'],
          params=[dict(a=a, b=b) for a in ('TAS', 'EAS', 'MACH') for b in ('TAS', 'EAS', 'MACH') if a != b])
def round_trip(c, a, b):
    """converting a speed to another kind and back returns it"""
    a, b = SpeedType[a], SpeedType[b]
    at, rho0 = air(c, 2)
    s = c.array('speed', 2, 0.0, 4.0 if a is SpeedType.MACH else 4000.0, 0.8)
    so = {M.SEA_LEVEL_DENSITY: (rho0, 'slug/ft**3')}
    r = c.comp(FlightConditions, {'num_nodes': 2, 'input_speed_type': a}, dict(at, **{KEY[a]: s}), sopts=so)
    r2 = c.comp(FlightConditions, {'num_nodes': 2, 'input_speed_type': b}, dict(at, **{KEY[b]: r[KEY[b]]}), sopts=so)
    c.equal('speed', r2[KEY[a]], s)
    c.equal('dynamic pressure', r2[Q], r[Q])


@scenario('C09', functions=['UnsteadySolvedFlightConditions'],
          params=[dict(kind=k, gr=g) for k in ('TAS', 'EAS', 'MACH') for g in (False, True)])
def unsteady_definitions(c, kind, gr):
    kind = SpeedType[kind]
    at, rho0 = air(c, 2)
    hi = 4.0 if kind is SpeedType.MACH else 1000.0
    s = c.array('speed', 2, 0.01, hi, 0.8)
    ds = c.array('slope', 2, -1.0, 1.0, 0.01)
    ins = dict(at, **{KEY[kind]: s})
    name = {SpeedType.TAS: 'dTAS_dr', SpeedType.EAS: 'dEAS_dr', SpeedType.MACH: 'dmach_dr'}[kind]
    ins[name] = ds
    gam = c.array('gamma', 2, -0.5, 0.5, 0.1)
    if not gr:
        ins[D.Mission.FLIGHT_PATH_ANGLE] = gam
    lapse = c.array('lapse', 2, -1e-3, 1e-3, -1e-5)
    if kind is SpeedType.EAS:
        ins['drho_dh'] = lapse
    if kind is SpeedType.MACH:
        ins['dsos_dh'] = lapse
    r = dict(c.comp(UnsteadySolvedFlightConditions, {'num_nodes': 2, 'input_speed_type': kind, 'ground_roll': gr}, ins,
                    sopts={M.SEA_LEVEL_DENSITY: (rho0, unit_of(kind))}))
    r[KEY[kind]] = s
    for i in range(2):
        c.equal(f'Mach times speed of sound {i}', r[MACH][i] * at[SOS][i], r[V][i])
        c.equal(f'dynamic pressure {i}', r[Q][i], 0.5 * at[RHO][i] * r[V][i] ** 2)
        c.equal(f'equivalent airspeed {i}', 0.5 * rho0 * r['EAS'][i] ** 2, r[Q][i])
        # acceleration along the path by the chain rule: r' = V cos g, h' = V sin g
        cg, sg = (1.0, 0.0) if gr else (np.cos(gam[i]), np.sin(gam[i]))
        rd, hd = r[V][i] * cg, r[V][i] * sg
        if kind is SpeedType.TAS:
            want = ds[i] * rd
        elif kind is SpeedType.EAS:
            # V = EAS sqrt(rho0/rho)
            want = r[V][i] / s[i] * ds[i] * rd - 0.5 * r[V][i] / at[RHO][i] * lapse[i] * hd
        else:
            want = ds[i] * rd * at[SOS][i] + s[i] * lapse[i] * hd
        c.equal(f'acceleration {i}', r['dTAS_dt_approx'][i], want)


def unit_of(kind):
    return 'kg/m**3'


# ------------------------------------------------------------------ C11
T, P, MU = D.Atmosphere.TEMPERATURE, D.Atmosphere.STATIC_PRESSURE, D.Atmosphere.DYNAMIC_VISCOSITY
H = D.Mission.ALTITUDE
GAS = {'Earth': (28.97, 1.4, 110.4, 1.458e-6), 'Mars': (43.34, 1.36, 222.0, 1.503e-6), 'Venus': (43.45, 1.29, 222.0, 1.503e-6)}
EARTH = ['STANDARD', 'TROPICAL', 'POLAR', 'HOT', 'COLD']
CHUNK = 46


def bins(model):
    return np.asarray(get_atmosphere_data(AtmosphereModel[model])[0].alt, dtype=float)


def chunks(model, size=CHUNK, top=None):
    a = bins(model)
    n = len(a) - 1
    if top is not None:
        n = min(n, int(np.searchsorted(a, top)))
    return [dict(model=model, lo=i, hi=min(i + size, n)) for i in range(0, n, size)]


def comp(c, model, hs, dt=0.0, h_def='geopotential'):
    return c.comp(AtmosphereComp, {'num_nodes': len(hs), 'h_def': h_def, 'delta_T_Celcius': dt,
                                   Settings.ATMOSPHERE_MODEL: AtmosphereModel[model]}, {H: c.arr(hs)})


@scenario('C11', functions=['AtmosphereComp'], seconds=150, max_paths=64, params=chunks('STANDARD', 30))
def standard_day(c, model, lo, hi):
    """every bin: the gas law holds, pressure and density fall strictly with altitude"""
    a = bins(model)
    i = c.integer('row', lo, hi - 1)
    w = a[i + 1] - a[i]
    h1 = a[i] + w * c.real('h', 0.0, 1.0, 0.2)
    h2 = a[i] + w * c.real('g', 0.0, 1.0, 0.7)
    c.assume(h2 >= h1 + 0.01 * w)
    if h1 <= a[i]:
        h1 = a[i]
    r = comp(c, model, [h1, h2])
    c.lt(f'pressure falls in row {i}', r[P][1] - r[P][0], 0.0)
    c.lt(f'density falls in row {i}', r[RHO][1] - r[RHO][0], 0.0)
    c.lt(f'pressure is positive in row {i}', 0.0, r[P][1])
    c.le(f'gas law in row {i}', r[P][1] * 28.97 * 0.9985, 8314.32 * r[RHO][1] * r[T][1])
    c.ge(f'gas law in row {i} ', r[P][1] * 28.97 * 1.0005, 8314.32 * r[RHO][1] * r[T][1])


@scenario('C11', functions=['AtmosphereComp'], seconds=120, max_paths=64,
          params=[p for m in EARTH[1:] for p in chunks(m, 30)] + [p for m in AtmosphereModel if m.name.startswith('MARS') for p in chunks(m.name, 30)])
def continuity(c, model, lo, hi):
    """no jump between table rows: temperature and density change no faster than a bound"""
    a = bins(model)
    d = get_atmosphere_data(AtmosphereModel[model])[0]
    i = c.integer('row', lo, hi - 1)
    w = a[i + 1] - a[i]
    h1 = a[i] + w * c.real('h', 0.0, 1.0, 0.4)
    c.assume(h1 > a[i])
    r = comp(c, model, [a[i], h1])
    for k, nm, tol in ((T, 'temperature', 1e-3), (P, 'pressure', 1e-6), (RHO, 'density', 1e-9)):
        # steepest slope of the row, from the table itself
        co = {T: d.akima_T, P: d.akima_P, RHO: d.akima_rho}[k][i + 1]
        lip = abs(co[1]) + 2 * abs(co[2]) * w + 3 * abs(co[3]) * w * w
        step = r[k][1] - r[k][0]
        c.le(f'{nm} in row {i}', step, lip * 1.001 * (h1 - a[i]) + tol)
        c.ge(f'{nm} in row {i} ', step, -lip * 1.001 * (h1 - a[i]) - tol)
    c.lt(f'temperature is positive in row {i}', 0.0, r[T][1])


@scenario('C11', functions=['AtmosphereComp'], seconds=60, max_paths=40,
          params=[dict(model=m, h_def=h, dt=dt) for m, h, dt in
                  [('STANDARD', 'geopotential', 0.0), ('STANDARD', 'geometric', 15.0), ('STANDARD', 'geopotential', -20.0),
                   ('HOT', 'geometric', 0.0), ('COLD', 'geopotential', 10.0), ('TROPICAL', 'geometric', -5.0), ('POLAR', 'geopotential', 0.0),
                   ('MARS_REFERENCE', 'geometric', 7.0), ('MARS_POLAR_COLD', 'geopotential', -7.0), ('VENUS_REFERENCE', 'geometric', 0.0)]])
def relations(c, model, h_def, dt):
    """speed of sound, viscosity and the temperature offset follow their definitions at any altitude"""
    planet = get_atmosphere_data(AtmosphereModel[model])[1]
    mol, gam, s, beta = GAS[planet]
    a = bins(model)
    h = c.real('h', max(a[0], -2000.0), min(a[-1], 60000.0), 9000.0)
    r = comp(c, model, [h], dt, h_def)
    c.equal('speed of sound squared', r[SOS][0] ** 2, gam * 8314.32 / mol * r[T][0])
    c.equal('viscosity', r[MU][0] * (r[T][0] + s), beta * r[T][0] ** 1.5)
    std = comp(c, model, [h], 0.0, h_def)
    c.equal('temperature offset', r[T][0], std[T][0] + dt)
    c.equal('pressure does not depend on the offset', r[P][0], std[P][0])
    # at fixed pressure, 1/density grows with R dT / p
    c.equal('density under an offset', std[RHO][0] * std[P][0],
            r[RHO][0] * (std[P][0] + std[RHO][0] * 8314.32 / mol * dt))
    if h_def == 'geometric':
        radius = get_atmosphere_data(AtmosphereModel[model])[2][0]
        z = h * radius / (radius + h)
        r2 = comp(c, model, [z], dt, 'geopotential')
        for k in (T, P, RHO, SOS, MU):
            c.equal(f'{k} at the geopotential altitude', r[k], r2[k])
