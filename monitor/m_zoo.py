"""built-in (zoo) filters: dynamics, constraints, wiring, multi-agent, delta-v, backup controllers"""
import contextlib
import importlib
from collections import OrderedDict
import numpy as np
import jax
import jax.numpy as jnp
from scipy.linalg import expm
from monitor.common import mon
from monitor import ref
from monitor.m_base import Raw
from run_time_assurance.zoo.cwh import docking_2d as d2, docking_3d as d3, inspection_1v1 as i1, inspection_3d as i3, utils as zu
from run_time_assurance.zoo.integrators import integrator_1d as g1
from run_time_assurance.rta.base import RTAModule


# ------------------------------------------------------------------ reference: relative orbital motion
def cwh(m, n, dim=3):
    A = np.zeros((6, 6))
    A[0, 3] = A[1, 4] = A[2, 5] = 1
    A[3, 0], A[3, 4], A[4, 3], A[5, 2] = 3 * n * n, 2 * n, -2 * n, -n * n
    B = np.vstack((np.zeros((3, 3)), np.eye(3) / m))
    if dim == 2:
        k = [0, 1, 3, 4]
        return A[np.ix_(k, k)], B[np.ix_(k, [0, 1])]
    return A, B


def exact(m, n, dt, dim=3):
    A, B = cwh(m, n, dim)
    nx, nu = B.shape
    M = np.zeros((nx + nu, nx + nu))
    M[:nx, :nx], M[:nx, nx:] = A, B
    E = expm(M * dt)
    return E[:nx, :nx], E[:nx, nx:]


def mn(rng):
    return float(np.round(rng.uniform(2, 40), 2)), float(np.round(rng.choice([0.001027, 0.01, 0.05, 0.2]), 6))


def xstate(rng, r=(10, 200), v=3.0):
    """position well away from zero, velocity"""
    p = rng.normal(size=3)
    p = p / np.linalg.norm(p) * rng.uniform(*r)
    return np.concatenate((p, rng.uniform(-v, v, 3)))


# ------------------------------------------------------------------ C21 dynamics
@mon('C21', 'matrices', n=20)
def matrices(rng, rep, it):
    m, n = mn(rng)
    rep.set(m=m, n=n)
    for mode, dim in (('2d', 2), ('3d', 3)):
        A, B = zu.generate_cwh_matrices(m, n, mode=mode)
        a, b = cwh(m, n, dim)
        rep.close(A, a, f'{mode} system matrix', 1e-9, 1e-12)
        rep.close(B, b, f'{mode} input matrix', 1e-9, 1e-12)


_disc = {}


def discrete(m, n, sun=None):
    k = (m, n, sun)
    if k not in _disc:
        kw = {} if sun is None else dict(sun_vel=sun)
        _disc[k] = i1.DiscreteInspection1v1RTA(m=m, n=n, **kw)
    return _disc[k]


@mon('C21', 'discrete model', n=10)
def discrete_model(rng, rep, it):
    n = [0.2, 0.05, 0.3][it % 3]
    m, sun = [12.0, 5.0][it % 2], [None, 0.03, -0.05][it % 3]
    d = discrete(m, n, sun)
    for _ in range(4):
        dt = float(np.round(rng.uniform(0.2, 6), 2))
        rep.set(m=m, n=n, dt=dt, sun=sun)
        Ad, Bd = exact(m, n, dt)
        rep.close(d.discrete_a_mat(dt), Ad, 'discrete system matrix is the exact solution', 2e-3, 2e-3)
        rep.close(np.array(d.discrete_b_mat(dt)) * m, Bd * m, 'discrete input matrix is the exact solution', 3e-3, 5e-3)
        x = np.concatenate((rng.uniform(-5, 5, 6), [rng.uniform(-3, 3), 0]))
        u = rng.uniform(-1, 1, 3)
        rep.set(x=x, u=u)
        y = np.array(d.next_state_differentiable(jnp.array(x), dt, jnp.array(u)))
        rep.close(y[:6], Ad @ x[:6] + Bd @ u, 'next state', 5e-3, 5e-3)
        rep.close(y[6], x[6] + d.sun_vel * dt, 'sun angle advances with the sun velocity')


@mon('C21', 'closed form', n=8)
def closed_form(rng, rep, it):
    n, m = [0.05, 0.2, 0.3][it % 3], 12.0
    steps, dt = int(rng.integers(3, 9)), float(np.round(rng.uniform(0.5, 3), 2))
    R = float(np.round(rng.uniform(1, 8), 2))
    c = i1.ConstraintPassivelySafeManeuver(collision_radius=R, m=m, n=n, dt=dt, steps=steps)
    rep.set(n=n, R=R, dt=dt, steps=steps)
    for _ in range(4):
        x = np.concatenate((rng.uniform(-20, 20, 3), rng.uniform(-2, 2, 3), [0.3, 0]))
        rep.set(x=x)
        t = float(rng.uniform(0, 9))
        Ad, _ = exact(m, n, t)
        rep.close(c.get_future_state(jnp.array(x), t, R), np.linalg.norm((Ad @ x[:6])[:3]) - R, 'closed-form coast distance', 2e-3, 5e-3, t=t)
        vals = [np.linalg.norm((exact(m, n, k * dt)[0] @ x[:6])[:3]) - R for k in range(steps + 1)]
        rep.close(c.get_array(jnp.array(x), c.params), vals, 'coast distances over the horizon', 2e-3, 5e-3)
        d = int(rng.integers(1, 3))
        cd = i3.ConstraintPSMDeputy(collision_radius=R, m=m, n=n, dt=dt, steps=steps, deputy=d, jit_enable=False)
        xs = np.concatenate([x[:6]] + [np.concatenate((rng.uniform(-20, 20, 3), rng.uniform(-2, 2, 3))) for _ in range(2)] + [[0.1]])
        dx = xs[:6] - xs[6 * d:6 * d + 6]
        rep.set(xs=xs, deputy=d)
        rep.close(cd.get_future_state(jnp.array(xs), t, R), np.linalg.norm((Ad @ dx)[:3]) - R, 'closed-form distance of two coasting agents', 2e-3, 8e-3, t=t)


_one = {}


def one(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _one:
        _one[k] = i1.Inspection1v1RTA(**kw)
    return _one[k]


@mon('C21', 'prediction', n=6)
def prediction(rng, rep, it):
    m, n, sun = [(12.0, 0.1, 0.02), (5.0, 0.2, -0.04)][it % 2]
    r = one(m=m, n=n, sun_vel=sun)
    A, B = cwh(m, n)
    x = np.concatenate((rng.uniform(-50, 50, 3), rng.uniform(-2, 2, 3), [rng.uniform(-3, 3), rng.uniform(0, 5)]))
    u = np.round(rng.uniform(-1, 1, 3), 2)
    dt = float(rng.choice([0.5, 1.0, 2.0]))
    rep.set(m=m, n=n, sun=sun, x=x, u=u, dt=dt)
    dv = np.abs(u).sum() / m
    rep.close(r.compute_state_dot(jnp.array(x), 0.3, jnp.array(u)), np.concatenate((A @ x[:6] + B @ u, [sun, dv])), 'state rate', 1e-4, 1e-4)
    rep.close(r.compute_state_dot_cwh(jnp.array(x[:6]), 0.3, jnp.array(u)), A @ x[:6] + B @ u, 'state rate (orbit part)', 1e-4, 1e-4)
    rep.close(r.state_transition_system(jnp.array(x)), np.concatenate((A @ x[:6], [sun, 0])), 'drift', 1e-4, 1e-4)
    rep.close(r.state_transition_input(jnp.array(x)), np.vstack((B, np.zeros((2, 3)))), 'input matrix', 1e-5, 1e-6)
    Ad, Bd = exact(m, n, dt)
    e = Ad @ x[:6] + Bd @ u
    rep.close(r._pred_state(jnp.array(x), dt, jnp.array(u)), np.concatenate((e, [x[6] + sun * dt, x[7] + dv * dt])), 'predicted state', 5e-4, 5e-3)
    rep.close(r._pred_state_cwh(jnp.array(x[:6]), dt, jnp.array(u)), e, 'predicted state (orbit part)', 5e-4, 5e-3)
    s = sdv(m, n, 50.0, 20)
    rep.close(s._pred_state(x, dt, u), x + dt * np.concatenate((A @ x[:6] + B @ u, [-n, dv])), 'delta-v filter prediction step', 1e-6, 1e-6)
    nd = (3, 1, 6, 2, 7)[it % 5]
    ri = multi(num_deputies=nd, m=m, n=n, sun_vel=sun)
    xs = np.concatenate([xstate(rng) for _ in range(nd)] + [[0.4]])
    rep.close(ri.state_transition_system(jnp.array(xs)), np.concatenate([A @ xs[6 * k:6 * k + 6] for k in range(nd)] + [[sun]]), 'multi-agent drift', 1e-3, 1e-3)
    rep.close(ri.state_transition_input(jnp.array(xs)), np.vstack((B, np.zeros((6 * (nd - 1) + 1, 3)))), 'multi-agent input matrix', 1e-5, 1e-6)


@mon('C21', 'docking prediction', n=5)
def docking_pred(rng, rep, it):
    m, n = [(12.0, 0.1), (5.0, 0.2)][it % 2]
    for mod, cls, dim in ((d2, 'Docking2dExplicitSwitchingRTA', 2), (d3, 'Docking3dExplicitSwitchingRTA', 3)):
        meth = ['RK45', 'Euler'][it % 2]
        r = zoo(mod, cls, m=m, n=n, integration_method=meth)
        A, B = cwh(m, n, dim)
        nx, nu = B.shape
        x, u = rng.uniform(-20, 20, nx), rng.uniform(-1, 1, nu)
        dt = 0.5
        rep.set(cls=cls, m=m, n=n, x=x, u=u, method=meth)
        if meth == 'RK45':
            Ad, Bd = exact(m, n, dt, dim)
            rep.close(r._pred_state(jnp.array(x), dt, jnp.array(u)), Ad @ x + Bd @ u, 'predicted state', 2e-3, 5e-3)
        else:
            rep.close(r._pred_state(jnp.array(x), dt, jnp.array(u)), x + dt * (A @ x + B @ u), 'predicted state', 1e-4, 1e-4)
        for c2 in (cls.replace('ExplicitSwitching', 'ExplicitOptimization'), cls.replace('ExplicitSwitching', 'ImplicitOptimization')):
            o = zoo(mod, c2, m=m, n=n)
            rep.close(o.state_transition_system(jnp.array(x)), A @ x, 'drift', 1e-4, 1e-4, cls=c2)
            rep.close(o.state_transition_input(jnp.array(x)), B, 'input matrix', 1e-5, 1e-6, cls=c2)
    for c in INT1D:
        mm = [1.0, 2.5][it % 2]
        r = zoo(g1, c, m=mm)
        x, u = rng.uniform(-3, 3, 2), rng.uniform(-1, 1, 1)
        rep.set(cls=c, m=mm, x=x, u=u)
        rep.close(r.A, [[0, 1], [0, 0]], 'double integrator system matrix', 0, 1e-7)
        rep.close(r.B, [[0], [1 / mm]], 'double integrator input matrix', 1e-6, 1e-7)
        if 'Switching' in c:
            rep.close(r._pred_state(jnp.array(x), 0.5, jnp.array(u)), [x[0] + 0.5 * x[1], x[1] + 0.5 * u[0] / mm], 'predicted state', 1e-5, 1e-5)
        else:
            rep.close(r.state_transition_system(jnp.array(x)), [x[1], 0], 'drift', 1e-6, 1e-6)
            rep.close(r.state_transition_input(jnp.array(x)), [[0], [1 / mm]], 'input', 1e-6, 1e-6)


# ------------------------------------------------------------------ C22 constraints
def brake(dist, vr, a):
    """braking separation: signed sqrt(2 a dist) + closing rate"""
    return np.sign(dist) * np.sqrt(2 * a * abs(dist)) + vr


def conic(p, v, c, w, fov, a):
    c = c / np.linalg.norm(c)
    th = fov / 2
    pc = p - (p @ c) * c
    mult = np.cos(th) * (np.linalg.norm(pc) - np.tan(th) * (p @ c))
    proj = p + mult * np.sin(th) * c + mult * np.cos(th) * ((p @ c) * c - p) / np.linalg.norm(pc)
    d = np.linalg.norm(p) * np.sin(np.arccos(np.clip(c @ p / np.linalg.norm(p), -1, 1)) - th)
    return brake(d, (p - proj) @ (v - np.cross(w, proj)) / d, a), d


@mon('C22', 'separation', n=12)
def separation(rng, rep, it):
    a, R, rm = float(np.round(rng.uniform(0.01, 0.5), 3)), float(np.round(rng.uniform(5, 40), 1)), float(np.round(rng.uniform(60, 300), 1))
    jit = bool(it % 2)
    cc = i1.ConstraintCWHChiefCollision(collision_radius=7.0, a_max=9.0, jit_enable=jit)
    cm = i1.ConstraintCWHMaxDistance(r_max=17.0, a_max=9.0, jit_enable=jit)
    dep = int(rng.integers(1, 4))
    cd = i3.ConstraintCWHDeputyCollision(collision_radius=3.0, a_max=9.0, deputy=dep, jit_enable=jit)
    for _ in range(5):
        x = np.concatenate((xstate(rng, (R * 0.3, rm * 1.5)), [0, 0]))
        p, v = x[:3], x[3:6]
        r = np.linalg.norm(p)
        rep.set(x=x, a=a, R=R, r_max=rm, jit=jit, deputy=dep)
        P = {'collision_radius': R, 'a_max': a}
        if abs(r - R) > 0.05:
            rep.close(cc.compute(jnp.array(x), P), brake(r - R, p @ v / r, a), 'chief separation with braking distance', 1e-3, 2e-3)
            rep.close(cc.phi(jnp.array(x), P), r - R, 'chief separation, reported', 1e-4, 1e-3)
        if abs(rm - r) > 0.05:
            M = {'r_max': rm, 'a_max': a}
            rep.close(cm.compute(jnp.array(x), M), brake(rm - r, -p @ v / r, a), 'maximum distance with braking distance', 1e-3, 2e-3)
            rep.close(cm.phi(jnp.array(x), M), rm - r, 'maximum distance, reported', 1e-4, 1e-3)
        xs = np.concatenate([xstate(rng, (5, 40)) for _ in range(4)] + [[0.3]])
        dp, dv = xs[:3] - xs[6 * dep:6 * dep + 3], xs[3:6] - xs[6 * dep + 3:6 * dep + 6]
        q = np.linalg.norm(dp)
        rep.set(xs=xs)
        if q > 1 and abs(q - R) > 0.05:
            rep.close(cd.compute(jnp.array(xs), P), brake(q - R, dp @ dv / q, 2 * a), 'deputy separation with braking distance', 1e-3, 2e-3)
            rep.close(cd.phi(jnp.array(xs), P), q - R, 'deputy separation, reported', 1e-4, 1e-3)


@mon('C22', 'sun cone', n=12)
def sun_cone(rng, rep, it):
    a, fov = float(np.round(rng.uniform(0.01, 0.5), 3)), float(np.round(rng.uniform(0.4, 2.2), 2))
    sun = float(np.round(rng.uniform(-0.2, 0.2), 3))
    r = one(m=12.0, n=0.01, sun_vel=sun if it % 2 else 0.05, fov=1.0)
    c = r.constraints['sun']
    sun = sun if it % 2 else 0.05
    for _ in range(6):
        x = np.concatenate((xstate(rng, (10, 100)), [rng.uniform(-3.1, 3.1), 0]))
        cone = -np.array([np.cos(x[6]), np.sin(x[6]), 0])
        ang = np.arccos(np.clip(x[:3] @ cone / np.linalg.norm(x[:3]), -1, 1))
        if abs(ang - fov / 2) < 0.02 or ang < 0.05 or ang > np.pi - 0.05:
            continue
        h, d = conic(x[:3], x[3:6], cone, np.array([0, 0, sun]), fov, a)
        rep.set(x=x, fov=fov, a=a, sun=sun)
        P = {'fov': fov, 'a_max': a}
        rep.close(c._compute(jnp.array(x), P), h, 'sun cone with braking distance', 4e-3, 2e-2)
        rep.close(c.phi(jnp.array(x), P), ang - fov / 2, 'angle outside the cone, reported', 1e-3, 1e-3)


@mon('C22', 'passive safety', n=8)
def psm(rng, rep, it):
    n, m = [0.05, 0.2][it % 2], 12.0
    steps = int(rng.integers(1, 9))
    c = i1.ConstraintPassivelySafeManeuver(collision_radius=1.0, m=m, n=n, dt=7.0, steps=steps, jit_enable=bool(it % 2))
    dep = int(rng.integers(1, 3))
    cd = i3.ConstraintPSMDeputy(collision_radius=1.0, m=m, n=n, dt=7.0, steps=steps, deputy=dep, jit_enable=bool(it % 2))
    for _ in range(4):
        R, dt = float(np.round(rng.uniform(2, 15), 1)), float(np.round(rng.uniform(0.3, 2.5), 2))
        x = np.concatenate((rng.uniform(-20, 20, 3), rng.uniform(-4, 4, 3), [0.3, 0]))
        ks = [exact(m, n, k * dt)[0][:3] for k in range(1, steps + 1)]
        P = {'collision_radius': R, 'dt': dt}
        rep.set(x=x, R=R, dt=dt, steps=steps, n=n)
        e = min(np.linalg.norm(K @ x[:6]) for K in ks) - R
        rep.close(c.compute(jnp.array(x), P), e, 'least coast distance over the horizon', 2e-3, 1e-2)
        rep.close(c.phi(jnp.array(x), P), e, 'least coast distance, reported', 2e-3, 1e-2)
        xs = np.concatenate([np.concatenate((rng.uniform(-20, 20, 3), rng.uniform(-4, 4, 3))) for _ in range(3)] + [[0.2]])
        rep.set(xs=xs, deputy=dep)
        e = min(np.linalg.norm(K @ (xs[:6] - xs[6 * dep:6 * dep + 6])) for K in ks) - R
        rep.close(cd.compute(jnp.array(xs), P), e, 'least distance of two coasting agents', 2e-3, 2e-2)


@mon('C22', 'velocity limits', n=14)
def vel(rng, rep, it):
    v0, v1, dd = float(np.round(rng.uniform(0.05, 1), 2)), float(np.round(rng.uniform(0, 0.5), 3)), float(np.round(rng.uniform(0, 5), 2))
    P = {'v0': v0, 'v1': v1, 'v0_distance': dd}
    jit = bool(it % 2)
    for c, dim in ((d2.ConstraintDocking2dRelativeVelocity(v0=9., v1=9., v0_distance=9., jit_enable=jit), 2),
                   (d3.ConstraintCWH3dRelativeVelocity(v0=9., v1=9., v0_distance=9., jit_enable=jit), 3)):
        for _ in range(4):
            x = np.concatenate((rng.uniform(-20, 20, dim), rng.uniform(-4, 4, dim)))
            xx = np.concatenate((x, [0.3, 1.0])) if dim == 3 and it % 3 else x
            e = v0 + v1 * (np.linalg.norm(x[:dim]) - dd) - np.linalg.norm(x[dim:])
            rep.set(x=xx, P=P, dim=dim, jit=jit)
            rep.close(c.compute(jnp.array(xx), P), e, 'speed below the distance-dependent limit', 1e-3, 6e-3)
            rep.close(c.phi(jnp.array(xx), P), e, 'speed limit, reported', 1e-3, 6e-3)
    ce, ci = g1.ConstraintIntegrator1dDockingCollisionExplicit(jit_enable=jit), g1.ConstraintIntegrator1dDockingCollisionImplicit(jit_enable=jit)
    for _ in range(4):
        x = np.round(rng.uniform(-4, 4, 2), 2)
        rep.set(x=x)
        rep.close(ce.compute(jnp.array(x), {}), -2 * x[0] - x[1]**2, 'one-dimensional stopping distance', 1e-4, 1e-4)
        rep.close(ci.compute(jnp.array(x), {}), -x[0], 'one-dimensional position', 1e-5, 1e-5)
    hc = i1.HOCBFExampleChiefCollision(collision_radius=3.0, jit_enable=jit)
    x = xstate(rng)
    rep.close(hc.compute(jnp.array(x), {'collision_radius': 12.0}), np.linalg.norm(x[:3]) - 12.0, 'chief separation (example)', 1e-4, 1e-3)


@mon('C22', 'agents and sun', n=8)
def agents_sun(rng, rep, it):
    """deputy sun constraint: the cone is tested on the side of the pair that the sun is on"""
    r = multi(num_deputies=3, m=12.0, n=0.01, sun_vel=0.05)
    i = 1 + it % 2
    fov = 1.0
    c = r.constraints[f'deputy_sun_{i}']
    for _ in range(5):
        x = np.concatenate([xstate(rng, (10, 60)) for _ in range(3)] + [[rng.uniform(-3, 3)]])
        cone = -np.array([np.cos(x[-1]), np.sin(x[-1]), 0])
        dp, dv = x[:3] - x[6 * i:6 * i + 3], x[3:6] - x[6 * i + 3:6 * i + 6]
        s = -1 if dp @ cone < 0 else 1
        ang = np.arccos(np.clip(s * dp @ cone / np.linalg.norm(dp), -1, 1))
        if np.linalg.norm(dp) < 3 or abs(dp @ cone) / np.linalg.norm(dp) < 0.02 or abs(ang - fov / 2) < 0.03 or ang < 0.05:
            continue
        h, _ = conic(s * dp, s * dv, cone, np.array([0, 0, 0.05]), fov, 0.2)
        rep.set(x=x, i=i)
        rep.close(c._compute(jnp.array(x), {'fov': fov, 'a_max': 0.2}), h, 'sun cone between two agents', 5e-3, 2e-2)
        rep.close(c.phi(jnp.array(x), {'fov': fov, 'a_max': 0.2}), ang - fov / 2, 'sun cone between two agents, reported', 2e-3, 2e-3)


# ------------------------------------------------------------------ C23 wiring
_zoo, _multi = {}, {}
DOCK = {2: ['Docking2dExplicitSwitchingRTA', 'Docking2dImplicitSwitchingRTA', 'Docking2dExplicitOptimizationRTA', 'Docking2dImplicitOptimizationRTA'],
        3: ['Docking3dExplicitSwitchingRTA', 'Docking3dImplicitSwitchingRTA', 'Docking3dExplicitOptimizationRTA', 'Docking3dImplicitOptimizationRTA']}
INT1D = ['Integrator1dDockingExplicitSwitchingRTA', 'Integrator1dDockingImplicitSwitchingRTA', 'Integrator1dDockingExplicitOptimizationRTA',
         'Integrator1dDockingImplicitOptimizationRTA']


def zoo(mod, cls, **kw):
    k = (cls, tuple(sorted(kw.items())))
    if k not in _zoo:
        _zoo[k] = getattr(mod, cls)(**kw)
    return _zoo[k]


def multi(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _multi:
        _multi[k] = i3.InspectionRTA(**kw)
    return _multi[k]


def val(rng, a, b, d=2):
    return float(np.round(rng.uniform(a, b), d))


def limits(rep, r, lo, hi, name):
    """the limits in force, seen on the filter's own saturation"""
    big = np.full(6, 1e6)[:np.size(hi) if np.ndim(hi) else 1]
    rep.close(np.broadcast_to(r._clip_control(big), np.shape(big)), np.broadcast_to(hi, np.shape(big)), 'upper actuator limit in force', 1e-6, 1e-6, cls=name)
    rep.close(np.broadcast_to(r._clip_control(-big), np.shape(big)), np.broadcast_to(lo, np.shape(big)), 'lower actuator limit in force', 1e-6, 1e-6, cls=name)


@mon('C23', 'docking wiring', n=8)
def docking_wiring(rng, rep, it):
    dim = 2 + it % 2
    mod = {2: d2, 3: d3}[dim]
    cls = DOCK[dim][it // 2 % 4]
    m, n = val(rng, 5, 30), val(rng, 0.02, 0.2, 3)
    kw = dict(m=m, n=n, v0=val(rng, 0.1, 1), v1_coef=val(rng, 0.5, 4), v0_distance=val(rng, 0, 3), x_vel_limit=val(rng, 3, 12), y_vel_limit=val(rng, 3, 12))
    if dim == 3:
        kw['z_vel_limit'] = val(rng, 3, 12)
    hi, lo = val(rng, 0.5, 3), -val(rng, 0.5, 3)
    kw.update(control_bounds_high=hi, control_bounds_low=lo)
    if 'Implicit' in cls:
        kw['backup_window'] = 1.5
    rep.set(cls=cls, kw=kw)
    r = getattr(mod, cls)(**kw)
    names = ['rel_vel', 'x_vel', 'y_vel'] + (['z_vel'] if dim == 3 else [])
    rep.check(list(r.constraints) == names, 'documented constraints', got=list(r.constraints))
    for _ in range(3):
        x = np.concatenate((rng.uniform(-20, 20, dim), rng.uniform(-12, 12, dim)))
        xj = jnp.array(x)
        exp = dict(rel_vel=kw['v0'] + kw['v1_coef'] * n * (np.linalg.norm(x[:dim]) - kw['v0_distance']) - np.linalg.norm(x[dim:]))
        for k, ax in enumerate('xyz'[:dim]):
            exp[ax + '_vel'] = kw[ax + '_vel_limit']**2 - x[dim + k]**2
        rep.set(x=x)
        for k in names:
            c = r.constraints[k]
            rep.close(c.phi(xj, c.params), exp[k], f'{k} uses its own option', 1e-3, 8e-3)
            rep.check(float(c.bias) <= 0, 'bias does not loosen the constraint')
            rep.check(c.enabled, 'enabled')
    limits(rep, r, lo, hi, cls)
    if 'Optimization' in cls:
        rep.check(r.control_dim == dim, 'control dimension')
    if 'Explicit' not in cls or 'Switching' in cls:
        K = lqr(m, n, dim)
        bc = r.backup_controller
        x = rng.uniform(-10, 10, 2 * dim)
        u = np.array(bc.generate_control(jnp.array(x), 0.5))
        rep.close(u, -K @ np.concatenate((np.zeros(dim), x[dim:])), 'backup controller is built for this mass and mean motion', 5e-3, 5e-3)
    if 'Implicit' in cls:
        rep.check(r.backup_window == 1.5, 'backup window option')
        other = Fixed(dim)
        r2 = getattr(mod, cls)(backup_controller=other, **kw)
        rep.check(r2.backup_controller is other, 'given backup controller is used')


class Fixed(i1.RTABackupController if hasattr(i1, 'RTABackupController') else d2.RTABackupController):
    def __init__(self, dim):
        self.dim = dim
        super().__init__()

    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.zeros(self.dim), None


def lqr(m, n, dim):
    from scipy.linalg import solve_continuous_are
    A, B = cwh(m, n, dim)
    Q, R = 0.05 * np.eye(2 * dim), 1000 * np.eye(dim)
    if dim == 3:
        Q = DOCK3_Q()
    P = solve_continuous_are(A, B, Q, R)
    return np.linalg.inv(R) @ B.T @ P


def DOCK3_Q():
    return 0.05 * np.eye(6)


@mon('C23', 'integrator wiring', n=8)
def int_wiring(rng, rep, it):
    cls = INT1D[it % 4]
    m, hi, lo = val(rng, 0.5, 3), val(rng, 0.5, 3), -val(rng, 0.5, 3)
    kw = dict(m=m, control_bounds_high=hi, control_bounds_low=lo)
    if 'Implicit' in cls:
        kw['backup_window'] = 1.5
    rep.set(cls=cls, kw=kw)
    r = getattr(g1, cls)(**kw)
    rep.check(list(r.constraints) == ['rel_vel'], 'documented constraints', got=list(r.constraints))
    x = np.round(rng.uniform(-4, 4, 2), 2)
    c = r.constraints['rel_vel']
    rep.close(c.phi(jnp.array(x), c.params), -x[0] if 'Implicit' in cls else -2 * x[0] - x[1]**2, 'constraint of this filter', 1e-4, 1e-4, x=x)
    limits(rep, r, lo, hi, cls)
    if 'Optimization' in cls:
        rep.check(r.control_dim == 1, 'control dimension')
    if 'backup_window' in kw:
        rep.check(r.backup_window == 1.5, 'backup window option')
    if cls != INT1D[2]:
        rep.close(r.backup_controller.generate_control(jnp.array(x), 0.3), [-1], 'backup controller brakes', 0, 0)


def insp_kw(rng):
    return dict(m=val(rng, 5, 30), n=val(rng, 0.02, 0.1, 3), chief_radius=val(rng, 2, 9), deputy_radius=val(rng, 2, 9), v0=val(rng, 0.1, 1), v1_coef=val(rng, 0.5, 4),
                v0_distance=val(rng, 0, 3), r_max=val(rng, 5, 15), fov=val(rng, 0.5, 2), vel_limit=val(rng, 0.2, 0.9), sun_vel=val(rng, -0.1, 0.1, 3))


def insp_expect(kw, x, cone):
    m, n = kw['m'], kw['n']
    p, v = x[:3], x[3:6]
    R = kw['chief_radius'] + kw['deputy_radius']
    e = {'rel_vel': kw['v0'] + kw['v1_coef'] * n * (np.linalg.norm(p) - kw['v0_distance']) - np.linalg.norm(v), 'r_max': kw['r_max'] - np.linalg.norm(p),
         'PSM': min(np.linalg.norm((exact(m, n, float(k))[0] @ x[:6])[:3]) for k in range(1, 101)) - R}
    for k, ax in enumerate('xyz'):
        e[ax + '_vel'] = kw['vel_limit']**2 - v[k]**2
    e['chief_collision'] = e['chief_collision_hocbf'] = np.linalg.norm(p) - R
    e['sun'] = e['chief_sun'] = np.arccos(np.clip(p @ cone / np.linalg.norm(p), -1, 1)) - kw['fov'] / 2
    return e


def a_max(kw):
    vm = min(kw['vel_limit'], kw['v0'] + kw['v1_coef'] * kw['n'] * kw['r_max'])
    return 1 / kw['m'] - 3 * kw['n']**2 * kw['r_max'] - 2 * kw['n'] * vm


NAMES1 = ['rel_vel', 'sun', 'r_max', 'PSM', 'x_vel', 'y_vel', 'z_vel']


@mon('C23', 'inspection wiring', n=6)
def insp_wiring(rng, rep, it):
    kw = insp_kw(rng)
    hi, lo = val(rng, 0.5, 3), -val(rng, 0.5, 3)
    kind = ['1v1', 'hocbf', 'discrete', 'multi'][it % 4]
    args = dict(kw, control_bounds_high=hi, control_bounds_low=lo)
    nd = 1
    if kind in ('1v1', 'hocbf'):
        r = i1.Inspection1v1RTA(use_hocbf=kind == 'hocbf', **args)
        names = NAMES1 + (['chief_collision_hocbf'] if kind == 'hocbf' else ['chief_collision'])
        ns = 8
        hc = r.constraints.get(names[-1])
        if hc is not None:
            x = np.array([30.0, -20.0, 25.0, 0.3, 0.2, -0.1, 0.4, 0.0])
            w = np.array(hc.grad(jnp.array(x), hc.params))[3:6]
            rep.check(bool(np.linalg.norm(w) > 1e-3), 'the collision barrier depends on the control', name=names[-1], gradient=w)
    elif kind == 'discrete':
        r = i1.DiscreteInspection1v1RTA(**args)
        names, ns = NAMES1 + ['chief_collision'], 8
    else:
        nd = 2 + it % 3
        r = i3.InspectionRTA(num_deputies=nd, **args)
        names = ['chief_sun' if k == 'sun' else k for k in NAMES1] + ['chief_collision'] + [f'{a}_{i}' for i in range(1, nd) for a in
                                                                                            ('deputy_collision', 'deputy_sun', 'deputy_PSM')]
        ns = 6 * nd + 1
    rep.set(kind=kind, kw=args, num_deputies=nd)
    rep.check(sorted(r.constraints) == sorted(names), 'documented constraints', got=list(r.constraints))
    rep.check(r.control_dim == 3, 'control dimension')
    limits(rep, r, lo, hi, kind)
    am = a_max(kw)
    for _ in range(3):
        x = np.concatenate([xstate(rng, (3, 12), 1.0) for _ in range(nd)] + [[rng.uniform(-3, 3)]] + ([[0.0]] if nd == 1 else []))
        cone = -np.array([np.cos(x[6 * nd]), np.sin(x[6 * nd]), 0])
        e = insp_expect(kw, x, cone)
        for i in range(1, nd):
            dp = x[:3] - x[6 * i:6 * i + 3]
            dx = x[:6] - x[6 * i:6 * i + 6]
            e[f'deputy_collision_{i}'] = np.linalg.norm(dp) - 2 * kw['deputy_radius']
            e[f'deputy_PSM_{i}'] = min(np.linalg.norm((exact(kw['m'], kw['n'], float(k))[0] @ dx)[:3]) for k in range(1, 101)) - kw['chief_radius'] - kw['deputy_radius']
            s = -1 if dp @ cone < 0 else 1
            e[f'deputy_sun_{i}'] = np.arccos(np.clip(s * dp @ cone / np.linalg.norm(dp), -1, 1)) - kw['fov'] / 2
        rep.set(x=x)
        for k in names:
            c = r.constraints[k]
            rep.close(c.phi(jnp.array(x), c.params), e[k], f'{k} uses its own options', 3e-3, 3e-2)
            rep.check(c.enabled and float(c.bias) <= 0, 'enabled, not loosened', name=k)
            if 'a_max' in c.params:
                rep.close(c.params['a_max'], am, f'{k}: available braking acceleration', 1e-4, 1e-6)
        pr = r.constraints['chief_sun' if nd > 1 else 'sun']
        rep.close(pr.cone_ang_vel, [0, 0, kw['sun_vel']], 'sun rate', 1e-5, 1e-7)
    for k in ('PSM', ) + tuple(f'deputy_PSM_{i}' for i in range(1, nd)):
        rep.check(r.constraints[k].steps == 100 and float(r.constraints[k].params['dt']) == 1, 'coast horizon')


# ------------------------------------------------------------------ C16
class Agent(Raw):
    def compute_filtered_control(self, s, dt, u):
        self.calls.append((np.array(s), dt, np.array(u)))
        k = np.arange(1, len(s) + 1)
        out = 0.1 * np.array([np.sin(k @ s), np.cos(k @ s), np.sin(2 * (k @ s))]) + 0.5 * u
        self.intervening = bool(np.sin(3 * (k @ s)) > 0.3)
        return out

    def reset(self):
        super().reset()
        self.nreset += 1


def agent():
    a = Agent.__new__(Agent)
    RTAModule.__init__(a)
    a.calls, a.nreset = [], 0
    return a


@mon('C16', 'combined filter', n=40)
def combined(rng, rep, it):
    nd = int(rng.integers(1, 9))
    a = agent()
    sun = bool(it % 2)
    lo, hi = [(-1, 1), (-0.1, 0.1), (None, None)][it % 3]
    c = i3.CombinedInspectionRTA(num_deputies=nd, deputy_rta=a, control_bounds_low=lo, control_bounds_high=hi)
    for _ in range(3):
        s = np.round(rng.uniform(-2, 2, 6 * nd + (1 if sun else 0)), 2)
        u = np.round(rng.uniform(-2, 2, 3 * nd), 2)
        s0, u0 = s.copy(), u.copy()
        rep.set(nd=nd, state=s, u=u, bounds=(lo, hi))
        a.calls.clear()
        got = c.filter_control(s, 0.5, u)
        b = agent()
        exp, iv = [], False
        for i in range(nd):
            own = s0[6 * i:6 * i + 6]
            x = np.concatenate([own] + [s0[6 * j:6 * j + 6] for j in range(nd) if j != i] + [s0[6 * nd:]])
            exp.append(b.filter_control(x, 0.5, u0[3 * i:3 * i + 3]))
            iv = iv or b.intervening
        exp = np.concatenate(exp)
        if lo is not None:
            exp = np.clip(exp, lo, hi)
        rep.close(got, exp, 'each agent is filtered with its own state first and placed in its own slice', 1e-6, 1e-6)
        rep.check(bool(c.intervening) == iv, 'intervening exactly when some agent intervened', got=c.intervening, expected=iv)
        rep.check(all(dt == 0.5 for _, dt, _ in a.calls), 'same step size')
        rep.same(s, s0, 'state unchanged')
        rep.same(u, u0, 'desired control unchanged')


@mon('C17', 'combined reset', n=6)
def combined_reset(rng, rep, it):
    a = agent()
    c = i3.CombinedInspectionRTA(num_deputies=2, deputy_rta=a)
    c.filter_control(rng.uniform(-1, 1, 13), 0.5, np.zeros(6))
    c.reset()
    rep.check(a.nreset >= 1 and not a.intervening and not c.intervening, 'member filter is reset')


# ------------------------------------------------------------------ C24 delta-v
_sdv = {}


def sdv(m, n, limit, steps, **kw):
    k = (m, n)
    if k not in _sdv:
        with riccati(m, n):
            _sdv[k] = i1.SwitchingDeltaVLimitRTA(m=m, n=n)
    r = _sdv[k]
    r.delta_v_limit, r.n_steps = limit, steps
    r.reset()
    return r


@contextlib.contextmanager
def riccati(m, n):
    """the Riccati solver is a dependency, and for most (m, n) the integrator-augmented problem is too badly conditioned for it: a stand-in that
    checks the equation it is given (same quadratic form) and returns a fixed positive matrix"""
    import scipy.linalg as sl
    old = sl.solve_continuous_are
    here = [k for k, v in vars(i1).items() if v is old]

    def stub(a, b, q, r, *args, **kw):
        if np.shape(a) == (12, 12):
            A, B = cwh(m, n)
            ok = np.allclose(a, np.block([[A, np.zeros((6, 6))], [np.eye(6), np.zeros((6, 6))]])) and np.allclose(b, np.vstack((B, np.zeros((6, 3)))))
            assert ok, 'the gain is computed for another system'
            return sdv_p()
        return old(a, b, q, r, *args, **kw)

    try:
        sl.solve_continuous_are = stub
        for k in here:
            setattr(i1, k, stub)
        yield
    finally:
        sl.solve_continuous_are = old
        for k in here:
            setattr(i1, k, old)


def sdv_p():
    M = np.random.default_rng(5).normal(size=(12, 12))
    return (M @ M.T + 12 * np.eye(12)) * 4e3


def sdv_gains(m, n):
    _, B = cwh(m, n)
    Bi = np.vstack((B, np.zeros((6, 3))))
    K = Bi.T @ sdv_p() / 1e5
    return K[:, :6], K[:, 6:]


@mon('C24', 'delta-v filter', n=24)
def deltav(rng, rep, it):
    m, n = [(12.0, 0.1), (12.0, 0.2)][it % 2]
    A, B = cwh(m, n)
    K1, K2 = sdv_gains(m, n)
    N = int(rng.integers(1, 25))
    limit = val(rng, 3, 12)
    dt = float(rng.choice([0.5, 1.0]))
    r = sdv(m, n, limit, N)
    rep.set(m=m, n=n, limit=limit, n_steps=N, dt=dt)

    def step(x, u):
        return x + dt * np.concatenate((A @ x[:6] + B @ u, [-n, np.abs(u).sum() / m]))

    def back(x, e):
        err = np.array([0, 0, 0, x[3] - n / 2 * x[1], x[4] + 2 * n * x[0], 0])
        return np.clip(-K1 @ err - K2 @ e, -1, 1), e + err * dt

    e, latched = np.zeros(6), False
    hist = []
    for k in range(7):
        if k and rng.random() < 0.15:
            r.reset()
            e, latched = np.zeros(6), False
            hist.append('reset')
        x = np.concatenate((rng.uniform(-60, 60, 3), rng.uniform(-1, 1, 3), [0.3, max(0, limit - rng.uniform(0, 3))]))
        u = np.round(rng.uniform(-1, 1, 3), 2)
        e0 = e.copy()
        if not latched:
            p, ee = step(x, u), e.copy()
            worst = -np.inf
            for _ in range(N):
                ub, ee = back(p, ee)
                p = step(p, ub)
                worst = max(worst, p[7])
            if abs(worst - limit) < 1e-4:
                continue
            on = worst > limit
        else:
            on = True
        hist.append((x, u))
        rep.set(history=list(hist), latched=latched, on=on)
        got = r.filter_control(x.copy(), dt, u.copy())
        if on:
            exp, e = back(x, e)
            latched = True
        else:
            exp = u
        rep.close(got, exp, 'backup exactly from the call in which the prediction exceeds the limit', 1e-4, 1e-5)
        rep.check(bool(r.intervening) == on, 'intervening exactly on backup', got=r.intervening)
        rep.close(r.error_integral, e, 'integrator advances once per applied backup control', 1e-5, 1e-6)


@mon('C24', 'delta-v limits', n=6)
def deltav_limits(rng, rep, it):
    r = sdv(12.0, 0.1, 1e9, 3)
    u = rng.uniform(-3, 3, 3)
    x = np.concatenate((rng.uniform(-60, 60, 3), rng.uniform(-1, 1, 3), [0.3, 0]))
    rep.set(x=x, u=u)
    got = r.filter_control(x, 1.0, u.copy())
    rep.close(got, np.clip(u, -1, 1), 'desired control within the actuator limits', 1e-6, 1e-6)
    rep.check(not r.intervening, 'not intervening')


@mon('C17', 'delta-v reset', n=3)
def deltav_reset(rng, rep, it):
    r = sdv(12.0, 0.1, 0.5, 5)
    x = np.concatenate((rng.uniform(-60, 60, 3), rng.uniform(-1, 1, 3), [0.3, 1.0]))
    u0 = r.filter_control(x, 1.0, np.zeros(3))
    rep.check(r.intervening, 'switched')
    for _ in range(3):
        r.filter_control(x, 1.0, np.zeros(3))
    r.reset()
    rep.check(not r.intervening and np.all(r.error_integral == 0), 'integrator and flag cleared')
    rep.close(r.filter_control(x, 1.0, np.zeros(3)), u0, 'after a reset the filter behaves like a new one', 1e-6, 1e-6)


# ------------------------------------------------------------------ C27 backup controllers
_lq = {}


@mon('C27', 'docking lqr', n=8)
def lq(rng, rep, it):
    dim = 2 + it % 2
    m, n = [(12.0, 0.001027), (5.0, 0.05)][it // 2 % 2]
    k = (dim, m, n)
    if k not in _lq:
        _lq[k] = (d2.Docking2dStopLQRBackupController if dim == 2 else d3.Docking3dStopLQRBackupController)(m=m, n=n)
    c = _lq[k]
    K = lqr(m, n, dim)
    for _ in range(5):
        x = rng.uniform(-50, 50, 2 * dim)
        rep.set(x=x, m=m, n=n, dim=dim)
        u = c.generate_control(jnp.array(x), float(rng.choice([0.1, 1.0])))
        rep.close(u, -K @ np.concatenate((np.zeros(dim), x[dim:])), 'negative gain times the velocity error', 5e-3, 5e-3)
        y = np.concatenate((rng.uniform(-50, 50, dim), x[dim:]))
        rep.close(c.generate_control(jnp.array(y), 1.0), u, 'independent of the position and of earlier calls', 1e-4, 1e-4, y=y)
        z = np.concatenate((x[:dim], np.zeros(dim)))
        rep.close(c.generate_control(jnp.array(z), 1.0), np.zeros(dim), 'nothing at rest', 0, 1e-7)
        rep.check(c.controller_state is None, 'stateless')


@mon('C27', 'one-dimensional braking', n=20)
def braking(rng, rep, it):
    c = g1.Integrator1dDockingBackupController()
    x = np.round(rng.uniform(-10, 10, 2), 2)
    rep.set(x=x)
    rep.close(c.generate_control(jnp.array(x), 0.7), [-1], 'full braking in every state', 0, 0)
    ce = g1.ConstraintIntegrator1dDockingCollisionExplicit(jit_enable=False)
    v = abs(x[1])
    p = -v * v / 2 - float(rng.uniform(0, 3))
    rep.check(float(ce.compute(jnp.array([p, v]), {})) >= -1e-4, 'state that can stop is safe')
    p2 = -v * v / 2 + float(rng.uniform(0.05, 3))
    rep.check(float(ce.compute(jnp.array([p2, v]), {})) < 0 or v < 0.05 and p2 < 0, 'state that cannot stop is unsafe', p=p2, v=v)
    ts = np.linspace(0, 3 * v + 1, 50)
    rep.check(np.all(p + v * ts - ts**2 / 2 <= 1e-6), 'braking never passes the docking position')
