"""Independent numpy reference of the documented behaviour, and random users of the library."""
from __future__ import annotations
from collections import OrderedDict
import numpy as np
import jax.numpy as jnp
from run_time_assurance.constraint import ConstraintModule, ConstraintStrengthener, PolynomialConstraintStrengthener, DirectInequalityConstraint
from run_time_assurance.controller import RTABackupController


class Dyn:
    """x' = f(x) + g(x) u, nonlinear, with known jacobians"""

    def __init__(self, rng, nx=None, nu=None):
        self.nx = int(nx or rng.integers(1, 5))
        self.nu = int(nu or rng.integers(1, 4))
        r = lambda *s: np.round(rng.uniform(-1, 1, s), 2)
        self.A, self.C = r(self.nx, self.nx) * 0.5, r(self.nx) * 0.3
        self.B, self.G = r(self.nx, self.nu), 0.2

    def f(self, x, xp=np):
        return self.A @ x + self.C * xp.sin(x)

    def g(self, x, xp=np):
        return self.B * (1 + self.G * xp.sin(x[0]))

    def df(self, x):
        return self.A + np.diag(self.C * np.cos(x))

    def dg_dot(self, x, u):
        """d/dx (g(x) u) with u constant"""
        J = np.zeros((self.nx, self.nx))
        J[:, 0] = (self.B @ u) * self.G * np.cos(x[0])
        return J

    def step(self, x, dt, u, xp=np):
        return x + dt * (self.f(x, xp) + self.g(x, xp) @ u)


class Con(ConstraintModule):
    """h(x) = b + a.x - q |x|^2"""

    def _compute(self, state, params):
        return params['b'] + params['a'] @ state - params['q'] * (state @ state)


class Alpha(ConstraintStrengthener):
    def __init__(self, c1, c3):
        self.c1, self.c3 = c1, c3

    def __call__(self, x):
        return self.c1 * x + self.c3 * x**3


def h(p, x):
    return float(p['b']) + np.asarray(p['a'], float) @ x - float(p['q']) * (x @ x)


def dh(p, x):
    return np.asarray(p['a'], float) - 2 * float(p['q']) * x


def rand_params(rng, nx):
    return {'a': jnp.array(np.round(rng.uniform(-1, 1, nx), 2)), 'b': float(np.round(rng.uniform(-0.3, 1.5), 2)),
            'q': float(np.round(rng.uniform(-0.1, 0.3), 2))}


class CSpec:
    """reference description of one constraint"""


def rand_constraints(rng, nx, n, slack=0.0, negative=0.5, sub=None):
    specs = OrderedDict()
    for i in range(n):
        s = CSpec()
        s.par = rand_params(rng, nx)
        s.c1, s.c3 = float(np.round(rng.uniform(0.2, 1.5), 2)), float(np.round(rng.uniform(0, 0.5), 2))
        s.neg = (float(np.round(rng.uniform(0.5, 3), 2)), float(np.round(rng.uniform(0, 1), 2))) if rng.random() < negative else None
        s.bias = float(np.round(rng.choice([0, 0, -0.05, 0.02]), 3))
        s.bias_negative = float(np.round(rng.choice([-0.01, -0.1, 0.03]), 3))
        s.slack = float(rng.choice([1e4, 1e6])) if rng.random() < slack else None
        s.enabled = True
        s.sub = dict(sub(rng)) if sub else {}
        specs[f'con_{"zyxwvuts"[i]}'] = s      # names in non-alphabetical order
    return specs


def build_constraints(specs, jit=True):
    out = OrderedDict()
    for k, s in specs.items():
        s.obj = Con(alpha=Alpha(s.c1, s.c3), alpha_negative=None if s.neg is None else Alpha(*s.neg), bias=s.bias, bias_negative=s.bias_negative,
                    params=dict(s.par), slack_priority_scale=s.slack, jit_enable=jit, enabled=s.enabled, **s.sub)
        out[k] = s.obj
    return out


def set_param(s, name, v):
    s.par[name] = v
    s.nset = getattr(s, 'nset', 0) + 1
    if s.nset % 2:
        s.obj.params = dict(s.obj.params, **{name: v})      # replaced
    else:
        s.obj.params[name] = v                              # changed in place


def set_enabled(s, v):
    s.enabled = v
    s.obj.enabled = v


class Backup(RTABackupController):
    """u = -K x + cs ; cs' = 0.9 cs + dt * L x   (stateful)"""

    def __init__(self, K, L, init, jit_enable=False, kind='array'):
        self.K, self.L, self.kindcs = K, L, kind
        cs = {'array': jnp.array(init), 'dict': {'i': jnp.array(init)}, 'none': None}[kind]
        super().__init__(controller_state_initial=cs, jit_enable=jit_enable)

    def _generate_control(self, state, step_size, controller_state=None):
        if controller_state is None:
            return -self.K @ state, None
        cs = controller_state['i'] if isinstance(controller_state, dict) else controller_state
        u = -self.K @ state + cs
        new = 0.9 * cs + step_size * (self.L @ state)
        if isinstance(controller_state, dict):
            return u, {'i': new}
        return u, new


class RefBackup:
    def __init__(self, K, L, init, kind='array'):
        self.K, self.L, self.kind = K, L, kind
        self.init = np.array(init, float)
        self.reset()

    def reset(self):
        self.cs = None if self.kind == 'none' else self.init.copy()

    def gen(self, x, dt, cs):
        if cs is None:
            return -self.K @ x, None
        return -self.K @ x + cs, 0.9 * cs + dt * (self.L @ x)


def rand_backup(rng, d, kind=None):
    kind = kind or str(rng.choice(['array', 'dict', 'none']))
    K, L = np.round(rng.uniform(-0.8, 0.8, (d.nu, d.nx)), 2), np.round(rng.uniform(-0.5, 0.5, (d.nu, d.nx)), 2)
    init = np.round(rng.uniform(-0.3, 0.3, d.nu), 2)
    return (K, L, init, kind)


def rand_bounds(rng, nu, kinds=('none', 'scalar', 'vector', 'list')):
    k1, k2 = str(rng.choice(list(kinds))), str(rng.choice(list(kinds)))
    lo, hi = np.round(-rng.uniform(0.2, 1.0, nu), 2), np.round(rng.uniform(0.2, 1.0, nu), 2)

    def mk(k, v):
        if k == 'none':
            return None, None
        if k == 'scalar':
            return float(v[0]), np.full(nu, v[0])
        if k == 'vector':
            return np.array(v), np.array(v)
        return [float(x) for x in v], np.array(v)

    (lv, lr), (hv, hr) = mk(k1, lo), mk(k2, hi)
    return dict(lo=lv, hi=hv, rlo=lr, rhi=hr, kinds=(k1, k2))


def clip(u, b):
    u = np.array(u, float)
    if b['rlo'] is not None:
        u = np.maximum(u, b['rlo'])
    if b['rhi'] is not None:
        u = np.minimum(u, b['rhi'])
    return u


def cs_value(bc):
    cs = bc.controller_state
    if cs is None:
        return None
    return np.asarray(cs['i'] if isinstance(cs, dict) else cs, float)


class RefSimplex:
    def __init__(self, d, specs, rb, bounds, latch, window=None):
        self.d, self.specs, self.rb, self.b, self.latch, self.window = d, specs, rb, bounds, latch, window
        self.reset()

    def reset(self):
        self.iv, self.le, self.enable = False, 0.0, True
        self.rb.reset()

    def margin(self, x, dt, u):
        """smallest enabled constraint value along the look-ahead"""
        u = clip(u, self.b)
        x = self.d.step(x, dt, u)
        pts = [x]
        if self.window is not None:
            cs = self.rb.cs
            for _ in range(int(self.window / dt)):
                ub, cs = self.rb.gen(x, dt, cs)
                x = self.d.step(x, dt, clip(ub, self.b))
                pts.append(x)
        m = [h(s.par, p) + s.bias for s in self.specs.values() if s.enabled for p in pts]
        return min(m) if m else np.inf

    def filter(self, x, dt, u):
        if not self.enable:
            self.iv = False
            return np.array(u, float)
        if self.iv and self.le < self.latch:
            self.le += dt
            on = True
        else:
            self.le = 0.0
            on = self.margin(x, dt, u) < 0
        self.iv = on
        if on:
            ub, self.rb.cs = self.rb.gen(x, dt, self.rb.cs)
            return clip(ub, self.b)
        return clip(u, self.b)
