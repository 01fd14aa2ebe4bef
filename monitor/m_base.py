"""filter-call level contracts (RTAModule)"""
import numpy as np
import jax.numpy as jnp
from monitor.common import mon
from monitor.ref import rand_bounds, clip
from run_time_assurance.rta.base import RTAModule


class Raw(RTAModule):
    def __init__(self, raw, iv, **kw):
        self.raw, self.iv, self.calls = raw, iv, 0
        super().__init__(**kw)

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.calls += 1
        self.intervening = self.iv
        return self.raw if self.raw is not None else control_desired


def one(rng, rep, alias):
    nu = int(rng.integers(1, 5))
    b = rand_bounds(rng, nu)
    raw = None if alias else np.round(rng.uniform(-2, 2, nu), 3)
    if raw is not None and rng.random() < 0.3:
        raw = jnp.array(raw)
    m = Raw(raw, bool(rng.random() < 0.5), control_bounds_low=b['lo'], control_bounds_high=b['hi'])
    rep.set(nu=nu, bounds=b['kinds'], lo=b['lo'], hi=b['hi'], raw=raw)
    for step in range(6):
        u = np.round(rng.uniform(-2, 2, nu), 3)
        x = rng.uniform(-1, 1, 3)
        u0, x0 = u.copy(), x.copy()
        m.enable = bool(rng.random() < 0.7)
        rep.set(step=step, u=u0, enable=m.enable)
        n0 = m.calls
        r = m.filter_control(x, 0.1, u)
        exp = u0 if not m.enable else clip(u0 if raw is None else np.asarray(raw), b)
        yield m, u, u0, x, x0, r, exp, n0, b, step


@mon('C01', 'limits', n=60)
def limits(rng, rep, it):
    for m, u, u0, x, x0, r, exp, n0, b, step in one(rng, rep, it % 3 == 2):
        if m.enable:
            rep.close(r, exp, 'returned control is the raw control saturated to the limits', 1e-6, 1e-6)
            if b['rlo'] is not None:
                rep.check(np.all(np.asarray(r) >= b['rlo'] - 1e-7), 'returned control below the lower limit', r=r)
            if b['rhi'] is not None:
                rep.check(np.all(np.asarray(r) <= b['rhi'] + 1e-7), 'returned control above the upper limit', r=r)
            rep.close(m.control_actual, exp, 'recorded actual control within limits', 1e-6, 1e-6)


@mon('C02', 'disabled', n=60)
def disabled(rng, rep, it):
    for m, u, u0, x, x0, r, exp, n0, b, step in one(rng, rep, it % 3 == 2):
        if not m.enable:
            rep.same(r, u0, 'disabled filter returns the desired control')
            rep.same(m.control_actual, u0, 'disabled filter records the desired control as applied')
            rep.same(m.control_desired, u0, 'disabled filter records the desired control')
            rep.check(m.calls == n0, 'disabled filter does not run')
            rep.check(not m.intervening, 'disabled filter reports no intervention')
            rep.check(m.enable is False or m.enable == False, 'enable flag unchanged')  # noqa
        else:
            rep.check(m.calls == n0 + 1, 'enabled filter runs once')


@mon('C03', 'frame', n=60)
def frame(rng, rep, it):
    for m, u, u0, x, x0, r, exp, n0, b, step in one(rng, rep, it % 3 == 2):
        alias_checks(rep, m, u, u0, x, x0, r)


def alias_checks(rep, m, u, u0, x, x0, r):
    rep.same(u, u0, 'desired control argument unchanged')
    rep.same(x, x0, 'state argument unchanged')
    rep.check(isinstance(r, np.ndarray), 'returns a numpy array')
    rep.close(m.control_desired, u0, 'recorded desired control', 1e-7, 1e-7)
    rep.same(m.control_actual, r, 'recorded actual control equals the returned control')
    info = m.generate_info()
    rep.close(info['control_desired'], u0, 'info desired control', 1e-7, 1e-7)
    rep.same(info['control_actual'], r, 'info actual control')
    rep.check(bool(info['enable']) == bool(m.enable) and bool(info['intervening']) == bool(m.intervening), 'info flags')
    keep = np.array(r)
    r += 1.0
    u += 2.0
    rep.close(m.control_desired, u0, 'recorded desired control does not alias the argument', 1e-7, 1e-7)
    rep.same(m.control_actual, keep, 'recorded actual control does not alias the returned array')
    r -= 1.0
    u[:] = u0
