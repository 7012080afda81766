"""An independent reference model of the physics and of the optimisation's parametrisation.

Written from the published FDFD equations, with none of angler's code, to be used as an oracle.
Fields are arrays (Nx, Ny) on a grid that wraps around; PML is by complex coordinate stretching.
"""
import numpy as np

from vsim.seams import REAL

EPS0 = 8.85418782e-12
MU0 = 1.25663706e-6
ETA0 = np.sqrt(MU0/EPS0)


def stretch(n, npml, h, omega, L0, shift):
    """1/s for each point; shift is +0.5 on the forward and +1 on the backward lattice"""
    s = np.ones(n, dtype=complex)
    if npml < 1:
        return s
    d = npml*h
    sig_max = 5*12/(2*ETA0*d)
    for i in range(n):
        if i <= npml:
            depth = h*(npml - i + shift)
        elif i > n - npml:
            depth = h*(i - (n - npml) - shift)
        else:
            continue
        s[i] = 1 - 1j*sig_max*(depth/d)**4/(omega*EPS0*L0)
    return 1/s


class Ref:
    """The discretised Maxwell equations of one problem"""

    def __init__(self, pol, eps, omega, dl, npml, L0=1e-6):
        eps = np.asarray(eps)
        if eps.ndim == 1:
            eps = eps.reshape((-1, 1))
        self.pol, self.omega, self.dl, self.L0 = pol, omega, dl, L0
        self.eps = eps
        self.npml = npml
        self.shape = eps.shape
        self.e0 = EPS0*L0
        self.m0 = MU0*L0
        nx, ny = eps.shape
        self.sxf = stretch(nx, npml[0], dl, omega, L0, 0.5)[:, None]
        self.sxb = stretch(nx, npml[0], dl, omega, L0, 1.0)[:, None]
        self.syf = stretch(ny, npml[1], dl, omega, L0, 0.5)[None, :]
        self.syb = stretch(ny, npml[1], dl, omega, L0, 1.0)[None, :]
        self._lu = None
        self._A = None

    # derivatives acting on fields
    def dxf(self, f):
        if self.shape[0] == 1:
            return 0*f
        return self.sxf*(np.roll(f, -1, 0) - f)/self.dl

    def dxb(self, f):
        if self.shape[0] == 1:
            return 0*f
        return self.sxb*(f - np.roll(f, 1, 0))/self.dl

    def dyf(self, f):
        if self.shape[1] == 1:
            return 0*f
        return self.syf*(np.roll(f, -1, 1) - f)/self.dl

    def dyb(self, f):
        if self.shape[1] == 1:
            return 0*f
        return self.syb*(f - np.roll(f, 1, 1))/self.dl

    def edge_eps(self):
        """the permittivity at the two edges of each cell, times epsilon_0"""
        e = self.e0*self.eps
        return (e + np.roll(e, 1, 0))/2, (e + np.roll(e, 1, 1))/2

    def apply(self, f, eps_nl=0):
        """The system's operator on the out-of-plane field"""
        if self.pol == 'Ez':
            return (self.dxf(self.dxb(f)) + self.dyf(self.dyb(f)))/self.m0 \
                + self.omega**2*self.e0*(self.eps + eps_nl)*f
        ex, ey = self.edge_eps()
        out = self.dxf(self.dxb(f)/ex) + self.dyf(self.dyb(f)/ey) + self.omega**2*self.m0*f
        if np.any(eps_nl):
            out = out + self.omega**2*self.e0*eps_nl*f
        return out

    def matrix(self):
        """The same operator as a sparse matrix, assembled stencil entry by stencil entry"""
        if self._A is not None:
            return self._A
        nx, ny = self.shape
        idx = np.arange(nx*ny).reshape(self.shape)
        one = np.ones(self.shape)
        if self.pol == 'Ez':
            cx, cy, diag = one/self.m0, one/self.m0, self.omega**2*self.e0*self.eps
        else:
            ex, ey = self.edge_eps()
            cx, cy, diag = 1/ex, 1/ey, self.omega**2*self.m0*one
        rows, cols, vals = [idx], [idx], [diag.astype(complex)]

        def add(axis, sf, sb, c):
            if self.shape[axis] == 1:
                return
            g = sb*c/self.dl**2*one               # flux through the backward edge of each cell
            g_next = np.roll(g, -1, axis)
            nxt, prv = np.roll(idx, -1, axis), np.roll(idx, 1, axis)
            for (col, val) in [(nxt, sf*g_next), (idx, -sf*g_next), (idx, -sf*g), (prv, sf*g)]:
                rows.append(idx)
                cols.append(col)
                vals.append(val*one)
        add(0, self.sxf, self.sxb, cx)
        add(1, self.syf, self.syb, cy)
        n = nx*ny
        self._A = REAL.coo_matrix(
            (np.concatenate([v.ravel() for v in vals]),
             (np.concatenate([r.ravel() for r in rows]), np.concatenate([c.ravel() for c in cols]))),
            shape=(n, n)).tocsc()
        return self._A

    def solve_z(self, src):
        src = np.asarray(src, dtype=complex).reshape(self.shape)
        if not src.any():
            return np.zeros(self.shape, dtype=complex)
        if self._lu is None:
            self._lu = REAL.splu(self.matrix())
        return self._lu.solve(1j*self.omega*src.ravel()).reshape(self.shape)

    def resolve(self, f, eps_nl, src):
        """One linear solve with the permittivity changed by eps_nl"""
        w = self.omega**2*self.e0*np.asarray(eps_nl, dtype=complex).ravel()
        b = 1j*self.omega*np.asarray(src, dtype=complex).ravel()
        return REAL.splu((self.matrix() + REAL.diags(w)).tocsc()).solve(b).reshape(self.shape)

    def derived(self, f, averaging=False, eps_nl=0):
        """The in-plane components that belong to an out-of-plane field"""
        if self.pol == 'Ez':
            return (-1/1j/self.omega/self.m0*self.dyb(f), 1/1j/self.omega/self.m0*self.dxb(f))
        e = self.e0*(self.eps + eps_nl)
        ex = ey = e
        if averaging:
            ex, ey = (e + np.roll(e, 1, 0))/2, (e + np.roll(e, 1, 1))/2
        return (1/1j/self.omega*self.dyb(f)/ey, -1/1j/self.omega*self.dxb(f)/ex)

    def names(self):
        return ('Hx', 'Hy', 'Ez') if self.pol == 'Ez' else ('Ex', 'Ey', 'Hz')

    def fields(self, src, averaging=False):
        f = self.solve_z(src)
        (a, b) = self.derived(f, averaging)
        return dict(zip(self.names(), (a, b, f)))

    def components(self, f, averaging=False, eps_nl=0):
        (a, b) = self.derived(f, averaging, eps_nl)
        return dict(zip(self.names(), (a, b, f)))

    def flux(self, fields, direction, center, width):
        """Power through a line, from the field components"""
        if direction == 'x':
            sl = (slice(center[0], center[0] + 1), slice(int(center[1] - width/2), int(center[1] + width/2)))
            axis = 0
        else:
            sl = (slice(int(center[0] - width/2), int(center[0] + width/2)), slice(center[1], center[1] + 1))
            axis = 1
        main = fields['Ez' if self.pol == 'Ez' else 'Hz']
        # at the forward edge of each cell, as angler defines it
        avg = ((main + np.roll(main, -1, axis))/2)[sl]
        if self.pol == 'Ez':
            if direction == 'x':
                s = -0.5*np.real(avg*np.conj(fields['Hy'][sl]))
            else:
                s = 0.5*np.real(avg*np.conj(fields['Hx'][sl]))
        else:
            if direction == 'x':
                s = 0.5*np.real(fields['Ey'][sl]*np.conj(avg))
            else:
                s = -0.5*np.real(fields['Ex'][sl]*np.conj(avg))
        return self.dl*np.sum(s)


# ------------------------------------------------------------------------------------------
# Kerr nonlinearity: nls is a list of (chi in SI/L0^2, region, eps_max or None)
# ------------------------------------------------------------------------------------------

def kerr(nls, e, eps):
    out = np.zeros(e.shape)
    for (chi, region, eps_max) in nls:
        c = 3*chi*region*np.abs(e)**2
        if eps_max is not None:
            c = c*(eps - 1)/(eps_max - 1)
        out = out + c
    return np.real(out) if not np.iscomplexobj(eps) else out


def kerr_residual(ref, nls, e, src):
    """|A(e)e - b| / |b|"""
    b = 1j*ref.omega*np.asarray(src, dtype=complex).reshape(ref.shape)
    r = ref.apply(e, kerr(nls, e, ref.eps)) - b
    return np.linalg.norm(r)/max(np.linalg.norm(b), 1e-300)


def kerr_solve(ref, nls, src, start, tol=1e-13, iters=60):
    """Newton's method from `start`; returns (field, converged)"""
    e = np.array(start, dtype=complex)
    A = ref.matrix()
    n = e.size
    b = 1j*ref.omega*np.asarray(src, dtype=complex).ravel()
    w = ref.omega**2*ref.e0
    prev = np.inf
    for _ in range(iters):
        k = kerr(nls, e, ref.eps).ravel()
        ev = e.ravel()
        g = np.zeros(n, dtype=complex)                       # d(eps_nl) = 2 Re(g de)
        for (chi, region, eps_max) in nls:
            c = 3*chi*np.asarray(region, dtype=float).ravel()*np.conj(ev)
            if eps_max is not None:
                c = c*((ref.eps.ravel() - 1)/(eps_max - 1))
            g = g + c
        f = A.dot(ev) + w*k*ev - b
        # real 2n system: f(e + de) = f + A de + w k de + w e (g de + conj(g de))
        D1 = w*(k + ev*g)
        D2 = w*ev*np.conj(g)
        J1 = A + REAL.diags(D1)
        J2 = REAL.diags(D2)
        re, im = np.real, np.imag
        big = REAL.vstack([REAL.hstack([J1.real + J2.real, -J1.imag + J2.imag]),
                           REAL.hstack([J1.imag + J2.imag, J1.real - J2.real])]).tocsc()
        d = REAL.splu(big).solve(np.concatenate([-re(f), -im(f)]))
        de = (d[:n] + 1j*d[n:]).reshape(e.shape)
        e = e + de
        step = np.linalg.norm(de)/max(np.linalg.norm(e), 1e-300)
        if not np.isfinite(step):
            return e, False
        if step < tol or (step < 1e-10 and step >= prev/2):
            return e, True
        prev = step
    return e, False


# ------------------------------------------------------------------------------------------
# density -> permittivity
# ------------------------------------------------------------------------------------------

def filter_density(rho, design, npml, R):
    """Cone filter of radius R, inside the design region only"""
    if R is None:
        return rho.copy()
    nx, ny = rho.shape
    out = rho.copy()
    acc = np.zeros(rho.shape)
    norm = 0.0
    for di in range(-R, R + 1):
        for dj in range(-R, R + 1):
            w = R - np.hypot(di, dj)
            if w > 0:
                acc = acc + w*np.roll(np.roll(rho, -di, 0), -dj, 1)
                norm += w
    inside = design == 1
    out[inside] = (acc/norm)[inside]
    return out


def project(rho, eta, beta):
    if beta < 1e-6:
        return rho
    return (np.tanh(beta*eta) + np.tanh(beta*(rho - eta)))/(np.tanh(beta*eta) + np.tanh(beta*(1 - eta)))


def density_to_eps(rho, design, npml, R, eta, beta, eps_m):
    rho = np.real(rho)
    return 1 + (eps_m - 1)*project(filter_density(rho, design, npml, R), eta, beta)
