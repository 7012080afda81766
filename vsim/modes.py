"""Mode sources: definitions, and what they should put into a simulation."""
import numpy as np

from vsim.ref import Ref, EPS0, MU0


def gen_modes(rng, spec, n=None, order=True):
    """Modes on lines across the waveguides of the structure, which is made to have some"""
    spec['eps'] = {'kind': rng.choice(['wg', 'wgv', 'cross']), 'eps_m': rng.choice([4.0, 6.0, 12.0]),
                   'seed': rng.randrange(10**6)}
    return [gen_mode(rng, spec, order) for _ in range(n or rng.choice([1, 1, 2, 3]))]


def gen_mode(rng, spec, order=True):
    kind = spec['eps']['kind']
    axis = {'wg': 0, 'wgv': 1, 'cross': rng.randrange(2)}.get(kind, rng.randrange(2))
    a, b = axis, 1 - axis
    n, pml = spec['shape'], spec['npml']
    center = [0, 0]
    center[a] = rng.randrange(pml[a] + 1, n[a] - pml[a] - 1)
    center[b] = n[b]//2 + rng.choice([0, 0, -1, 1])
    room = 2*min(center[b] - pml[b], n[b] - pml[b] - center[b]) - 1
    width = max(6, room - rng.choice([0, 0, 1, 2, 3]))
    return {'neff': rng.choice([1.13, 1.47, 2.03, 2.51, 2.97]), 'dir': 'xy'[axis], 'center': center, 'width': width,
            'scale': rng.choice([1, 0.5, 2, 40.0]), 'order': rng.choice([1, 1, 2, 3]) if order else 1}


def add(real, m):
    real.add_mode(m['neff'], m['dir'], list(m['center']), m['width'], scale=m['scale'], order=m['order'])


def line(m):
    """The index of the line that a mode source sits on"""
    c, w = m['center'], m['width']
    if m['dir'] == 'x':
        return (slice(c[0], c[0] + 1), slice(int(c[1] - w/2), int(c[1] + w/2)))
    return (slice(int(c[0] - w/2), int(c[0] + w/2)), slice(c[1], c[1] + 1))


def profile(m, eps, spec, omega):
    """The guided mode of the line's cross-section: the order-th closest to the guess.  Unit norm, and any sign;
       None if that is not well-defined."""
    shape = eps[line(m)].shape
    e = EPS0*spec['L0']*np.real(eps[line(m)].ravel())
    n = e.size
    h = spec['dl']
    eye = np.eye(n)
    fwd = (np.roll(eye, 1, 1) - eye)/h
    bwd = (eye - np.roll(eye, -1, 1))/h
    mu = MU0*spec['L0']
    if spec['pol'] == 'Ez':
        A = omega**2*mu*np.diag(e) + fwd.dot(bwd)
    else:
        edge = (e + np.roll(e, 1))/2
        A = omega**2*mu*np.diag(e) + np.diag(e).dot(fwd).dot(np.diag(1/edge)).dot(bwd)
    guess = omega**2*mu*EPS0*spec['L0']*m['neff']**2
    vals, vecs = np.linalg.eig(A)
    by = np.argsort(np.abs(vals - guess))
    k = by[m['order'] - 1]
    dist = np.abs(vals - guess)
    others = np.delete(np.arange(n), k)
    scale = omega**2*mu*EPS0*spec['L0']
    if np.min(np.abs(dist[others] - dist[k])) < 1e-3*scale or np.min(np.abs(vals[others] - vals[k])) < 1e-3*scale:
        return None
    if dist[k] < 1e-9*scale or abs(vals[k].imag) > 1e-9*scale:
        return None
    v = np.real(vecs[:, k]*np.exp(-1j*np.angle(vecs[np.argmax(np.abs(vecs[:, k])), k])))
    return (m['scale']*v/np.linalg.norm(v)).reshape(shape)


def straight(m, eps):
    """The straight waveguide that continues the structure at the mode's line"""
    top = np.max(np.abs(eps))
    out = np.ones(eps.shape)
    if m['dir'] == 'x':
        out[:, eps[m['center'][0], :] > 1] = top
    else:
        out[eps[:, m['center'][1]] > 1, :] = top
    return out


def power(m, eps, spec, omega):
    """The power that the mode alone carries there, on the other side of the domain, and the size of the
       power flows in that computation, to judge errors by"""
    wg = straight(m, eps)
    v = profile(m, wg, spec, omega)
    if v is None:
        return None
    src = np.zeros(eps.shape, dtype=np.complex64)
    src[line(m)] = v
    ref = Ref(spec['pol'], wg, omega, spec['dl'], spec['npml'], spec['L0'])
    at = list(m['center'])
    a = 'xy'.index(m['dir'])
    at[a] = eps.shape[a] - at[a]
    f = ref.fields(src)
    names = ref.names()
    strength = np.abs(f[names[2]])*(np.abs(f[names[0]]) + np.abs(f[names[1]]))
    return ref.flux(f, m['dir'], at, m['width']), spec['dl']*np.max(np.sum(strength, axis=1 - a))


def off_by(got, want, mask):
    """How far got is from +want or -want where the mask says, relative to all of want"""
    g, v = got[mask], want[mask]
    return min(np.linalg.norm(g - v), np.linalg.norm(g + v))/np.linalg.norm(want)
