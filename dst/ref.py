"""Small independent reference models (never import qmat).

Everything here is computed from textbook definitions: Gauss-Jacobi nodes,
product-form Lagrange polynomials integrated with Gauss-Legendre rules,
closed forms of the QDelta approximations, one-step maps of the integrators.
"""
import numpy as np
import scipy.linalg as spl
from scipy.special import roots_jacobi

NODE_TYPES = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QUAD_TYPES = ["GAUSS", "LOBATTO", "RADAU-RIGHT", "RADAU-LEFT"]
JAC = {"LEGENDRE": (0, 0), "CHEBY-1": (-.5, -.5), "CHEBY-2": (.5, .5),
       "CHEBY-3": (-.5, .5), "CHEBY-4": (.5, -.5)}


def nodes(n, nodeType, quadType):
    """Quadrature nodes in [-1, 1]"""
    left = quadType in ("LOBATTO", "RADAU-LEFT")
    right = quadType in ("LOBATTO", "RADAU-RIGHT")
    if nodeType == "EQUID":
        k = np.arange(n) + (0 if left else 1)
        total = n - 1 + (0 if left else 1) + (0 if right else 1)
        return -1 + 2*k/total if total else np.array([-1.])
    a, b = JAC[nodeType]
    m = n - left - right
    x = roots_jacobi(m, a + right, b + left)[0] if m > 0 else np.array([])
    return np.concatenate([[-1.]*left, x, [1.]*right])


def recurrence(n, nodeType, quadType=None):
    """Coefficients of the (modified) monic Jacobi polynomials"""
    a, b = JAC[nodeType]
    k = np.arange(n, dtype=float)
    al, be = np.zeros(n), np.zeros(n)
    al[0] = (b - a)/(a + b + 2)
    be[0] = {"LEGENDRE": 2, "CHEBY-2": np.pi/2}.get(nodeType, np.pi)
    for i in range(1, n):
        s = 2*i + a + b
        al[i] = (b*b - a*a)/(s*(s + 2))
        be[i] = 4*(1 + a)*(1 + b)/((a + b + 2)**2*(a + b + 3)) if i == 1 else \
            4*i*(i + a)*(i + b)*(i + a + b)/(s*s*(s + 1)*(s - 1))
    if quadType is None or quadType == "GAUSS":
        return al, be
    if quadType == "LOBATTO":
        (l0, l1), (r0, r1) = (monic(x, al[:-1], be[:-1]) for x in (-1., 1.))
        det = l1*r0 - r1*l0
        al[-1] = (-l1*r0 - r1*l0)/det
        be[-1] = (l1*r1 + r1*l1)/det
    else:
        x = -1. if quadType == "RADAU-LEFT" else 1.
        p0, p1 = monic(x, al[:-1], be[:-1])
        al[-1] = x - be[-1]*p0/p1
    return al, be


def monic(t, al, be):
    """the last two monic polynomials of a recurrence"""
    p0, p1 = np.zeros_like(np.asarray(t, float)), np.ones_like(np.asarray(t, float))
    for a, b in zip(al, be):
        p0, p1 = p1, (t - a)*p1 - b*p0
    return p0, p1


def fejer(n):
    """Fejer's first rule"""
    th = (2*np.arange(n, 0, -1) - 1)*np.pi/(2*n)
    j = np.arange(1, n//2 + 1)
    w = 2./n*(1 - 2*(np.cos(2*np.outer(th, j))/(4*j*j - 1)).sum(1))
    return np.cos(th), w


def coll_order(n, nodeType, quadType):
    if nodeType == "LEGENDRE":
        return 2*n - {"GAUSS": 0, "LOBATTO": 2}.get(quadType, 1)
    sym = quadType in ("GAUSS", "LOBATTO") and nodeType in ("EQUID", "CHEBY-1", "CHEBY-2")
    return n + n % 2 if sym else n


def _uniq(points, duplicates):
    """unique sorted points and, for each, the column used in the full matrix"""
    points = np.asarray(points, dtype=float).ravel()
    u = sorted(set(points.tolist()))
    cols = []
    for v in u:
        w = [i for i, p in enumerate(points.tolist()) if p == v]
        cols.append(w[-1] if duplicates == "USE_RIGHT" else w[0])
    return points, np.array(u), cols


def basis(u, t):
    """L_j(t_i), product form, on distinct points u"""
    t = np.asarray(t, dtype=float).ravel()
    out = np.ones((t.size, u.size))
    for j in range(u.size):
        for k in range(u.size):
            if k != j:
                out[:, j] *= (t - u[k])/(u[j] - u[k])
    return out




def _place(mat, n, cols):
    out = np.zeros((mat.shape[0], n))
    for j, c in enumerate(cols):
        out[:, c] = mat[:, j]
    return out


def interp(points, times, duplicates="USE_LEFT"):
    p, u, cols = _uniq(points, duplicates)
    return _place(basis(u, times), p.size, cols)


def integ(points, intervals, duplicates="USE_LEFT"):
    p, u, cols = _uniq(points, duplicates)
    x, w = np.polynomial.legendre.leggauss(u.size//2 + 2)
    rows = []
    for a, b in intervals:
        L = basis(u, (b - a)/2*x + (b + a)/2)
        rows.append((b - a)/2*(w @ L))
    return _place(np.array(rows).reshape(len(rows), u.size), p.size, cols)


def deriv(points, order=1, duplicates="USE_LEFT", expand=True):
    """rows: unique points, columns: points"""
    p, u, cols = _uniq(points, duplicates)
    n = u.size
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                D[i, i] = sum(1/(u[i] - u[k]) for k in range(n) if k != i)
            else:
                v = 1/(u[j] - u[i])
                for k in range(n):
                    if k not in (i, j):
                        v *= (u[i] - u[k])/(u[j] - u[k])
                D[i, j] = v
    D = D if order == 1 else D @ D
    return _place(D, p.size, cols)


# ------------------------------------------------------------ Q-coefficients
def coll(n, nodeType, quadType, tL=0., tR=1.):
    tau = tL + (tR - tL)*(nodes(n, nodeType, quadType) + 1)/2
    if quadType in ("LOBATTO", "RADAU-LEFT"):
        tau[0] = tL
    if quadType in ("LOBATTO", "RADAU-RIGHT"):
        tau[-1] = tR
    Q = integ(tau, [(tL, t) for t in tau])
    w = integ(tau, [(tL, tR)])[0]
    S = Q.copy()
    S[1:] -= Q[:-1]
    h = interp(tau, [tR])[0]
    return {"nodes": tau, "weights": w, "Q": Q, "S": S, "hCoeffs": h}


def pad(tab, padding):
    """Butcher table with additional stages at 0 and/or 1"""
    A, b, c, b2 = (None if x is None else np.array(x, dtype=float) for x in tab)
    for side in {"LEFT": "L", "RIGHT": "R", "BOTH": "LR"}.get(padding, ""):
        n = c.size
        N = np.zeros((n + 1, n + 1))
        if side == "L":
            N[1:, 1:] = A
            c = np.concatenate([[0], c])
            b = np.concatenate([[0], b])
            b2 = None if b2 is None else np.concatenate([[0], b2])
        else:
            N[:n, :n] = A
            N[n, :n] = b
            c = np.concatenate([c, [1]])
            b = np.concatenate([b, [0]])
            b2 = None if b2 is None else np.concatenate([b2, [0]])
        A = N
    S = A.copy()
    S[1:] -= A[:-1]
    return {"nodes": c, "weights": b, "Q": A, "S": S,
            "hCoeffs": interp(c, [1.])[0], "b2": b2}


# ------------------------------------------------------------------- QDelta
def n2n(M):
    S = np.array(M, dtype=float)
    S[1:] -= np.asarray(M)[:-1]
    return S


def qdelta(kind, Q=None, tau=None, tL=0., k=None):
    """Closed forms; returns None when there is none (caller uses a baseline)"""
    if tau is not None:
        n = len(tau)
        d = np.diff(np.concatenate([[tL], tau]))
    if kind == "PIC":
        return np.zeros_like(Q)
    if kind == "Exact":
        return np.array(Q)
    if kind in ("LU", "LU2"):
        lu, piv = spl.lu_factor(np.asarray(Q).T, check_finite=False)
        return np.triu(lu).T*(2 if kind == "LU2" else 1)
    if kind == "QPar":
        return np.diag(np.diag(Q))
    if kind == "GS":
        return np.tril(Q)
    if kind == "LDU":
        A = np.array(Q, dtype=float)
        for i in range(len(A)):
            for j in range(i + 1, len(A)):
                A[j, i + 1:] -= A[j, i]/A[i, i]*A[i, i + 1:]
        return np.diag(np.diag(A))
    if kind == "BE":
        return np.array([[d[j] if j <= i else 0. for j in range(n)] for i in range(n)])
    if kind == "FE":
        return np.array([[d[j + 1] if j < i else 0. for j in range(n)] for i in range(n)])
    if kind == "TRAP":
        return (qdelta("BE", tau=tau, tL=tL) + qdelta("FE", tau=tau, tL=tL))/2
    if kind == "BEPAR":
        return np.diag(np.asarray(tau) - tL)
    if kind == "TRAPAR":
        return np.diag(np.asarray(tau) - tL)/2
    if kind == "SOE":
        # u'(t_{m}) from the parabola through t_{m-1}, t_m, t_{m+1}, solved for the last value
        t = np.concatenate([[tL], tau])
        W = np.zeros((n + 1, n))       # u_m = u_0 + sum_j W[m, j] f_j, u at t_0..t_n
        # u at the left bound and at the first node both start from u_0
        for m in range(1, n):
            am1, a0, ap1 = deriv(t[m - 1:m + 2])[1]
            W[m + 1] = -(a0*W[m] + am1*W[m - 1])/ap1
            W[m + 1, m - 1] += 1/ap1
        return W[1:]
    if kind == "MIN_SR_NS":
        return np.diag(tau)/n
    if kind == "MIN_SR_FLEX":
        k = 1 if k is None else k
        return np.diag(tau)/k if k <= n else None
    if kind == "Jumper":
        return np.diag(tau)/(2*(1 if k is None else k))
    if kind == "FlexJumper":
        k = 1 if k is None else k
        return np.diag(tau)/(1 if k == 1 else 2*(k - 1))
    if kind.startswith("DNODES"):
        return np.diag(tau)/float(kind[6:] or 1)
    return None


def dtau(kind, tau=None, tL=0., n=None):
    if kind in ("FE", "SOE"):
        return np.full(len(tau), tau[0] - tL)
    if kind == "TRAP":
        return np.full(len(tau), (tau[0] - tL)/2)
    if kind == "TRAPAR":
        return (np.asarray(tau) - tL)/2
    return np.zeros(n if tau is None else len(tau))


# -------------------------------------------------------------- integrators
def rk_traj(A, b, lam, u0, tEnd, nSteps):
    A = np.asarray(A, dtype=float)
    z = lam*tEnd/nSteps
    x = np.linalg.inv(np.eye(len(A)) - z*A) @ np.ones(len(A))
    R = 1 + z*(np.asarray(b) @ x)
    return u0*R**np.arange(nSteps + 1)


def rk_gain(A, b, lam, tEnd, nSteps):
    """how much a relative error of the coefficients is amplified in the trajectory"""
    A = np.asarray(A, dtype=float)
    z = abs(lam*tEnd/nSteps)
    M = np.eye(len(A)) - lam*tEnd/nSteps*A
    if not np.isfinite(M).all():
        return np.inf
    inv = np.abs(np.linalg.inv(M)).sum(1).max()
    return nSteps*z*np.abs(b).sum()*inv*(1 + z*np.abs(A).sum(1).max()*inv)


def sdc_traj(Q, QD, weights, lam, u0, tEnd, nSteps, nSweeps):
    Q = np.asarray(Q, dtype=float)
    n = len(Q)
    QD = np.asarray(QD, dtype=float)
    if QD.ndim == 2:
        QD = np.array([QD]*nSweeps).reshape(nSweeps, n, n)
    z = lam*tEnd/nSteps
    x = np.ones(n, dtype=complex)
    iters = [x]
    for k in range(nSweeps):
        x = np.linalg.inv(np.eye(n) - z*QD[k]) @ (1 + z*((Q - QD[k]) @ x))
        iters.append(x)
    R = x[-1] if weights is None else 1 + z*(np.asarray(weights) @ x)
    u = u0*R**np.arange(nSteps + 1)
    res, err = [], []
    c = Q.sum(axis=1)
    dt = tEnd/nSteps
    for x in iters:
        res.append([u[i]*(1 + z*(Q @ x) - x) for i in range(nSteps)])
        err.append([u[i]*x - u0*np.exp(lam*(i*dt + dt*c)) for i in range(nSteps)])
    sh = (nSweeps + 1, nSteps, n)
    return u, np.array(res).reshape(sh), np.array(err).reshape(sh)


def dahlquist_error(u, lam, u0, tEnd, nSteps):
    t = np.arange(nSteps + 1)*(tEnd/nSteps)
    return np.abs(u - u0*np.exp(lam*t)).max()
