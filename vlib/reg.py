"""Independent reference for the regression models."""

import math

import numpy as np
import scipy.stats as st


def code(types, values, wildcard):
    """Bias term and dummy code.  types: [[stattype, k or None]..].

    Without the wildcard the last category is coded by zeros; with it every
    category 0..k-1 has an indicator, and k stands for an unknown one.
    """
    row = [1.]
    for (_, k), v in zip(types, values):
        if k is None:
            row.append(float(v))
        else:
            top = k if wildcard else k - 1
            row.extend(1. if v == j else 0. for j in range(top))
    return row


def nig_score(a, b, mu, V, rows, ys):
    """log p(ys) = multivariate Student with 2a degrees of freedom."""
    n = len(ys)
    if n == 0:
        return 0.
    X, y = np.array(rows, float), np.array(ys, float)
    S = (b / a) * (np.eye(n) + X.dot(V).dot(X.T))
    return float(st.multivariate_t.logpdf(
        y, loc=X.dot(mu), shape=(S + S.T) / 2., df=2. * a,
        ) if n > 1 else st.t.logpdf(y[0], 2. * a, X.dot(mu)[0],
            math.sqrt(S[0, 0])))


def nig_predictive(a, b, mu, V, rows, ys, row):
    """The Student predictive at a design row, from the joint Gaussian."""
    x = np.array(row, float)
    n = len(ys)
    if n == 0:
        return st.t(2. * a, x.dot(mu), math.sqrt(b / a * (1 + x.dot(V).dot(x))))
    X, y = np.array(rows, float), np.array(ys, float)
    S = np.eye(n) + X.dot(V).dot(X.T)
    g = X.dot(V).dot(x)
    r = y - X.dot(mu)
    w = np.linalg.solve(S, r)
    loc = x.dot(mu) + g.dot(w)
    q = 1 + x.dot(V).dot(x) - g.dot(np.linalg.solve(S, g))
    nu = 2. * a + n
    return st.t(nu, loc, math.sqrt((2 * b + r.dot(w)) / nu * q))


def nig_posterior(a, b, mu, V, rows, ys):
    """(a, b, mean, V) of the posterior (Gelman et al., 14.8)."""
    V = np.asarray(V, float)
    if not len(ys):
        return a, b, np.asarray(mu, float), V
    X, y = np.array(rows, float), np.array(ys, float)
    r = y - X.dot(mu)
    S = np.eye(len(y)) + X.dot(V).dot(X.T)
    G = np.linalg.solve(S, X.dot(V)).T
    return (a + len(y) / 2., b + .5 * r.dot(np.linalg.solve(S, r)),
        mu + G.dot(r), V - G.dot(X).dot(V))
