"""The documented schemes.  Only interpreted, never executed."""
import math
import numpy as np


def floor0(x):
    return x if x > 0 else 0


def heston_observation(v, mu, k, theta, sigma, rho, h, m):
    """one observation over h in m steps: (y, variance at the end)"""
    dt = h / m
    y = mu * h
    for j in range(m):
        dw_v = math.sqrt(v) * math.sqrt(dt) * np.random.normal(0, 1)
        dw_y = math.sqrt(v) * math.sqrt(dt) * np.random.normal(0, 1)
        y += -v * dt / 2 + rho * dw_v + math.sqrt(1 - rho ** 2) * dw_y
        v = floor0(v + k * (theta - v) * dt + sigma * dw_v)
    return y, v


def jump_sum(rate, mu_j, sigma_j):
    s = 0
    for i in range(np.random.poisson(rate)):
        s += mu_j + sigma_j * np.random.normal(0, 1)
    return s


def r1FSV(v0, par, N, n_segment=10, h=1):
    out = []
    for i in range(N):
        y, v0 = heston_observation(v0, par['mu'], par['k'], par['theta'], par['sigma_v'], par['rho'], h, n_segment)
        out.append(y)
    return out


def r1FSV_iid(v0, par, N, n_segment=10, tau=1):
    out = []
    for i in range(N):
        y, v = heston_observation(v0, par['mu'], par['k'], par['theta'], par['sigma_v'], par['rho'], tau, n_segment)
        out.append(y)
    return out


def r1FSVJ(v0, par, N, n_segment=10, h=1):
    out = []
    for i in range(N):
        y, v0 = heston_observation(v0, par['mu'], par['k'], par['theta'], par['sigma_v'], par['rho'], h, n_segment)
        out.append(y + jump_sum(par['lambda'] * h, par['mu_j'], par['sigma_j']))
    return out


def two_observation(v1, v2, par, h, m):
    dt = h / m
    y = par['mu'] * h
    for j in range(m):
        dw = math.sqrt(dt) * np.random.normal(0, 1)
        dw1 = math.sqrt(dt) * np.random.normal(0, 1)
        dw2 = math.sqrt(dt) * np.random.normal(0, 1)
        y += -(v1 + v2) * dt / 2 + math.sqrt(v1 + v2) * dw
        v1 = floor0(v1 + par['k1'] * (par['theta1'] - v1) * dt + par['sigma_v1'] * math.sqrt(v1) * dw1)
        v2 = floor0(v2 + par['k2'] * (par['theta2'] - v2) * dt + par['sigma_v2'] * math.sqrt(v2) * dw2)
    return y, v1, v2


def r2FSV(v0, par, N, n_segment=10, h=1):
    v1, v2 = v0
    out = []
    for i in range(N):
        y, v1, v2 = two_observation(v1, v2, par, h, n_segment)
        out.append(y)
    return out


def r2FSVJ(v0, par, N, n_segment=10, h=1):
    v1, v2 = v0
    out = []
    for i in range(N):
        y, v1, v2 = two_observation(v1, v2, par, h, n_segment)
        out.append(y + jump_sum(par['lambda'] * h, par['mu_j'], par['sigma_j']))
    return out


def rSRD(v0, tau, k, theta, sigma):
    """exact transition of the square-root diffusion: a scaled noncentral chi-square"""
    c = sigma ** 2 * (1 - math.exp(-k * tau)) / (4 * k)
    return c * np.random.noncentral_chisquare(4 * k * theta / sigma ** 2, v0 * math.exp(-k * tau) / c)


def rSRJD(v0, k, theta, sigma, T, jumpsize, jumptime, n):
    out = []
    for i in range(n):
        v = v0
        t = 0
        for s, J in zip(jumptime, jumpsize):
            v = rSRD(v, s - t, k, theta, sigma) + J
            t = s
        if t < T:
            v = rSRD(v, T - t, k, theta, sigma)
        out.append(v)
    return out


def rSVVJ(v0, mu, k, theta, sigma, rho, T, jumpsize, jumptime, n, n_segment):
    out = []
    for i in range(n):
        # times of the grid and of the jumps; every stretch between two of them is one step
        IE, I, I2 = 0, 0, 0
        v = v0
        t = 0
        j = 0
        for g in range(1, n_segment + 1):
            end = T * g / n_segment
            while t < end:
                s = jumptime[j] if j < len(jumptime) and jumptime[j] <= end else end
                dw_v = math.sqrt(s - t) * np.random.normal(0, 1)
                dw_y = math.sqrt(s - t) * np.random.normal(0, 1)
                IE += math.exp(k * t) * math.sqrt(v) * dw_v
                I += math.sqrt(v) * dw_v
                I2 += math.sqrt(v) * dw_y
                v = floor0(v + k * (theta - v) * (s - t) + sigma * math.sqrt(v) * dw_v)
                if j < len(jumptime) and jumptime[j] <= end:
                    v += jumpsize[j]
                    j += 1
                t = s
        IZ, IEZ = 0, 0
        for s, J in zip(jumptime, jumpsize):
            IZ += J
            IEZ += math.exp(k * s) * J
        beta = (1 - math.exp(-k * T)) / (2 * k)
        y = (mu - theta / 2) * T - (v0 - theta) * beta + (math.exp(-k * T) * IEZ - IZ) / (2 * k)
        y += sigma / (2 * k) * math.exp(-k * T) * IE + (rho - sigma / (2 * k)) * I + math.sqrt(1 - rho ** 2) * I2
        out.append(y)
    return out


def rSVCJ(v0, mu, k, theta, sigma, rho, T, jsize_v, jtime_v, mu_s, sigma_s, rho_J, n, n_segment):
    out = []
    for y in rSVVJ(v0, mu, k, theta, sigma, rho, T, jsize_v, jtime_v, n, n_segment):
        for J in jsize_v:
            y += mu_s + rho_J * J + sigma_s * np.random.normal(0, 1)
        out.append(y)
    return out


def rSVIJ(v0, mu, k, theta, sigma, rho, T, jsize_v, jtime_v, lmbd_s, mu_s, sigma_s, n, n_segment):
    out = []
    for y in rSVVJ(v0, mu, k, theta, sigma, rho, T, jsize_v, jtime_v, n, n_segment):
        out.append(y + jump_sum(lmbd_s * T, mu_s, sigma_s))
    return out
