"""Python stand-in for the Rust extension `hamiltonian_generator`, written from /repo/lib/hamiltonian_generator/src/lib.rs.

The extension is not built in this sandbox (no pyo3); two Hamiltonian builders call it. Installed only
when the real module cannot be imported.
"""
from __future__ import annotations

import math
import sys
import types

import numpy as np

HBAR = 6.62607015e-34 / (2 * math.pi)


def _coords(n: int) -> list[int]:
    return list(range((n + 1) // 2)) + list(range(-(n // 2), 0))


def _hermite(x, n: int):
    h0, h1 = np.ones_like(x), 2 * x
    if n == 0:
        return h0
    for k in range(1, n):
        h0, h1 = h1, 2 * x * h1 - 2 * k * h0
    return h1


def _sho(z, sho_omega: float, mass: float, n: int):
    norm = math.sqrt(sho_omega * mass / HBAR)
    p = np.asarray(z, dtype=float) * norm
    return math.sqrt(norm / (math.factorial(n) * math.sqrt(math.pi) * 2.0**n)) * _hermite(p, n) * np.exp(-(p**2) / 2)


def _assemble(ft, resolution, left, right, factor):
    ft = np.asarray(ft, dtype=np.complex128)
    c = [(a, b, z) for a in _coords(resolution[0]) for b in _coords(resolution[1]) for z in range(resolution[2])]
    out = np.empty((len(c), len(c)), dtype=np.complex128)
    for i, (a0, b0, z0) in enumerate(c):
        for j, (a1, b1, z1) in enumerate(c):
            v = ft[(a1 - a0) % ft.shape[0], (b1 - b0) % ft.shape[1]]
            out[i, j] = np.sum(v * left[z0] * right[z1]) * factor
    return out.tolist()


def calculate_off_diagonal_energies(ft_potential, resolution, dz, mass, sho_omega, z_offset):
    nz = len(ft_potential[0][0])
    z = z_offset + dz * np.arange(nz)
    phi = [_sho(z, sho_omega, mass, n) for n in range(resolution[2])]
    return _assemble(ft_potential, resolution, phi, phi, dz)


def calculate_off_diagonal_energies2(ft_potential, eigenstates_z, resolution):
    v = np.asarray(eigenstates_z, dtype=np.complex128)
    return _assemble(ft_potential, resolution, v, v.conj(), 1.0)


def install() -> bool:
    """True if the stand-in had to be installed."""
    try:
        import hamiltonian_generator  # noqa: F401
    except ImportError:
        m = types.ModuleType("hamiltonian_generator")
        m.calculate_off_diagonal_energies = calculate_off_diagonal_energies
        m.calculate_off_diagonal_energies2 = calculate_off_diagonal_energies2
        m.get_sho_wavefunction = lambda z, w, mass, n: list(_sho(z, w, mass, n))
        m.get_hermite_val = lambda x, n: float(_hermite(np.float64(x), n))
        sys.modules["hamiltonian_generator"] = m
        return True
    return False
