"""Spherical geometry used by the oracles (independent of the library)."""
import numpy as np
from hypothesis import strategies as st

from .gen import gr


def vec(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec) * np.ones_like(ra)])


def separation(ra1, dec1, ra2, dec2):
    """Angular separation in degrees (accurate for all angles)."""
    a, b = vec(ra1, dec1), vec(ra2, dec2)
    a, b = np.broadcast_arrays(a.T, b.T)
    cr = np.cross(a, b)
    return np.degrees(np.arctan2(np.sqrt(np.sum(cr**2, axis=-1)), np.sum(a * b, axis=-1)))


def tangent_offset(ra, dec, ra0, dec0):
    """Components (east, north) of the direction from (ra0, dec0) to (ra, dec)."""
    v = vec(ra, dec)
    r0, d0 = np.radians(ra0), np.radians(dec0)
    east = np.array([-np.sin(r0), np.cos(r0), np.zeros_like(r0)])
    north = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    return np.sum(v * east, axis=0), np.sum(v * north, axis=0)


def offset(ra0, dec0, east, north):
    """Position reached from (ra0, dec0) by the tangent-plane offset (degrees), along a great circle."""
    r0, d0 = np.radians(ra0), np.radians(dec0)
    e = np.array([-np.sin(r0), np.cos(r0), 0.0 * r0])
    n = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    c = vec(ra0, dec0)
    rho = np.hypot(east, north)
    th = np.radians(rho)
    s = np.where(rho > 0, np.sin(th) / np.where(rho > 0, rho, 1.0), 0.0)
    v = c * np.cos(th) + (e * east + n * north) * s
    return np.degrees(np.arctan2(v[1], v[0])) % 360.0, np.degrees(np.arcsin(np.clip(v[2], -1, 1)))


position = st.one_of(
    st.tuples(gr(0, 359.64), gr(-90, 90)),
    st.tuples(st.sampled_from([0.0, 0.2, 359.8, 180.0, 90.0]), st.sampled_from([0.0, 89.5, -89.5, 90.0, -90.0, 45.0, -30.0])),
).map(list)
