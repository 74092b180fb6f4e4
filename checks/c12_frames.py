"""C12: rotations between the inertial, body and wind frames.

Oracle: scipy's Rotation and hand-written elementary rotations; geometric relations (drag opposes velocity, lift is
normal to it and lies in the plane of symmetry, lengths are kept)."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

import SUAVE
from SUAVE.Core import Data
from SUAVE.Methods.Geometry.Three_Dimensional.angles_to_dcms import angles_to_dcms
from SUAVE.Methods.Geometry.Three_Dimensional.orientation_product import orientation_product
from SUAVE.Methods.Geometry.Three_Dimensional.orientation_transpose import orientation_transpose
from SUAVE.Methods.Missions.Segments.Common import Frames
from lib.prop import Property, Sub, Discard, require, close, same_shape, finite
from lib.strat import record, rng, logrng

PI = math.pi
ang = st.one_of(rng(-PI, PI, [0., PI / 2, -PI / 2]), rng(-0.4, 0.4, [0.]), rng(-10, 10))
triple = st.tuples(ang, ang, ang).map(list)
comp = st.one_of(rng(-300, 300, [0.]), rng(-1, 1, [0.]))


def elementary(axis, a):
    c, s = math.cos(a), math.sin(a)
    # coordinates of a fixed vector seen from axes turned by +a (passive)
    return {0: np.array([[1, 0, 0], [0, c, s], [0, -s, c]]), 1: np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]]), 2: np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])}[axis]


def check_matrices(case, ctx):
    rot = np.array(case['rot'], float)
    seq = tuple(case['seq'])
    keep = rot.copy()
    T = angles_to_dcms(rot, seq)
    require(np.array_equal(rot, keep), 'rotations handed in were changed')
    same_shape(T, (len(rot), 3, 3), 'transform')
    for i, r in enumerate(rot):
        want = np.eye(3)
        for ax in seq:                       # turn about seq[0] first
            want = elementary(ax, r[ax]).dot(want)
        close(T[i], want, rtol=0, atol=1e-12, what='transform of %r in the order %r' % (list(r), seq))
        close(T[i].dot(T[i].T), np.eye(3), rtol=0, atol=1e-12, what='orthonormality')
        close(np.linalg.det(T[i]), 1., rtol=1e-12, what='determinant')
        if seq == (2, 1, 0):
            # aerospace convention: intrinsic yaw, pitch, roll carries inertial axes to body axes
            R = Rotation.from_euler('ZYX', [r[2], r[1], r[0]]).as_matrix()
            close(T[i].T, R, rtol=0, atol=1e-11, what='yaw-pitch-roll attitude')
            close(angles_to_dcms(rot[i:i + 1])[0], T[i], rtol=0, atol=1e-14, what='default order')
    Tt = orientation_transpose(T)
    same_shape(Tt, T.shape, 'transpose')
    B = np.array(case['vec'] * len(rot), float)[:len(rot)]
    v = orientation_product(T, B)
    same_shape(v, (len(rot), 3), 'rotated vectors')
    for i in range(len(rot)):
        close(v[i], T[i].dot(B[i]), rtol=0, atol=1e-11 * (1 + np.abs(B[i]).max()), what='rotated vector')
        close(np.linalg.norm(v[i]), np.linalg.norm(B[i]), rtol=1e-11, atol=1e-300, what='length of the rotated vector')
    close(orientation_product(Tt, v), B, rtol=0, atol=1e-11 * (1 + np.abs(B).max()), what='there and back')
    close(orientation_product(T, Tt), np.resize(np.eye(3), T.shape), rtol=0, atol=1e-12, what='transform times its inverse')
    # complex-step derivatives go through the transforms
    k = case['cs']
    h = 1e-20
    rc = rot.astype(complex)
    rc[:, k] += 1j * h
    Tc = angles_to_dcms(rc, seq)
    e = 1e-6
    rp, rm = rot.copy(), rot.copy()
    rp[:, k] += e
    rm[:, k] -= e
    close(Tc.imag / h, (angles_to_dcms(rp, seq) - angles_to_dcms(rm, seq)) / (2 * e), rtol=0, atol=1e-8, what='complex-step derivative')
    if sum(abs(math.sin(a)) > 1e-3 for a in rot[0]) >= 2:
        ctx.hit('order %d%d%d' % seq)


def state(case):
    n = len(case['rot'])
    from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics
    seg = SUAVE.Analyses.Mission.Segments.Cruise.Constant_Speed_Constant_Altitude()
    seg.state.numerics.number_control_points = n
    seg.state.expand_rows(n)
    c = seg.state.conditions
    c.frames.inertial.velocity_vector[:, :] = np.array(case['V'], float)
    c.frames.body.inertial_rotations[:, :] = np.array(case['rot'], float)
    return seg, c


def check_orientations(case, ctx):
    n = len(case['rot'])
    case = dict(case, V=(case['V'] * n)[:n])
    seg, c = state(case)
    V = np.array(case['V'], float)
    speed = np.linalg.norm(V, axis=1)
    if np.any(speed < 0.1):
        raise Discard
    rot = np.array(case['rot'], float)
    Frames.update_orientations(seg)
    require(np.array_equal(c.frames.inertial.velocity_vector, V), 'the velocity was changed')
    require(np.array_equal(c.frames.body.inertial_rotations, rot), 'the attitude was changed')
    Tb = c.frames.body.transform_to_inertial
    Tw = c.frames.wind.transform_to_inertial
    L = np.array((case['L'] * n)[:n], float)
    D = np.array((case['D'] * n)[:n], float)
    F = np.array((case['F'] * n)[:n], float)
    W = np.array((case['W'] * n)[:n], float)
    c.frames.wind.lift_force_vector = np.c_[0 * L, 0 * L, -L]
    c.frames.wind.drag_force_vector = np.c_[-D, 0 * D, 0 * D]
    c.frames.body.thrust_force_vector = F * 1.
    c.frames.inertial.gravity_force_vector = np.c_[0 * W, 0 * W, W]
    Frames.update_forces(seg)
    total = c.frames.inertial.total_force_vector
    for i in range(n):
        B = Rotation.from_euler('ZYX', rot[i][::-1]).as_matrix()     # body to inertial
        close(Tb[i], B, rtol=0, atol=1e-11, what='body-to-inertial transform')
        close(np.linalg.det(Tw[i]), 1., rtol=1e-11, what='wind-to-inertial determinant')
        close(Tw[i].T.dot(Tw[i]), np.eye(3), rtol=0, atol=1e-11, what='wind-to-inertial orthonormality')
        u, v, w = B.T.dot(V[i])
        alpha = math.atan2(w, u)
        close(c.aerodynamics.roll_angle[i, 0], rot[i, 0], rtol=1e-13, what='roll angle')
        if math.hypot(u, w) > 1e-6 * speed[i]:
            close(math.remainder(c.aerodynamics.angle_of_attack[i, 0] - alpha, 2 * PI), 0, atol=1e-8, what='angle of attack')
            close(abs(c.aerodynamics.side_slip_angle[i, 0]), abs(math.atan2(v, math.hypot(u, w))), rtol=1e-9, atol=1e-10, what='size of the sideslip angle')
        vhat = V[i] / speed[i]
        # wind x axis is the flight direction; lift axis is normal to it and in the plane of symmetry
        close(Tw[i][:, 0], vhat, rtol=0, atol=1e-9, what='direction that drag opposes')
        yb = B[:, 1]
        zw = Tw[i][:, 2]
        if math.hypot(u, w) > 1e-6 * speed[i]:
            close(zw.dot(yb), 0, atol=1e-9, what='lift leaves the plane of symmetry by')
            # lift points to the upper side of the aircraft when flying forward
            want = np.cross(vhat, yb)
            want /= np.linalg.norm(want)
            close(zw, want, rtol=0, atol=1e-8, what='direction that lift opposes')
        want = -D[i] * vhat - L[i] * zw + B.dot(F[i]) + np.array([0, 0, W[i]])
        close(total[i], want, rtol=0, atol=1e-9 * (abs(D[i]) + abs(L[i]) + np.abs(F[i]).max() + abs(W[i]) + 1), what='sum of the forces')
    if np.any(np.abs(np.sin(rot[:, 0])) > 1e-3) or np.any(np.abs(c.aerodynamics.side_slip_angle) > 1e-3):
        ctx.hit('banked' if np.any(np.abs(np.sin(rot[:, 0])) > 1e-3) else 'wings level', 'sideslip' if np.any(np.abs(c.aerodynamics.side_slip_angle) > 1e-3) else 'no sideslip')


def check_turn_about(case, ctx):
    """Turning flight path and attitude together about the vertical turns the forces by the same angle."""
    one = dict(case, rot=[case['rot']], V=[case['V']])
    if np.linalg.norm(case['V']) < 0.1:
        raise Discard
    dpsi = case['dpsi']
    R = Rotation.from_euler('Z', dpsi).as_matrix()
    seg, c = state(one)
    Frames.update_orientations(seg)
    rot2 = [case['rot'][0], case['rot'][1], case['rot'][2] + dpsi]
    seg2, c2 = state(dict(rot=[rot2], V=[R.dot(case['V']).tolist()]))
    Frames.update_orientations(seg2)
    u, v, w = c.frames.body.transform_to_inertial[0].T.dot(case['V'])
    if math.hypot(u, w) < 1e-4 * np.linalg.norm(case['V']):
        raise Discard
    close(c2.frames.body.transform_to_inertial[0], R.dot(c.frames.body.transform_to_inertial[0]), rtol=0, atol=1e-9, what='body frame after turning to a new heading')
    close(c2.frames.wind.transform_to_inertial[0], R.dot(c.frames.wind.transform_to_inertial[0]), rtol=0, atol=1e-7, what='wind frame after turning to a new heading')
    close(math.remainder(c2.aerodynamics.angle_of_attack[0, 0] - c.aerodynamics.angle_of_attack[0, 0], 2 * PI), 0, atol=1e-7, what='angle of attack depends on the heading by')
    close(c2.aerodynamics.side_slip_angle[0, 0], c.aerodynamics.side_slip_angle[0, 0], rtol=0, atol=1e-7, what='sideslip depends on the heading')
    if abs(math.sin(dpsi)) > 1e-3:
        ctx.hit()


force = st.one_of(rng(-1e5, 1e5, [0.]), logrng(1, 1e6))
SUBS = [
    Sub('matrices', record(rot=st.lists(triple, min_size=1, max_size=4), seq=st.permutations([0, 1, 2]).map(list), vec=st.lists(st.tuples(comp, comp, comp).map(list), min_size=1, max_size=4), cs=st.integers(0, 2)),
        check_matrices, quick=1200, rule='at least two non-zero angles'),
    Sub('orientations', record(rot=st.lists(triple, min_size=1, max_size=3), V=st.lists(st.tuples(comp, comp, comp).map(list), min_size=1, max_size=3), L=st.lists(force, min_size=1, max_size=3), D=st.lists(force, min_size=1, max_size=3),
                               F=st.lists(st.tuples(force, force, force).map(list), min_size=1, max_size=3), W=st.lists(force, min_size=1, max_size=3)), check_orientations, quick=1200, rule='banked or sideslipping'),
    Sub('turn_about', record(rot=triple, V=st.tuples(comp, comp, comp).map(list), dpsi=ang), check_turn_about, quick=500, rule='heading changes'),
]
PROPERTY = Property('C12', SUBS, rule='Random attitudes (all three angles, beyond a full turn, gimbal-lock pitch), velocities in any direction and force magnitudes, against scipy rotations and geometric relations.',
                    assumptions=['speed above 0.1 m/s; angle of attack and sideslip compared only where the velocity is not along the lateral axis'])
