"""Independent geometry: ellipses through the eclipse contact points.

Nothing here shares a formula with the code under test: an ellipse centred
on (dx, dy) is the quadratic form  A X^2 + 2 B X Y + C Y^2 = 1  in
coordinates relative to its centre.  Demanding that it passes through
(-1/2, 0) and (1/2, 0) leaves one free parameter (A) when dy != 0:

    B = -A dx / dy,   C = (1 - A (1/4 - dx^2)) / dy^2.
"""
import numpy as np


def form_from_axes(radius, inclination, tilt):
    """Quadratic form of an ellipse with semi-major axis radius."""
    t = np.deg2rad(tilt)
    inverse_a = 1 / radius**2
    inverse_b = inverse_a / np.cos(np.deg2rad(inclination))**2
    c, s = np.cos(t), np.sin(t)
    return (c * c * inverse_a + s * s * inverse_b,
        c * s * (inverse_a - inverse_b),
        s * s * inverse_a + c * c * inverse_b)


def covariance_from_axes(radius, inclination, tilt):
    """Second moments M M^T of the linear map circle -> ellipse."""
    t = np.deg2rad(tilt)
    a2 = radius**2
    b2 = a2 * np.cos(np.deg2rad(inclination))**2
    c, s = np.cos(t), np.sin(t)
    return c * c * a2 + s * s * b2, c * s * (a2 - b2), s * s * a2 + c * c * b2


def covariance_from_stretch(fx, fy, dx, dy):
    """Same for: circle of radius hypot(1/2, dy), stretched, then sheared."""
    r2 = 0.25 + dy**2
    with np.errstate(all="ignore"):
        shear = np.where(dy == 0, 0.0, dx / np.where(dy == 0, 1, dy))
    # (x, y) -> (fx x + shear fy y, fy y)
    return (r2 * (fx**2 + (shear * fy)**2), r2 * shear * fy**2, r2 * fy**2)


def edge_residual(radius, inclination, tilt, dx, dy, sign):
    """How far the contact point (sign/2, 0) is from the ellipse (0 = on)."""
    t = np.deg2rad(tilt)
    c, s = np.cos(t), np.sin(t)
    x, y = sign * 0.5 - dx, 0.0 - dy
    u = (c * x + s * y) / radius
    v = (-s * x + c * y) / radius
    b = np.cos(np.deg2rad(inclination))
    # compare in units of the radius: |v| must be b sqrt(1 - u^2)
    return v**2 - b**2 * (1 - u**2)


def radius_from_s(s, dx, dy):
    """Semi-major axis of the member with A = 4 (1 - s) (dy != 0).

    In terms of s nothing cancels when dy is small.
    """
    a = 4 * (1 - s)
    b = -a * dx / dy
    c = (s + a * dx**2) / dy**2
    mean, diff = (a + c) / 2, (a - c) / 2
    # lambda_min = det / lambda_max
    determinant = a * s / dy**2
    largest = mean + np.hypot(diff, b)
    with np.errstate(all="ignore"):
        smallest = determinant / largest
        return np.where(smallest > 0, 1 / np.sqrt(smallest), np.inf)


def s_from_fx(fx, dy):
    # 1 - A / 4 with A = 1 / (fx^2 (1/4 + dy^2)), without cancellation
    return ((fx - 1) * (fx + 1) * 0.25 + fx**2 * dy**2) / (fx**2
        * (0.25 + dy**2))


def s_from_fy(fy, dy):
    # C - B^2/A = 1 / (fy r)^2, and det = A s / dy^2
    return dy**2 / (fy**2 * (0.25 + dy**2))


def smallest(dx, dy, iterations=110):
    """Minimum semi-major axis over all admissible ellipses, and its s.

    1/R^2 is the smallest eigenvalue of a matrix that depends affinely on s,
    hence concave in s: a section search over (0, 1) is exact.
    """
    low = np.zeros(np.broadcast(dx, dy).shape)
    high = low + 1.0
    ratio = (np.sqrt(5) - 1) / 2
    for _ in range(iterations):
        left = high - ratio * (high - low)
        right = low + ratio * (high - low)
        smaller = radius_from_s(left, dx, dy) < radius_from_s(right, dx, dy)
        high = np.where(smaller, right, high)
        low = np.where(smaller, low, left)
    s = (low + high) / 2
    return radius_from_s(s, dx, dy), s


def tangent_gradient(radius, inclination, tilt, dx, dy, position):
    """|sin| of the angle of the tangent at (position, 0).

    The concentric scaled copy through a point has its normal there along
    the gradient of the quadratic form.
    """
    a, b, c = form_from_axes(radius, inclination, tilt)
    x, y = position - dx, 0.0 - dy
    along_x = a * x + b * y
    along_y = b * x + c * y
    length = np.hypot(along_x, along_y)
    with np.errstate(all="ignore"):
        # tangent direction is (-along_y, along_x)
        return np.abs(along_x) / length
