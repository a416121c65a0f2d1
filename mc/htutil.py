"""Transforms used by the checks of the files."""


def snapshot(ht):
    """Everything a transform holds, as plain Python."""
    import numpy as np

    def l(a):
        return None if a is None else np.asarray(a, dtype=float).tolist()

    return dict(
        hough_points=l(ht.hough_points),
        hist=l(ht.hist),
        xedges=l(ht.xedges),
        yedges=l(ht.yedges),
        limits=[None if v is None else float(v) for v in (
            ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)],
        lines=None if ht.hough_lines is None else sorted(
            [float(a), float(b)] for a, b in ht.hough_lines),
    )


def ranked(ht):
    """The counts of the bins of the lines, in the order of the lines."""
    import numpy as np

    xe, ye = np.asarray(ht.xedges), np.asarray(ht.yedges)
    out = []
    for m, c in ht.hough_lines:
        i = int(np.searchsorted(xe, float(m))) - 1
        j = int(np.searchsorted(ye, float(c))) - 1
        out.append(float(ht.hist[i][j]))
    return out


def make(variant):
    """A few transforms with distinct contents and shapes."""
    import numpy as np
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    if variant == 0:
        ht.set_constraints(0.5, 2.5, 6.0, 9.5)
        ht.generate_hough_points(
            np.array([1.0, 2.0, 4.0]), np.array([8.0, 9.0, 12.0]), 5)
        ht.bin_hough_points(3, 2)
    elif variant == 1:
        ht.set_constraints(-1, 3, 5, 10)
        ht.generate_hough_points_brute_force(
            np.array([1.0, 2.0, 4.0, 4.5]), np.array([8.0, 9.0, 12.0, 12.5]))
        ht.bin_hough_points(2, 4)
    elif variant == 2:
        ht.set_constraints(0.1, 0.3, 1.0 / 3, 7.7)
        ht.generate_hough_points(
            np.array([0.1, 2.7]), np.array([1.0 / 7, 3.3]), 4)
        ht.bin_hough_points(1, 1)
    elif variant == 3:
        ht.set_constraints(1.0, 1.5, 0.0, 100.0)
        ht.generate_hough_points(
            np.arange(1.0, 6.0), 10.0 + 1.2 * np.arange(1.0, 6.0), 6)
        ht.bin_hough_points(6, 6)
    return ht
