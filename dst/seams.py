"""Process set-up: install every seam before the product is imported from the repository's working tree."""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("HERMES_REPO", "/repo")
_done = False


def env():
    e = dict(os.environ)
    e.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        RAY_USAGE_STATS_ENABLED="0",
        COLUMNS="200",
        TERM="dumb",
    )
    return e


def install():
    """Install the seams and import the product. Idempotent."""
    global _done
    if _done:
        return
    _done = True
    from . import core, fakeray

    sys.meta_path[:] = [m for m in sys.meta_path if "ScikitBuildRedirectingFinder" not in type(m).__name__]
    sys.path.insert(0, REPO)

    # heavy third-party libraries first, with the real primitives
    import numpy, scipy, scipy.io, scipy.signal, scipy.constants, scipy.stats, scipy.fft  # noqa
    import matplotlib.pyplot  # noqa

    fakeray.install()
    core.install_time()
    core.install_threading()
    from . import fakefs, fakeh5, sig

    fakeh5.install()
    sig.install()
    fakefs.install()

    # optional toolboxes print diagnostics on import
    fd = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        import hermespy  # noqa
        import hermespy.core  # noqa
        import hermespy.simulation  # noqa
        import hermespy.hardware_loop  # noqa
        import hermespy.modem  # noqa
        import hermespy.radar  # noqa
        import hermespy.channel  # noqa
    finally:
        os.dup2(fd, 2)
        os.close(fd)
        os.close(null)
    where = os.path.realpath(hermespy.__file__ if getattr(hermespy, "__file__", None) else list(hermespy.__path__)[0])
    if not where.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"product imported from {where}, not from {REPO}")
