from . import iters, modems, modems2, misc, structure, spectral, bindings  # noqa: F401
