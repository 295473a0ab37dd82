"""Property-based checks of hypothesis_geometry."""

from hypothesis.internal.conjecture import providers as _providers

# Hypothesis mixes constants found in the source code of local modules into
# what it draws, depending on which modules happen to be loaded: then neither
# the checks nor their helper processes would be a function of the seed.
if hasattr(_providers, '_get_local_constants'):
    _providers._get_local_constants = lambda: _providers._local_constants
