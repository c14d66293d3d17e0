"""Stand-in for the statistical tests of scipy (interpreter without scipy)."""
from . import stats  # noqa
