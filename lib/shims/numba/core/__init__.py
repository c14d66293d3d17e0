from . import errors, types
