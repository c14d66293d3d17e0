class NotFittedError(ValueError, AttributeError):
    pass


class DataConversionWarning(UserWarning):
    pass


class ConvergenceWarning(UserWarning):
    pass
