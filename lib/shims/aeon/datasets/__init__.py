"""Stand-in archive: datasets registered by workloads."""
DATA = {}
LOG = []


def load_classification(name, split=None, extract_path=None, return_metadata=False, **k):
    LOG.append((name, split))
    d = DATA[name]
    s = None if split is None else split.lower()
    if s in ('train', 'test'):
        X, y = d[s]
    else:
        a, b = d['train'], d['test']
        import numpy as np
        X = np.concatenate([a[0], b[0]]) if isinstance(a[0], np.ndarray) else list(a[0]) + list(b[0])
        y = np.concatenate([a[1], b[1]])
    import copy
    X, y = copy.deepcopy(X), copy.deepcopy(y)
    return (X, y, {}) if return_metadata else (X, y)
