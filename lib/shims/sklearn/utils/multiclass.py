import numpy as np


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y) for y in ys]))


def check_classification_targets(y):
    pass
