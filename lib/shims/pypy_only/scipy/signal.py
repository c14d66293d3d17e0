"""periodogram as scipy defines it (one-sided density of one real series)."""
import numpy as np

WINDOWS = {None: [1.0], 'boxcar': [1.0], 'hann': [0.5, 0.5], 'hamming': [0.54, 0.46], 'blackman': [0.42, 0.5, 0.08],
           'blackmanharris': [0.35875, 0.48829, 0.14128, 0.01168],
           'flattop': [0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368]}


def get_window(name, n, fftbins=True):
    if not isinstance(name, (str, type(None))):
        return np.asarray(name, dtype=float)
    if name not in WINDOWS:
        raise NotImplementedError('window %r' % (name,))
    t = np.arange(n) * 2 * np.pi / (n if fftbins else n - 1)
    return sum((-1) ** k * a * np.cos(k * t) for k, a in enumerate(WINDOWS[name])) + np.zeros(n)


def periodogram(x, fs=1.0, window='boxcar', nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1):
    if nfft is not None or not return_onesided:
        raise NotImplementedError('periodogram options')
    x = np.moveaxis(np.asarray(x), axis, -1)
    dt = np.result_type(x, np.complex64)
    if detrend == 'constant':
        x = x - x.mean(axis=-1, keepdims=True)
    elif detrend:
        raise NotImplementedError('detrend')
    n = x.shape[-1]
    w = get_window(window, n)
    s = 1.0 / (fs * (w * w).sum()) if scaling == 'density' else 1.0 / w.sum() ** 2
    p = (np.abs(np.fft.rfft(x * w, axis=-1)) ** 2) * s
    if n % 2:
        p[..., 1:] *= 2
    else:
        p[..., 1:-1] *= 2
    return np.fft.rfftfreq(n, 1.0 / fs), np.moveaxis(p.astype(dt.type(0).real.dtype), -1, axis)
