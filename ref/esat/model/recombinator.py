import numpy as np
import typing as tp

def mlag(x: np.ndarray, n: tp.Optional[int]=1, init: tp.Optional[float]=0.0) -> np.ndarray:
    nobs, nvar = x.shape
    xlag = np.ones((nobs, nvar * n), dtype=x.dtype) * init
    icnt = 0
    for i in range(nvar):
        for j in range(n):
            xlag[j + 1:, icnt + j] = x[0:-j - 1, i]
        icnt += n
    return xlag

def lam(kk: np.ndarray) -> np.ndarray:
    return (np.abs(kk) >= 0) * (np.abs(kk) < 0.5) + 2 * (1.0 - np.abs(kk)) * (np.abs(kk) >= 0.5) * (np.abs(kk) <= 1)

class OptimalBlockLength(tp.NamedTuple):
    b_star_sb: float
    b_star_cb: float

def optimal_block_length(data: np.ndarray) -> tp.Sequence[OptimalBlockLength]:
    if data.ndim == 1:
        data = data.reshape((-1, 1))
    elif data.ndim > 2:
        raise ValueError('data must be a two dimensional NumPy array(number of observations x number of variables)')
    n, k = data.shape
    kn = int(max(5, np.sqrt(np.log10(n))))
    m_max = int(np.ceil(np.sqrt(n)) + kn)
    b_max = np.ceil(min(3 * np.sqrt(n), n / 3))
    c = 2
    original_data = data
    b_star_final = []
    for i in range(k):
        data = original_data[:, i].reshape((-1, 1))
        temp = mlag(data, m_max)
        temp = temp[m_max:, :]
        temp = np.corrcoef(np.hstack((data[m_max:], temp)), rowvar=False)
        temp = temp[1:, 0].reshape((-1, 1))
        temp2 = np.hstack((np.transpose(mlag(temp, kn)), temp[-kn:]))
        temp2 = temp2[:, kn:]
        temp2 = np.abs(temp2) < c * np.sqrt(np.log10(n) / n) * np.ones((kn, m_max - kn + 1))
        temp2 = np.sum(temp2, axis=0).reshape((1, -1))
        temp3 = np.hstack((np.arange(1, temp2.shape[1] + 1).reshape((-1, 1)), temp2.transpose()))
        temp3 = temp3[np.squeeze(temp2 == kn), :]
        if temp3.size == 0:
            m_hat = max(np.flatnonzero(np.abs(temp) > c * np.sqrt(np.log10(n) / n)))
        else:
            m_hat = temp3[0, 0]
        if 2 * m_hat > m_max:
            m = m_max
        else:
            m = 2 * m_hat
        del temp, temp2, temp3
        kk = np.arange(-m, m + 1).reshape((-1, 1))
        if m > 0:
            temp = mlag(data, m)
            temp = temp[m:, :]
            temp = np.cov(np.hstack((data[m:], temp)).transpose())
            acv = temp[:, 0].reshape((-1, 1))
            acv2 = np.hstack((-np.arange(1, m + 1).reshape((-1, 1)), acv[1:, :]))
            if acv2.shape[0] > 1:
                acv2 = acv2[acv2[:, 0].argsort(),]
            acv = np.vstack((acv2[:, 1].reshape((-1, 1)), acv))
            del acv2
            g_hat = np.sum(lam(kk / m) * np.abs(kk) * acv)
            dcb_hat = 4.0 / 3.0 * np.sum(lam(kk / m) * acv) ** 2
            dsb_hat = 2 * np.sum(lam(kk / m) * acv) ** 2
            b_star_sb = (2 * g_hat ** 2 / dsb_hat) ** (1.0 / 3.0) * n ** (1.0 / 3.0)
            if b_star_sb > b_max:
                b_star_sb = b_max
            b_star_cb = (2 * g_hat ** 2 / dcb_hat) ** (1.0 / 3.0) * n ** (1.0 / 3.0)
            if b_star_cb > b_max:
                b_star_cb = b_max
            b_star = OptimalBlockLength(b_star_sb=b_star_sb, b_star_cb=b_star_cb)
        else:
            b_star = OptimalBlockLength(b_star_sb=1.0, b_star_cb=1.0)
        b_star_final.append(b_star)
    return tuple(b_star_final)
