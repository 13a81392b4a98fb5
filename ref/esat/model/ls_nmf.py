import numpy as np

class LSNMF:

    @staticmethod
    def update(V: np.ndarray, We: np.ndarray, W: np.ndarray, H: np.ndarray, hold_h: bool=False):
        WeV = np.multiply(We, V)
        if not hold_h:
            WH = np.matmul(W, H)
            H_num = np.matmul(W.T, WeV)
            H_den = np.matmul(W.T, np.multiply(We, WH))
            H = np.multiply(H, np.divide(H_num, H_den))
        WH = np.matmul(W, H)
        W_num = np.matmul(WeV, H.T)
        W_den = np.matmul(np.multiply(We, WH), H.T)
        W = np.multiply(W, np.divide(W_num, W_den))
        return (W, H)
