from esat.model.ls_nmf import LSNMF
from esat.model.ws_nmf import WSNMF
from esat.utils import np_encoder
from esat.metrics import q_loss, qr_loss, EPSILON
from scipy.cluster.vq import kmeans2, whiten
from tqdm import trange
from datetime import datetime
from pathlib import Path
import numpy as np
import types
import logging
import pickle
import json
import time
import os
logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
logger = logging.getLogger(__name__)

class SA:

    def __init__(self, V: np.ndarray, U: np.ndarray, factors: int, method: str='ls-nmf', seed: int=42, parallel: bool=True, verbose: bool=False, use_gpu: bool=True):
        self.V = V.astype(np.float32)
        self.U = U.astype(np.float32)
        self.U[(self.U >= 0.0) & (self.U < EPSILON)] = EPSILON
        self.We = np.divide(1, self.U ** 2).astype(np.float32)
        self.m, self.n = self.V.shape
        self.factors = int(factors)
        self.H = None
        self.W = None
        self.method = method.lower() if method.lower() in ('ls-nmf', 'ws-nmf') else 'ls-nmf'
        self.init_method = 'column_mean'
        self.seed = 42 if seed is None else seed
        self.rng = np.random.default_rng(self.seed)
        self.use_gpu = use_gpu
        self.Qrobust = None
        self.Qtrue = None
        self.WH = None
        self.q_list = None
        self.model_i = 1
        self.metadata = {'creation_date': datetime.now().strftime('%m/%d/%Y, %H:%M:%S %Z'), 'method': self.method, 'seed': self.seed, 'samples': int(self.m), 'features': int(self.n), 'factors': self.factors}
        self.converged = False
        self.converge_steps = 0
        self.parallel = parallel
        self.verbose = verbose
        self.__has_neg = False
        self.__validate()
        self.__validated = False
        self.__initialized = False
        self.update_step = WSNMF.update
        if self.method == 'ls-nmf' and (not self.__has_neg):
            self.update_step = LSNMF.update
        self.optimized = True
        if self.optimized:
            try:
                import esat_rust
                if self.method == 'ls-nmf' and (not self.__has_neg):
                    self.optimized_update = esat_rust.ls_nmf
                else:
                    self.optimized_update = esat_rust.ws_nmf
            except ModuleNotFoundError:
                logger.error('Unable to load optimized Rust module, reverting to python code.')
                self.optimized = False

    def __validate(self):
        has_neg = False
        validated = True
        if type(self.V) != np.ndarray:
            logger.error(f'Input dataset V is not a numpy array. Current type: {type(self.V)}')
            validated = False
        else:
            if np.any(np.isnan(self.V)):
                logger.error('Input dataset V contains missing or invalid values.')
                validated = False
            if self.V.min() < 0.0:
                has_neg = True
        if type(self.U) != np.ndarray:
            logger.error(f'Uncertainty dataset U is not a numpy array. Current type: {type(self.U)}')
            validated = False
        else:
            if np.any(np.isnan(self.U)):
                logger.error('Uncertainty dataset U contains missing or invalid values.')
                validated = False
            if self.U.min() < 0.0:
                logger.error('Uncertainty dataset U contains negative values, matrix can only contain positive values.')
                validated = False
        if type(self.V) == np.ndarray and type(self.U) == np.ndarray:
            if self.V.shape != self.U.shape:
                logger.error(f'The input and uncertainty datasets must have the same dimensions. Current V: {self.V.shape}, U: {self.U.shape}.')
                validated = False
        if self.H is not None:
            if type(self.H) != np.ndarray:
                logger.error(f'Factor profile matrix H is not a numpy array. Current type: {type(self.H)}')
                validated = False
            else:
                if self.H.shape != (self.factors, self.n):
                    logger.error(f'Factor profile matrix H must have dimensions of ({self.factors}, {self.n}). Current dimensions {self.H.shape}')
                    validated = False
                if np.any(np.isnan(self.H)):
                    logger.error('Factor profile matrix H contains missing or invalid values.')
                    validated = False
                if self.H.min() < 0.0:
                    logger.error('Factor profile matrix H contains negative values, matrix can only contain positive values.')
                    validated = False
        else:
            validated = False
        if self.W is not None:
            if type(self.W) != np.ndarray:
                logger.error(f'Factor contribution matrix W is not a numpy array. Current type: {type(self.W)}')
                validated = False
            else:
                if self.W.shape != (self.m, self.factors):
                    logger.error(f'Factor contribution matrix W must have dimensions of ({self.m}, {self.factors}). Current dimensions {self.W.shape}')
                    validated = False
                if np.any(np.isnan(self.W)):
                    logger.error('Factor contribution matrix W contains missing or invalid values.')
                    validated = False
                if self.W.min() < 0.0:
                    has_neg = True
        else:
            validated = False
        self.__validated = validated
        self.__has_neg = has_neg

    def initialize(self, H: np.ndarray=None, W: np.ndarray=None, init_method: str='column_mean', init_norm: bool=True):
        self.metadata['init_method'] = init_method
        obs = self.V
        if init_norm:
            obs = whiten(obs=self.V)
        prior_H = None
        if H is not None:
            if H.shape != (self.factors, self.n):
                prior_H = H
                H = None
            else:
                H = H.copy()
        if 'kmeans' in init_method.lower():
            self.metadata['init_norm'] = init_norm
            centroids, clusters = kmeans2(data=obs, k=self.factors, seed=self.seed)
            contributions = np.zeros(shape=(len(clusters), self.factors)) + 1.0 / self.factors
            for i, c in enumerate(clusters):
                contributions[i, c] = self.rng.normal(1.0, 0.1, None)
            W = contributions if W is None else W
            H = centroids if H is None else H
            if self.verbose:
                logger.debug(f'Factor profile and contribution matrices initialized using k-means clustering. The observations were {('not' if not init_norm else '')} normalized.')
        else:
            VH_mean = np.mean(self.V, axis=0)
            VW_mean = np.mean(self.V, axis=1)
            if H is None:
                V_avg = np.sqrt(VH_mean / self.factors)
                H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
            if 'update' in init_method.lower():
                if self.method == 'ls-nmf':
                    W = np.matmul(self.V, np.maximum(H, 1e-12).T)
                else:
                    W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
            if W is None:
                V_avg = np.sqrt(VW_mean / self.factors)
                V_avg = V_avg.reshape(len(V_avg), 1)
                W = np.multiply(V_avg, self.rng.standard_normal(size=(self.m, self.factors)).astype(self.V.dtype, copy=False))
                if self.method == 'ls-nmf':
                    W[W <= 0.0] = 1e-12
            if self.verbose and (H is None and W is None):
                logger.debug(f'Factor profile and contribution matrices initialized using random selection from a normal distribution with a mean determined from the column mean divided by the number of factors.')
        if prior_H is not None:
            for i in range(prior_H.shape[0]):
                H[i] = prior_H[i]
            H = H / H.sum(axis=0)
        H[H <= 0.0] = 1e-12
        self.H = H
        self.W = W
        self.init_method = init_method
        self.__initialized = True
        if self.verbose:
            logger.debug('Completed initializing the factor profile and contribution matrices.')
        self.__validate()
        if self.__has_neg:
            self.update_step = WSNMF.update
            if self.optimized:
                import esat_rust
                self.optimized_update = esat_rust.ws_nmf

    def summary(self):
        logger.info('------------\t\tModel Details\t\t-----------')
        logger.info(f'\tMethod: {self.method}\t\t\t\tFactors: {self.factors}')
        logger.info(f'\tNumber of Features: {self.n}\t\t\tNumber of Samples: {self.m}')
        logger.info(f'\tRandom Seed: {self.seed}')
        if self.WH is not None:
            logger.info('---------------\t\tModel Results\t\t--------------')
            logger.info(f'\tQ(true): {float(self.Qtrue):.4f}\t\t\tQ(robust): {float(self.Qrobust):.4f}')
            logger.info(f'\tMSE(true): {float(self.Qtrue / self.V.size):.4f}\t\t\tMSE(robust): {float(self.Qrobust / self.V.size):.4f}')
            logger.info(f'\tConverged: {self.converged}\t\t\t\tConverge Steps: {self.converge_steps}')
        logger.info('------------------------------------------------------')

    def train(self, max_iter: int=20000, converge_delta: float=0.1, converge_n: int=100, model_i: int=1, robust_mode: bool=False, robust_n: int=200, robust_alpha: float=4, hold_h: bool=False, delay_h: int=-1, update_step: str=None, progress_callback: callable=None):
        if not self.__initialized:
            logger.warning('Model is not initialized, initializing with default parameters')
            self.initialize()
        if not self.__validated:
            logger.error('Current model inputs and parameters are not valid.')
            return -1
        update = None
        if update_step is not None:
            lcls = locals()
            exec(update_step, globals(), lcls)
            self.update_step = types.MethodType(lcls['update'], self)
        converged = False
        self.converged = False
        self.converge_steps = 0
        q_list = []
        if self.optimized:
            t0 = time.time()
            try:
                results_dict = self.optimized_update(self.V.astype(np.float32), self.U.astype(np.float32), self.We.astype(np.float32), self.W.astype(np.float32), self.H.astype(np.float32), max_iter, converge_delta, converge_n, robust_alpha, model_i, hold_h, delay_h, progress_callback, self.use_gpu)
                self.W = results_dict['w']
                self.H = results_dict['h']
                q = results_dict['q']
                self.converged = results_dict['converged']
                self.converge_steps = results_dict['converge_i']
                q_list = results_dict['q_list']
            except RuntimeError as ex:
                logger.error(f'Runtime Exception: {ex}')
                return False
            q_true = q_loss(V=self.V, U=self.U, W=self.W, H=self.H)
            q_robust, U_robust = qr_loss(V=self.V, U=self.U, W=self.W, H=self.H, alpha=robust_alpha)
            t1 = time.time()
        else:
            prior_q = []
            t_iter = trange(max_iter, desc=f'Model: {model_i}, Seed: {self.seed}, Q(true): NA, MSE(true): NA, Q(robust): NA, MSE(robust): NA, dQ: NA', position=0, leave=True, disable=not self.verbose)
            for i in t_iter:
                if delay_h > 0 and i > delay_h:
                    hold_h = False
                self.W, self.H = self.update_step(V=self.V, We=self.We, W=self.W, H=self.H, hold_h=hold_h)
                q_true = q_loss(V=self.V, U=self.U, W=self.W, H=self.H)
                q_robust, U_robust = qr_loss(V=self.V, U=self.U, W=self.W, H=self.H, alpha=robust_alpha)
                q = q_true
                prior_q.append(q)
                q_list.append(q)
                if np.isnan(q) or np.isnan(q_robust):
                    logger.error(f'Stopping SA model train due to loss value being NAN. Q(true): {q_true}, Q(robust): {q_robust}')
                    break
                delta_q = 0.0
                if len(prior_q) > converge_n:
                    prior_q.pop(0)
                    delta_q_first = prior_q[0]
                    delta_q_last = prior_q[-1]
                    delta_q = delta_q_first - delta_q_last
                    if delta_q < converge_delta:
                        converged = True
                t_iter.set_description(f'Model: {model_i}, Seed: {self.seed}, Q(true): {float(q_true):.4f}, MSE(true): {float(q_true / self.V.size):.4f}, Q(robust): {float(q_robust):.4f}, MSE(robust): {float(q_robust / self.V.size):.4f}, dQ: {float(delta_q):.4f}')
                t_iter.refresh()
                if converged:
                    self.converged = True
                    break
                self.converge_steps += 1
        self.model_i = model_i
        self.WH = np.matmul(self.W, self.H)
        self.Qtrue = q_loss(V=self.V, U=self.U, W=self.W, H=self.H)
        self.Qrobust, _ = qr_loss(V=self.V, U=self.U, W=self.W, H=self.H, alpha=robust_alpha)
        self.q_list = q_list
        self.metadata['completion_date'] = datetime.now().strftime('%m/%d/%Y, %H:%M:%S %Z')
        self.metadata['max_iterations'] = int(max_iter)
        self.metadata['converge_delta'] = float(converge_delta)
        self.metadata['converge_n'] = int(converge_n)
        self.metadata['model_i'] = int(model_i)
        self.metadata['robust_mode'] = robust_mode

    def save(self, model_name: str, output_directory: str, pickle_model: bool=False, header: list=None):
        factor_header = ''
        if header is not None:
            factor_header = [f'Factor {i + 1}' for i in range(self.factors)]
            factor_header = ','.join(factor_header)
            header = ','.join(header)
        else:
            header = []
        output_directory = Path(output_directory)
        if not output_directory.is_absolute():
            logger.error('Provided output directory is not an absolute path. Must provide an absolute path.')
            return None
        if os.path.exists(output_directory):
            if pickle_model:
                file_path = os.path.join(output_directory, f'{model_name}.pkl')
                with open(file_path, 'wb') as save_file:
                    pickle.dump(self, save_file)
                    logger.info(f'SA model saved to pickle file: {file_path}')
            else:
                file_path = output_directory
                meta_file = os.path.join(output_directory, f'{model_name}-metadata.json')
                with open(meta_file, 'w') as mfile:
                    json.dump(self.metadata, mfile, default=np_encoder)
                    logger.info(f'SA model metadata saved to file: {meta_file}')
                profile_file = os.path.join(output_directory, f'{model_name}-profile.csv')
                with open(profile_file, 'w') as pfile:
                    profile_comment = f'Factor Profile (H) Matrix\nMetadata File: {meta_file}\n\n'
                    np.savetxt(pfile, self.H, delimiter=',', header=header, comments=profile_comment)
                    logger.info(f'SA model factor profile saved to file: {profile_file}')
                contribution_file = os.path.join(output_directory, f'{model_name}-contribution.csv')
                with open(contribution_file, 'w') as cfile:
                    contribution_comment = f'Factor Contribution (W) Matrix\nMetadata File: {meta_file}\n\n'
                    np.savetxt(cfile, self.W, delimiter=',', header=factor_header, comments=contribution_comment)
                    logger.info(f'SA model factor contribution saved to file: {contribution_file}')
                v_prime_file = os.path.join(output_directory, f'{model_name}-vprime.csv')
                with open(v_prime_file, 'w') as vpfile:
                    vp_comment = f"Estimated Data (WH=V') Matrix\nMetadata File: {meta_file}\n\n"
                    np.savetxt(vpfile, self.WH, delimiter=',', header=header, comments=vp_comment)
                    logger.info(f"SA model ' saved to file: {v_prime_file}")
                residual_file = os.path.join(output_directory, f'{model_name}-residuals.csv')
                with open(residual_file, 'w') as rfile:
                    residual_comment = f"Residual Matrix (V-V')\nMetadata File: {meta_file}\n\n"
                    residuals = self.V - self.WH
                    np.savetxt(rfile, residuals, delimiter=',', header=header, comments=residual_comment)
                    logger.info(f'SA model residuals saved to file: {residual_file}')
            return file_path
        else:
            logger.error(f'Output directory does not exist. Specified directory: {output_directory}')
            return None

    @staticmethod
    def load(file_path: str):
        file_path = Path(file_path)
        if not file_path.is_absolute():
            logger.error('Provided path is not an absolute path. Must provide an absolute path.')
            return None
        if os.path.exists(file_path):
            try:
                with open(file_path, 'rb') as pfile:
                    sa = pickle.load(pfile)
                    return sa
            except pickle.PickleError as p_error:
                logger.error(f'Failed to load SA pickle file {file_path}. \nError: {p_error}')
                return None
        else:
            logger.error(f'SA load file failed, specified pickle file does not exist. File Path: {file_path}')
            return None
