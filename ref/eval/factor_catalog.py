import logging
import numpy as np
import pandas as pd
from tqdm.notebook import tqdm, tnrange
from esat_eval.factor_comparison import FactorCompare
logger = logging.getLogger(__name__)

class Factor:

    def __init__(self, name, profile, contribution, model_idx, method: str='raae', threshold: float=None):
        self.name = name
        self.factor = [(profile, contribution)]
        self.model = [model_idx]
        self.correlation = [0.0 if method == 'raae' else 1.0]
        self.samples = len(contribution)
        self.method = method
        self.threshold = threshold
        if threshold is None:
            if method == 'raae':
                self.threshold = 0.1
            else:
                self.threshold = 0.9

    def __repr__(self):
        return f'Factor: {self.name}, Count: {len(self.model)}, Mean Corr: {np.round(np.mean(self.correlation), 4)}, Method: {self.method}'

    def check_matrix(self, wh_j):
        corr_list = []
        for f in self.factor:
            f_H, f_W = f
            f_W = f_W.reshape(len(f_W), 1)
            f_wh = np.matmul(f_W, [f_H])
            corr = FactorCompare.calculate_correlation(factor1=f_wh.flatten(), factor2=wh_j.flatten())
            corr_list.append(corr)
        mean_corr = np.mean(corr_list)
        return mean_corr

    def check(self, H_j, W_j, profile_only: bool=False):
        n = 1 / len(W_j)
        j_W_mean = np.mean(W_j, axis=0)
        j_mass_matrix = j_W_mean * H_j / np.sum(j_W_mean * H_j)
        corr_list = []
        for f in self.factor:
            f_H, f_W = f
            if profile_only:
                corr = FactorCompare.calculate_correlation(factor1=f_H, factor2=H_j)
            elif self.method == 'raae':
                corr = np.sum(np.abs(f_W - W_j)) * n / (np.sum(f_W) * n)
            elif self.method == 'emc':
                f_W_mean = np.mean(f_W, axis=0)
                f_mass_matrix = f_W_mean * f_H / np.sum(f_W_mean * f_H)
                corr = FactorCompare.calculate_correlation(factor1=f_mass_matrix, factor2=j_mass_matrix)
            else:
                corr = FactorCompare.calculate_correlation(factor1=f_W.flatten(), factor2=W_j.flatten())
            corr_list.append(corr)
        mean_corr = np.mean(corr_list)
        return mean_corr

    def add(self, H_j, W_j, model_index, corr):
        self.factor.append((H_j, W_j))
        self.model.append(model_index)
        self.correlation.append(corr)

class FactorCatalog:

    def __init__(self, method: str='raae', threshold: float=0.9, exclude_outliers: bool=False, outlier_threshold: float=1.5):
        self.factors = {}
        self.threshold = threshold
        self.exclude_outliers = exclude_outliers
        self.outlier_threshold = outlier_threshold
        self.method = method
        self.idx = 0
        self.model_count = 0

    def summary(self):
        for i, f in self.factors.items():
            f_summary = repr(f) + f', %: {np.round(100 * len(f.model) / self.model_count)}'
            print(f_summary)

    def to_df(self):
        factor_occurrence = []
        factor_count = []
        factor_mean_corr = []
        for _, f in self.factors.items():
            factor_occurrence.append(round(100 * len(f.model) / self.model_count, 2))
            factor_count.append(len(f.model))
            factor_mean_corr.append(round(np.mean(f.correlation), 4))
        factors_df = pd.DataFrame(data={'factor': list(self.factors.keys()), 'count': factor_count, '% occurrence': factor_occurrence, 'mean corr': factor_mean_corr})
        factors_df = factors_df.sort_values(by='% occurrence', ascending=False)
        return factors_df

    def check_factor(self, H_i, W_i, profile_only: bool=False):
        best_factor = None
        best_corr = 1.0 if self.method == 'raae' else 0.0
        for f_label, f in self.factors.items():
            corr = f.check(H_i, W_i, profile_only)
            if self.method == 'raae':
                if corr < best_corr:
                    best_corr = corr
                    best_factor = f_label
            elif corr > best_corr:
                best_corr = corr
                best_factor = f_label
        return (best_factor, best_corr)

    def check_matrix(self, wh_i):
        best_factor = None
        best_corr = 0.0
        for f_label in tqdm(self.factors.keys(), desc='Comparing Cataloged Factor Matrices', leave=True):
            f = self.factors[f_label]
            corr = f.check_matrix(wh_i)
            if corr > best_corr:
                best_corr = corr
                best_factor = f_label
        return (best_factor, best_corr)

    def add_factor(self, H_i, W_i, model_index, profile_only: bool=False, verbose: bool=False):
        if self.model_count < model_index:
            self.model_count = model_index + 1
        add_new = False
        if self.idx == 0:
            add_new = True
        best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
        if self.method == 'raae':
            if best_corr > self.threshold:
                add_new = True
        elif best_corr < self.threshold:
            add_new = True
        if add_new:
            if verbose:
                logger.info(f'New Factor: {self.idx}, Model: {model_index}, Method: {self.method}, Best CORR: {best_corr}')
            new_factor = Factor(name=str(self.idx), profile=H_i, contribution=W_i, model_idx=model_index, method=self.method, threshold=self.threshold)
            self.factors[self.idx] = new_factor
            self.idx += 1
        else:
            if verbose:
                logger.info(f'Adding to Factor: {best_factor}, Model: {model_index}, Method: {self.method}, Best CORR: {best_corr}')
            self.factors[best_factor].add(H_j=H_i, W_j=W_i, model_index=model_index, corr=best_corr)
        return add_new

    def add_batch(self, batch_results, profile_only: bool=False, verbose: bool=False):
        loss_min = None
        if self.exclude_outliers:
            loss_list = []
            for model in batch_results.results:
                loss_list.append(model.Qtrue)
            loss_min = np.min(loss_list)
            logger.info(f'Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}')
        new_factors = []
        for i in tnrange(len(batch_results.results), desc='Analyzing Models', leave=True):
            model = batch_results.results[i]
            if self.exclude_outliers:
                if model.Qtrue > loss_min * self.outlier_threshold:
                    continue
            for f in range(model.factors):
                H_f = model.H[f]
                W_f = model.W[:, f]
                new_factor = self.add_factor(H_i=H_f, W_i=W_f, model_index=i, profile_only=profile_only, verbose=verbose)
                new_factors.append(new_factor)
        return sum(new_factors)

    def add_model(self, model_i: int, model, profile_only: bool=False, verbose: bool=False):
        new_factors = []
        for f in range(model.factors):
            H_f = model.H[f]
            W_f = model.W[:, f]
            new_factor = self.add_factor(H_i=H_f, W_i=W_f, model_index=model_i, profile_only=profile_only, verbose=verbose)
            new_factors.append(new_factor)
        return sum(new_factors)

    def compare_factor(self, factor):
        best_factor = None
        best_corr = 0.0
        for f_label in tqdm(self.factors.keys(), desc='Comparing Cataloged Factors', leave=True):
            f = self.factors[f_label]
            corr_list = []
            for fi in tqdm(factor.factor, desc='Comparing Factor Members', leave=False):
                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
                corr_list.append(corr)
            mean_corr = np.mean(corr_list)
            if mean_corr > best_corr:
                best_corr = mean_corr
                best_factor = f_label
        return (best_factor, best_corr)
