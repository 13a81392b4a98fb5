import sys
import os
import re
from esat.model.sa import SA
from esat.data.datahandler import DataHandler
from esat.utils import np_encoder, min_timestep
from esat.metrics import q_loss, qr_loss
from tqdm import trange
from datetime import datetime
from scipy import optimize
from pathlib import Path
from plotly.subplots import make_subplots
import plotly.graph_objects as go
import plotly.express as px
import plotly.figure_factory as ff
import numpy as np
import pandas as pd
import logging
import copy
import pickle
import json
import time
logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
logger = logging.getLogger(__name__)

class Constraint:
    type_list = ('pull down', 'pull up', 'pull to value', 'set to zero', 'set to base value', 'define limits')

    def __init__(self, constraint_type: str, index: tuple, target: str, target_values=None):
        self.constraint_type = constraint_type
        self.index = index
        self.target = target
        self.target_values = target_values

    def describe(self, label):
        logger.info(self.tostring(label=label))

    def tostring(self, label: str=None):
        string_statement = f'Type: {self.constraint_type}, Index: {self.index}, Target: {self.target}'
        if label is not None:
            string_statement = f'Label: {label}, ' + string_statement
        if self.constraint_type in ('pull down', 'pull up'):
            string_statement += f', dQ: {self.target_values}'
        elif self.constraint_type == 'pull to value':
            string_statement += f', Value: {self.target_values[0]}, dQ: {self.target_values[1]}'
        elif self.constraint_type == 'define limits':
            string_statement += f', Min Value: {self.target_values[0]}, Max Value: {self.target_values[1]}'
        return string_statement

class ConstrainedModel:

    def __init__(self, base_model: SA, data_handler: DataHandler, softness: float=1.0):
        self.base_model = base_model
        self.dh = data_handler
        self.softness = softness
        self.soft_W = np.ones(shape=self.base_model.W.shape[0]) * self.softness
        self.soft_H = np.ones(shape=self.base_model.H.shape[0]) * self.softness
        self.soft_W2 = np.square(self.soft_W)
        self.soft_H2 = np.square(self.soft_H)
        self.constraints = {}
        self.expressions = []
        self.expression_labeled = None
        self.expression_mapped = None
        self.constrained_model = None
        self.Qaux = None
        self.metadata = {}
        self.update = self.base_model.update_step

    def add_constraint(self, constraint_type: str, index: tuple, target: str, target_value: float=None, min_value: float=None, max_value: float=None, dQ: float=None):
        constraint_label = ''
        if constraint_type not in Constraint.type_list:
            logger.error(f'Error: Invalid constraint type. Provided: {constraint_type}. Valid types are {Constraint.type_list}')
            return False
        if target == 'feature':
            if index[0] >= self.base_model.factors or index[0] < 0:
                logger.error(f'Error: Invalid constraint index. Provided: {index}. Valid ranges are (0:{self.base_model.factors - 1}, 0:{self.base_model.n})')
                return False
            if index[1] >= self.base_model.n or index[1] < 0:
                logger.error(f'Error: Invalid constraint index. Provided: {index}. Valid ranges are (0:{self.base_model.factors - 1}, 0:{self.base_model.n})')
                return False
            constraint_label = f'factor:{index[0]}|feature:{index[1]}'
        elif target == 'sample':
            if index[0] >= self.base_model.m or index[0] < 0:
                logger.error(f'Error: Invalid constraint index. Provided: {index}. Valid ranges are (0:{self.base_model.m - 1}, 0:{self.base_model.factors})')
                return False
            if index[1] >= self.base_model.factors or index[1] < 0:
                logger.error(f'Error: Invalid constraint index. Provided: {index}. Valid ranges are (0:{self.base_model.m - 1}, 0:{self.base_model.factors})')
                return False
            constraint_label = f'factor:{index[1]}|sample:{index[0]}'
        else:
            logger.error(f'Error: Invalid constraint target. Provided: {target}. Valid targets are feature or sample')
            return False
        if constraint_label in self.constraints.keys():
            logger.error(f'Error: Unable to set more than one constraint on a factor element. Existing constraint found.')
            return False
        target_values = None
        if constraint_type in ('pull down', 'pull up'):
            target_values = dQ
        elif constraint_type == 'pull to value':
            target_values = (target_value, dQ)
        elif constraint_type == 'define limits':
            target_values = (min_value, max_value)
        new_constraint = Constraint(constraint_type=constraint_type, index=index, target=target, target_values=target_values)
        self.constraints[constraint_label] = new_constraint
        return True

    def remove_constraint(self, constraint_label):
        self.constraints.pop(constraint_label)

    def list_constraints(self):
        logger.info(f'Constraint List - Count: {len(self.constraints.keys())}')
        for c_key, constraint in self.constraints.items():
            constraint.describe(label=c_key)

    def add_expression(self, expression):
        self.expressions.append(expression)
        return True

    def list_expressions(self):
        logger.info(f'Expression List - Count: {len(self.expressions)}')
        for i, exp in enumerate(self.expressions):
            logger.info(f'{i}: {exp}')

    def remove_expression(self, expression_idx):
        if 0 <= expression_idx < len(self.expressions):
            del self.expressions[expression_idx]

    def _apply_constraints(self, iW, iH, D_w, D_h):
        for label, constraint in self.constraints.items():
            new_value = 0.0
            if constraint.target == 'feature':
                current_value = iH[constraint.index]
            else:
                current_value = iW[constraint.index]
            if constraint.constraint_type == 'pull down':
                new_value = self._pull_down_value(iW=iW, iH=iH, target=constraint.target, index=constraint.index, dQ_limit=constraint.target_values) - current_value
            elif constraint.constraint_type == 'pull up':
                new_value = self._pull_up_value(iW=iW, iH=iH, target=constraint.target, index=constraint.index, dQ_limit=constraint.target_values) - current_value
            elif constraint.constraint_type == 'pull to value':
                new_value = self._pull_to_value(iW=iW, iH=iH, target=constraint.target, index=constraint.index, target_value=constraint.target_values[0], dQ_limit=constraint.target_values[1]) - current_value
            elif constraint.constraint_type == 'set to zero':
                new_value = -1 * current_value
            elif constraint.constraint_type == 'set to base value':
                if constraint.target == 'feature':
                    new_value = self.base_model.H[constraint.index] - current_value
                else:
                    new_value = self.base_model.W[constraint.index] - current_value
            elif constraint.constraint_type == 'define limits':
                if current_value < constraint.target_values[0]:
                    new_value = constraint.target_values[0] - current_value
                elif current_value > constraint.target_values[1]:
                    new_value = constraint.target_values[1] - current_value
                else:
                    new_value = 0.0
            if constraint.target == 'feature':
                D_h[constraint.index] = new_value
            else:
                D_w[constraint.index] = new_value
        return (D_w, D_h)

    def _apply_expressions(self, iW, iH, D_w, D_h):
        if len(self.expressions) == 0:
            return (np.zeros(shape=iW.shape), np.zeros(shape=iH.shape))
        exp_A = np.zeros(shape=(len(self.expression_labeled), len(self.expression_mapped.keys())))
        exp_B = np.zeros(shape=len(self.expression_labeled))
        if len(self.expression_labeled) > 0:
            min_value = np.inf
            total_dQ = 0
            for i, exp in enumerate(self.expression_labeled):
                total_dQ += exp[1]
                exp_b = 0
                for ele in exp[0]:
                    exp_details = self.expression_mapped[ele]
                    if exp_details['type'] == 'feature':
                        e_value = iH[exp_details['index']]
                    else:
                        e_value = iW[exp_details['index'][1], exp_details['index'][0]]
                    exp_b += e_value
                    if e_value < min_value:
                        min_value = e_value
                    exp_index = exp_details['exp_i'].index(i)
                    coef_index = exp_details['coef_index']
                    coef_value = float(exp_details['coef'][exp_index])
                    exp_A[i, coef_index] = coef_value
                exp_B[i] = exp_b
            exp_bounds = (1e-08, np.max(exp_B))
            exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
            for lbl, exp in self.expression_mapped.items():
                coef_index = exp['coef_index']
                ele_value = exp_X.x[coef_index]
                ele_index = exp['index']
                if exp['type'] == 'feature':
                    D_h[ele_index] = ele_value
                else:
                    D_w[ele_index[1], ele_index[0]] = ele_value
            _D_w = np.where(D_w != 0.0, D_w - iW, 0.0)
            _D_h = np.where(D_h != 0.0, D_h - iH, 0.0)
            dQ_search = True
            max_search = 100
            while dQ_search:
                _W = iW + _D_w
                _H = iH + _D_h
                _q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
                _qa = self._Qaux_loss(W=self.base_model.W, Wp=_W, Dw=_D_w, H=self.base_model.H, Hp=_H, Dh=_D_h)
                _dQ = _q + _qa - self.base_model.Qtrue
                if _dQ < total_dQ:
                    dQ_search = False
                else:
                    _D_w = _D_w * 0.98
                    _D_h = _D_h * 0.98
                if max_search < 0:
                    dQ_search = False
                    _D_w = np.zeros(shape=iW.shape)
                    _D_h = np.zeros(shape=iH.shape)
                max_search -= 1
            return (_D_w, _D_h)

    def _calculate_pull_matrices(self, iW, iH):
        D_w = np.zeros(shape=iW.shape)
        D_h = np.zeros(shape=iH.shape)
        D_w, D_h = self._apply_expressions(iW=iW, iH=iH, D_w=D_w, D_h=D_h)
        D_w, D_h = self._apply_constraints(iW=iW, iH=iH, D_w=D_w, D_h=D_h)
        return (D_w, D_h)

    def train(self, max_iterations: int=20000, converge_delta: float=0.01, converge_n: int=10):
        if len(self.constraints.keys()) == 0 and len(self.expressions) == 0:
            logger.info('No constraints or expressions have been added. Add at least one constraint or expression before training the constrained model.')
            return
        self._map_expressions()
        V = self.base_model.V
        U = self.base_model.U
        We = self.base_model.We
        W_i = copy.copy(self.base_model.W)
        H_i = copy.copy(self.base_model.H)
        t_iter = trange(max_iterations, desc='Q(Robust): NA, Q(Main): NA, Q(aux): NA', position=0, leave=True)
        qm_list = []
        Q_list = [[], [], []]
        i = 0
        Qtrue_i = None
        Qrobust_i = None
        Qaux_i = None
        converged = False
        for i in t_iter:
            D_w, D_h = self._calculate_pull_matrices(iW=W_i, iH=H_i)
            W_d = D_w + W_i
            H_d = np.abs(D_h + H_i)
            W_i, H_i = self.update(V=V, We=We, W=W_d, H=H_d)
            Qtrue_i = q_loss(V=V, U=U, W=W_i, H=H_i)
            Qrobust_i, _ = qr_loss(V=V, U=U, W=W_i, H=H_i)
            Qaux_i = self._Qaux_loss(W=self.base_model.W, Wp=W_i, Dw=D_w, H=self.base_model.H, Hp=H_i, Dh=D_h)
            Qmain_i = Qtrue_i + Qaux_i
            Q_list[0].append(Qtrue_i)
            Q_list[1].append(Qrobust_i)
            Q_list[2].append(Qaux_i)
            qm_list.append(Qmain_i)
            dQ = 0.0
            if len(qm_list) > converge_n:
                qm_list.pop(0)
                dQ = np.max(qm_list) - np.min(qm_list)
                if dQ <= converge_delta:
                    converged = True
                    break
            t_iter.set_description(f'Q(Robust): {round(Qrobust_i, 3)}, Q(Main): {round(Qmain_i, 3)}, Q(aux): {round(Qaux_i, 3)}, dQ: {round(dQ, 4)}')
        self.constrained_model = SA(V=V, U=U, factors=self.base_model.factors, method=self.base_model.method, seed=self.base_model.seed)
        self.constrained_model.initialize(H=H_i, W=W_i)
        self.constrained_model.WH = np.matmul(W_i, H_i)
        self.constrained_model.metadata['max_iterations'] = max_iterations
        self.constrained_model.metadata['converge_delta'] = converge_delta
        self.constrained_model.metadata['converge_n'] = converge_n
        self.constrained_model.metadata['Q(Robust)'] = Qrobust_i
        self.constrained_model.metadata['Q(True)'] = Qtrue_i
        self.constrained_model.metadata['Q(Aux)'] = Qaux_i
        self.constrained_model.Qrobust = Qrobust_i
        self.constrained_model.Qtrue = Qtrue_i
        self.constrained_model.converged = converged
        self.constrained_model.converge_steps = i
        self.Q_list = Q_list
        self.Qaux = Qaux_i
        logger.info(f'dQ(Robust): {round(Qrobust_i - self.base_model.Qrobust, 2)}, Q(Robust): {round(Qrobust_i, 2)}, % dQ(Robust): {round(100 * (Qrobust_i - self.base_model.Qrobust) / self.base_model.Qrobust, 2)}, Q(Aux): {round(Qaux_i, 2)}, Q(True): {round(Qtrue_i, 2)}, Converged: {converged}')

    def _map_expressions(self):
        exp_mapping = {}
        expressions_labeled = []
        terms = 0
        for exp_i in range(len(self.expressions)):
            expression_full = self.expressions[exp_i].split('=')
            expression_eq = expression_full[1].split(',')
            dQ = float(expression_eq[1])
            expression = re.split('[()]+', expression_full[0])[1:-1]
            neg_term = False
            expression_labeled = []
            for e in expression:
                if len(e) > 1:
                    e_terms0 = re.findall('\\[(.*?)]', e)[0]
                    e_terms1 = re.split('[:|]+', e_terms0)
                    e_index = (int(e_terms1[1]), int(e_terms1[3]))
                    e_coef = float(e.split('*')[0]) * (-1.0 if neg_term else 1.0)
                    if e_terms0 not in exp_mapping.keys():
                        exp_mapping[e_terms0] = {'coef': [e_coef], 'exp_i': [exp_i], 'index': e_index, 'type': e_terms1[2], 'coef_index': terms}
                        terms += 1
                    else:
                        exp_mapping[e_terms0]['coef'].append(e_coef)
                        exp_mapping[e_terms0]['exp_i'].append(exp_i)
                    expression_labeled.append(e_terms0)
                if e == '-':
                    neg_term = True
                else:
                    neg_term = False
            expressions_labeled.append((expression_labeled, dQ))
        self.expression_labeled = expressions_labeled
        self.expression_mapped = exp_mapping

    def _pull_down_value(self, iW, iH, target, index, dQ_limit):
        _H = copy.copy(iH)
        _W = copy.copy(iW)
        iQ = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
        high_mod = 1.0
        low_mod = 0.0
        modifier = (high_mod + low_mod) / 2
        value_found = False
        search_i = 0
        p_mod = 0.0
        new_value = 0.0
        max_seach_i = 30
        base_value = _H[index] if target == 'feature' else _W[index]
        while not value_found:
            if target == 'feature':
                new_value = base_value * modifier
                _H[index] = new_value
            else:
                new_value = base_value * modifier
                _W[index] = new_value
            _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
            dQ = np.abs(iQ - _Q)
            if dQ > dQ_limit:
                low_mod = modifier
                modifier = (modifier + high_mod) / 2
            elif dQ < dQ_limit - 100.0:
                high_mod = modifier
                modifier = (low_mod + modifier) / 2
            else:
                value_found = True
            if np.abs(p_mod - modifier) <= 1e-08:
                value_found = True
            if search_i >= max_seach_i:
                value_found = True
            search_i += 1
            p_mod = modifier
        if new_value == 0.0:
            new_value = 1e-08
        return new_value

    def _pull_up_value(self, iW, iH, target, index, dQ_limit):
        _H = copy.copy(iH)
        _W = copy.copy(iW)
        iQ = q_loss(V=self.base_model.V, U=self.base_model.U, W=iW, H=iH)
        high_modifier = 2.0
        low_modifier = 0.0
        high_found = False
        high_search_i = 0
        max_search_i = 30
        base_value = _H[index] if target == 'feature' else _W[index]
        while not high_found:
            if target == 'feature':
                new_value = base_value * high_modifier
                _H[index] = new_value
            else:
                new_value = base_value * high_modifier
                _W[index] = new_value
            _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
            dQ = np.abs(iQ - _Q)
            if dQ < dQ_limit:
                low_modifier = high_modifier
                high_modifier *= 2
            else:
                high_found = True
            high_search_i += 1
            if high_search_i >= max_search_i:
                return new_value
        new_value = 0.0
        modifier = (high_modifier + low_modifier) / 2.0
        value_found = False
        search_i = 0
        while not value_found:
            if target == 'feature':
                new_value = base_value * modifier
                _H[index] = new_value
            else:
                new_value = base_value * modifier
                _W[index] = new_value
            _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
            dQ = np.abs(iQ - _Q)
            if dQ > dQ_limit:
                high_modifier = modifier
                modifier = (modifier + low_modifier) / 2.0
            elif dQ < dQ_limit - 100.0:
                low_modifier = modifier
                modifier = (high_modifier + modifier) / 2.0
            else:
                value_found = True
            search_i += 1
            if search_i >= max_search_i:
                value_found = True
        return new_value

    def _pull_to_value(self, iW, iH, target, index, target_value, dQ_limit):
        _H = copy.copy(iH)
        _W = copy.copy(iW)
        iQ = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
        if target == 'feature':
            current_value = _H[index]
            _H[index] = target_value
        else:
            current_value = _W[index]
            _W[index] = target_value
        iQ2 = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
        if np.abs(iQ - iQ2) < dQ_limit:
            return target_value
        high_value = current_value
        low_value = target_value
        mid_value = (high_value + low_value) / 2
        value_found = False
        search_i = 0
        p_value = 0.0
        new_value = 0.0
        max_search_i = 30
        while not value_found:
            if target == 'feature':
                new_value = mid_value
                _H[index] = new_value
            else:
                new_value = mid_value
                _W[index] = new_value
            _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
            dQ = np.abs(iQ - _Q)
            if dQ > dQ_limit:
                low_value = mid_value
                mid_value = (mid_value + high_value) / 2
            elif dQ < dQ_limit - 100.0:
                high_value = mid_value
                mid_value = (low_value + mid_value) / 2
            else:
                value_found = True
            if np.abs(p_value - mid_value) <= 1e-08:
                value_found = True
            if search_i >= max_search_i:
                value_found = True
            search_i += 1
            p_value = mid_value
        return new_value

    def _Qaux_loss(self, W, Wp, Dw, H, Hp, Dh):
        w_r = np.square(W + Dw - Wp)
        w_qaux = np.divide(w_r.sum(axis=1), self.soft_W2)
        h_r = np.square(H + Dh - Hp)
        h_qaux = np.divide(h_r.sum(axis=1), self.soft_H2)
        return np.sum(w_qaux) + np.sum(h_qaux)

    def display_results(self):
        if self.constrained_model is None:
            return
        logger.info(f'dQ(Robust): {round(self.constrained_model.Qrobust - self.base_model.Qrobust, 2)}, Q(Robust): {round(self.constrained_model.Qrobust, 2)}, Base Q(Robust): {round(self.base_model.Qrobust, 2)}, % dQ(Robust): {round(100 * ((self.constrained_model.Qrobust - self.base_model.Qrobust) / self.base_model.Qrobust), 2)}, Q(Aux): {round(self.Qaux, 2)}, Q(True): {round(self.constrained_model.Qtrue, 2)}, Base Q(True): {round(self.base_model.Qtrue, 2)}, Converged: {self.constrained_model.converged}')

    def plot_Q(self, Qtype: str='True'):
        if Qtype.lower() == 'true':
            title = 'Q(True)'
            x = list(range(len(self.Q_list[0])))
            y = self.Q_list[0]
        elif Qtype.lower() == 'robust':
            title = 'Q(Robust)'
            x = list(range(len(self.Q_list[1])))
            y = self.Q_list[1]
        elif Qtype.lower() == 'aux':
            title = 'Q(aux)'
            x = list(range(len(self.Q_list[2])))
            y = self.Q_list[2]
        elif Qtype.lower() == 'main':
            title = 'Q(Main)'
            x = list(range(len(self.Q_list[0])))
            y = [q_true + q_aux for q_true, q_aux in zip(self.Q_list[0], self.Q_list[2])]
        else:
            logger.error(f'Error: Invalid option for Qtype. Provided value: {Qtype}. Available options: true, robust, aux, main.')
            return
        q_plot = go.Figure()
        q_plot.add_trace(go.Scatter(x=x, y=y))
        q_plot.update_layout(height=800, width=800, title=f'Change in {title} over Iterations')
        q_plot.update_yaxes(title_text=title)
        q_plot.update_xaxes(title_text='Iterations')
        q_plot.show()

    def evaluate_constraints(self):
        constraint_values = []
        for k, c in self.constraints.items():
            value = self.constrained_model.H[c.index] if c.target == 'feature' else self.constrained_model.W[c.index]
            dQ = None
            target_value = None
            if c.constraint_type in ('pull down', 'pull up', 'pull to value'):
                if c.constraint_type == 'pull to value':
                    target_value = c.target_values[0]
                    dQ = c.target_values[1]
                else:
                    dQ = c.target_values
            elif c.constraint_type == 'set to zero':
                target_value = 0.0
            elif c.constraint_type == 'define limits':
                min_value = np.round(c.target_values[0], 3)
                max_value = np.round(c.target_values[1], 3)
                target_value = f'[{min_value}, {max_value}]'
            elif c.constraint_type == 'set to base value':
                target_value = np.round(self.base_model.H[c.index], 4) if c.target == 'feature' else np.round(self.base_model.W[c.index], 4)
            constraint_values.append((c.index, c.target, c.constraint_type, np.round(self.base_model.H[c.index], 4) if c.target == 'feature' else np.round(self.base_model.W[c.index], 4), target_value if target_value is not None else None, np.round(value, 4) if value is not None else None, dQ))
        c_columns = ['Index', 'Target', 'Type', 'Base Value', 'Target Value(s)', 'Solution Value', 'dQ']
        c_df = pd.DataFrame(constraint_values, columns=c_columns)
        c_fig = go.Figure(data=[go.Table(header=dict(values=list(c_df.columns)), cells=dict(values=c_df.values.T))])
        c_fig.update_layout(width=1200, height=200 + 20 * len(constraint_values), title='Constraints Evaluation Table', margin={'t': 50, 'l': 25, 'b': 10, 'r': 25})
        c_fig.show()

    def evaluate_expressions(self):
        exp_element = {}
        max_terms = np.max([len(i[0]) for i in self.expression_labeled])
        exp_table = [[''] * (max_terms + 3) for i in range(len(self.expression_labeled))]
        eval_exp = []
        base_exp = []
        _base_model = self.base_model
        for i in range(len(self.expression_labeled)):
            exp_values = []
            base_values = []
            expression_i = self.expression_labeled[i]
            for j, ele in enumerate(expression_i[0]):
                element_details = self.expression_mapped[ele]
                ele_index = element_details['index']
                ele_coef_idx = element_details['exp_i'].index(i)
                ele_coef = element_details['coef'][ele_coef_idx]
                if element_details['type'] != 'feature':
                    ele_index = (ele_index[1], ele_index[0])
                ele_value = self.constrained_model.H[ele_index] if element_details['type'] == 'feature' else self.constrained_model.W[ele_index]
                base_value = _base_model.H[ele_index] if element_details['type'] == 'feature' else _base_model.W[ele_index]
                exp_element[ele] = (ele_index, element_details['type'], np.round(base_value, 4), np.round(ele_value, 4))
                exp_values.append(ele_value * ele_coef)
                base_values.append(base_value * ele_coef)
                exp_table[i][j] = f'{str(ele_coef)}({ele})'
            eval_exp.append(np.sum(exp_values))
            base_exp.append(np.sum(base_values))
            exp_table[i][-1] = np.round(np.sum(exp_values), 4)
            exp_table[i][-2] = np.round(np.sum(base_values), 4)
            exp_table[i][-3] = expression_i[1]
        e_columns = ['Index', 'Target', 'Base Value', 'Solution Value']
        e_df = pd.DataFrame(exp_element.values(), columns=e_columns)
        e_fig = go.Figure(data=[go.Table(header=dict(values=list(e_df.columns)), cells=dict(values=e_df.values.T))])
        e_fig.update_layout(width=1200, height=200 + 20 * len(exp_element.keys()), title='Expressions Element Evaluation Table', margin={'t': 50, 'l': 25, 'b': 10, 'r': 25})
        e_fig.show()
        term_columns = [f'Term {i + 1}' for i in range(max_terms)]
        term_columns = term_columns + ['dQ', 'Base Eval', 'Solution Eval']
        term_table = pd.DataFrame(exp_table, columns=term_columns)
        term_fig = go.Figure(data=[go.Table(header=dict(values=list(term_table.columns)), cells=dict(values=term_table.values.T))])
        term_fig.update_layout(height=200 + 20 * len(exp_element.keys()), title='Expressions Evaluation Table', margin={'t': 50, 'l': 25, 'b': 10, 'r': 25})
        term_fig.show()

    def plot_profile_contributions(self, factor_idx):
        if factor_idx is not None:
            if factor_idx > self.constrained_model.factors or factor_idx < 1:
                logger.warning(f'Invalid factor_idx provided, must be between 1 and {self.constrained_model.factors}')
                return
        self.plot_profile(factor_idx=factor_idx)
        self.plot_contributions(factor_idx=factor_idx)

    def plot_profile(self, factor_idx):
        factor_label = factor_idx
        factor_idx = factor_idx - 1
        b_W = self.base_model.W[:, factor_idx]
        b_H = self.base_model.H[factor_idx]
        b_H_sum = self.base_model.H.sum(axis=0)
        b_factor_matrix = np.matmul(b_W.reshape(len(b_W), 1), [b_H])
        b_factor_conc_sum = b_factor_matrix.sum(axis=0)
        b_factor_conc_sum[b_factor_conc_sum == 0.0] = 1e-12
        i_W = self.constrained_model.W[:, factor_idx]
        i_H = self.constrained_model.H[factor_idx]
        i_H_sum = self.constrained_model.H.sum(axis=0)
        i_factor_matrix = np.matmul(i_W.reshape(len(i_W), 1), [i_H])
        i_factor_conc_sum = i_factor_matrix.sum(axis=0)
        i_factor_conc_sum[i_factor_conc_sum == 0] = 1e-12
        b_norm_H = np.round(100 * (b_H / b_H_sum), 2)
        i_norm_H = np.round(100 * (i_H / i_H_sum), 2)
        marker_line_colors = ['rgb(125,220,157)'] * len(self.dh.features)
        for factor_element, fe_details in self.expression_mapped.items():
            if 'feature' in factor_element:
                factor_j = fe_details['index'][0]
                factor_feature_k = fe_details['index'][1]
                if factor_j == factor_idx:
                    marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
        for c_key, constraint in self.constraints.items():
            if constraint.target == 'feature' and constraint.index[0] == factor_idx:
                marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
        fig = make_subplots(specs=[[{'secondary_y': True}]], rows=1, cols=1)
        fig.add_trace(go.Scatter(x=self.dh.features, y=b_norm_H, mode='markers', marker=dict(color='gray'), name='Base % of Features', opacity=0.8), secondary_y=True, row=1, col=1)
        fig.add_trace(go.Scatter(x=self.dh.features, y=i_norm_H, mode='markers', marker=dict(color='red'), name='Constrained % of Features', opacity=0.6), secondary_y=True, row=1, col=1)
        fig.add_trace(go.Bar(x=self.dh.features, y=b_factor_conc_sum, marker_color='rgb(203,203,203)', marker_line_color='rgb(186,186,186)', marker_line_width=1.5, opacity=0.6, name='Base Conc. of Features'), secondary_y=False, row=1, col=1)
        fig.add_trace(go.Bar(x=self.dh.features, y=i_factor_conc_sum, marker_color='rgb(134,236,168)', marker_line_color='rgb(125,220,157)', marker_line_width=1.5, opacity=0.6, name='Constrained Conc. of Features'), secondary_y=False, row=1, col=1)
        fig.update_layout(width=1200, height=600, title=f'Constrained Factor Profile - Factor {factor_label}', barmode='group', scattermode='group', hovermode='x unified')
        fig.update_yaxes(type='log', secondary_y=False, range=[0, np.log10(b_factor_conc_sum).max()], row=1, col=1)
        fig.update_yaxes(secondary_y=True, range=[0, 100])
        fig.show()

    def plot_contributions(self, factor_idx):
        factor_label = f'Factor {factor_idx}'
        factor_idx = factor_idx - 1
        b_W = self.base_model.W[:, factor_idx]
        i_W = self.constrained_model.W[:, factor_idx]
        b_norm_contr = b_W / b_W.mean()
        b_data_df = copy.copy(self.dh.input_data)
        b_data_df[factor_label] = b_norm_contr
        b_data_df.index = pd.to_datetime(b_data_df.index)
        b_data_df = b_data_df.sort_index()
        b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
        i_norm_contr = i_W / i_W.mean()
        i_data_df = copy.copy(self.dh.input_data)
        i_data_df[factor_label] = i_norm_contr
        i_data_df.index = pd.to_datetime(i_data_df.index)
        i_data_df = i_data_df.sort_index()
        i_data_df = i_data_df.resample(min_timestep(i_data_df)).mean()
        fig = go.Figure()
        fig.add_trace(go.Scatter(x=b_data_df.index, y=b_data_df[factor_label], mode='lines+markers', marker_color='rgb(186,186,186)', name='Base Factor Contributions'))
        fig.add_trace(go.Scatter(x=i_data_df.index, y=i_data_df[factor_label], mode='lines+markers', marker_color='rgb(125,220,157)', name='Constrained Factor Contributions'))
        fig.update_layout(width=1200, height=800, title=f'Constrained Factor Contributions - Factor {factor_label}', hovermode='x unified')
        fig.update_yaxes(title_text='Factor Contributions')
        fig.show()

    def plot_factor_fingerprints(self):
        b_H = self.base_model.H
        c_H = self.constrained_model.H
        b_normalized = 100 * (b_H / b_H.sum(axis=0))
        c_normalized = 100 * (c_H / c_H.sum(axis=0))
        fp_factors_fig = make_subplots(rows=2, cols=1, shared_xaxes=True, subplot_titles=('Base Profile', 'Constrained Profile'), vertical_spacing=0.075)
        colors = px.colors.sequential.Viridis_r
        for idx in range(self.base_model.factors - 1, -1, -1):
            fp_factors_fig.add_trace(go.Bar(name=f'Factor {idx + 1}', x=self.dh.features, y=b_normalized[idx], marker_color=colors[idx], hovertext='Base', legendgroup=f'group{idx}', showlegend=False), row=1, col=1)
            fp_factors_fig.add_trace(go.Bar(name=f'Factor {idx + 1}', x=self.dh.features, y=c_normalized[idx], marker_color=colors[idx], hovertext='Constrained', legendgroup=f'group{idx}'), row=2, col=1)
        fp_factors_fig.update_layout(title=f'Constrained Factor Fingerprints', width=1200, height=800, barmode='stack', hovermode='x unified')
        fp_factors_fig.update_yaxes(title_text='% Feature Concentration', range=[0, 100])
        fp_factors_fig.show()

    def plot_g_space(self, factor_idx1, factor_idx2, show_base: bool=False, show_delta: bool=False):
        if factor_idx1 is not None:
            if factor_idx1 > self.base_model.factors or factor_idx1 < 1:
                logger.warning(f'Invalid factor_idx1 provided, must be between 1 and {self.base_model.factors}')
                return
        if factor_idx2 is not None:
            if factor_idx2 > self.base_model.factors or factor_idx2 < 1:
                logger.warning(f'Invalid factor_idx2 provided, must be between 1 and {self.base_model.factors}')
                return
        f1_idx = factor_idx1 - 1
        f2_idx = factor_idx2 - 1
        b_W = self.base_model.W
        c_W = self.constrained_model.W
        b_normalized_factors_contr = b_W / b_W.sum(axis=0)
        c_normalized_factors_contr = c_W / c_W.sum(axis=0)
        if show_delta:
            arrows = (c_normalized_factors_contr[:, f1_idx] - b_normalized_factors_contr[:, f1_idx], c_normalized_factors_contr[:, f2_idx] - b_normalized_factors_contr[:, f2_idx])
            fp_g_fig = ff.create_quiver(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx], u=arrows[0], v=arrows[1], name='Constrained Delta', line_width=1, arrow_scale=0.01, scale=0.99)
            fp_g_fig.add_trace(go.Scatter(x=c_normalized_factors_contr[:, f1_idx], y=c_normalized_factors_contr[:, f2_idx], mode='markers', name='Constrained'))
            fp_g_fig.add_trace(go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx], mode='markers', name='Base'))
        else:
            fp_g_fig = go.Figure()
            fp_g_fig.add_trace(go.Scatter(x=c_normalized_factors_contr[:, f1_idx], y=c_normalized_factors_contr[:, f2_idx], mode='markers', name='Fpeak'))
            if show_base:
                fp_g_fig.add_trace(go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx], mode='markers', name='Base'))
        fp_g_fig.update_layout(title=f'Constrained G-Space Plot', width=800, height=800)
        fp_g_fig.update_xaxes(title_text=f'Factor {factor_idx1} Contributions (avg=1)')
        fp_g_fig.update_yaxes(title_text=f'Factor {factor_idx2} Contributions (avg=1)')
        fp_g_fig.show()

    def plot_factor_contributions(self, feature_idx, threshold: float=0.06):
        if feature_idx is not None:
            if feature_idx < 1 or feature_idx > self.base_model.n:
                logger.warning(f'Invalid feature_idx provided, must be between 1 and {self.base_model.n}')
                return
            feature_idx = feature_idx - 1
        else:
            feature_idx = 0
        x_label = self.dh.input_data.columns[feature_idx]
        factors_data = self.constrained_model.H
        normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
        feature_contr = normalized_factors_data[:, feature_idx]
        feature_contr_inc = []
        feature_contr_labels = []
        feature_legend = {}
        for idx in range(feature_contr.shape[0] - 1, -1, -1):
            idx_l = idx + 1
            if feature_contr[idx] > threshold:
                feature_contr_inc.append(feature_contr[idx])
                feature_contr_labels.append(f'Factor {idx_l}')
                feature_legend[f'Factor {idx_l}'] = f'Factor {idx_l} = {factors_data[idx:, feature_idx]}'
        feature_fig = go.Figure(data=[go.Pie(labels=feature_contr_labels, values=feature_contr_inc, hoverinfo='label+value', textinfo='percent')])
        feature_fig.update_layout(title=f'Factor Contributions to Feature: {x_label}', width=1200, height=600, legend_title_text=f'Factor Contribution > {threshold}%')
        feature_fig.show()
        factors_contr = self.constrained_model.W
        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
        factor_labels = [f'Factor {i}' for i in range(1, normalized_factors_contr.shape[1] + 1)]
        contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
        contr_df.index = pd.to_datetime(self.dh.input_data.index)
        contr_df = contr_df.sort_index()
        contr_df = contr_df.resample(min_timestep(contr_df)).mean()
        contr_fig = go.Figure()
        for factor in factor_labels:
            contr_fig.add_trace(go.Scatter(x=contr_df.index, y=contr_df[factor], mode='lines+markers', name=factor))
        contr_fig.update_layout(title=f'Factor Contributions (avg=1)', width=1200, height=600, hovermode='x unified', legend=dict(orientation='h', xanchor='right', yanchor='bottom', x=1, y=1.02))
        contr_fig.update_yaxes(title_text='Normalized Contribution')
        contr_fig.show()

    def save(self, model_name: str, output_directory: str, pickle_model: bool=False):
        model_name = f'constrained_model-{model_name}'
        output_directory = Path(output_directory)
        if not output_directory.is_absolute():
            logger.error('Provided output directory is not an absolute path. Must provide an absolute path.')
            return None
        if os.path.exists(output_directory):
            if pickle_model:
                file_path = os.path.join(output_directory, f'{model_name}.pkl')
                with open(file_path, 'wb') as save_file:
                    pickle.dump(self, save_file)
                    logger.info(f'Constrained SA model saved to pickle file: {file_path}')
            else:
                file_path = self.constrained_model.save(model_name=model_name, output_directory=output_directory, pickle_model=False, header=self.dh.features)
                meta_file = os.path.join(output_directory, f'{model_name}-metadata.json')
                metadata = {**self.constrained_model.metadata, **self.metadata}
                metadata['constraints'] = [c.tostring(label=k) for k, c in self.constraints.items()]
                metadata['expressions'] = self.expressions
                metadata['softness'] = self.softness
                with open(meta_file, 'w') as mfile:
                    json.dump(metadata, mfile, default=np_encoder)
                    logger.info(f'Constrained SA model metadata saved to file: {meta_file}')
            return file_path
        else:
            logger.error(f'Output directory not found. Provided directory: {output_directory}')
            return None

    @staticmethod
    def load(file_path: str):
        file_path = Path(file_path)
        if not file_path.is_absolute():
            logger.error('Provided path is not an absolute path. Must provide an absolute path.')
            return None
        if os.path.exists(file_path):
            try:
                with open(file_path, 'rb') as pfile:
                    c_solution = pickle.load(pfile)
                    return c_solution
            except pickle.PickleError as p_error:
                logger.error(f'Failed to load constrained solution pickle file {file_path}. \nError: {p_error}')
                return None
        else:
            logger.error(f'Constrained solution load file failed, specified pickle file does not exist. File Path: {file_path}')
            return None
