from esat.data.datahandler import DataHandler
from esat.model.batch_sa import BatchSA
from esat_eval.simulator import Simulator
from memory_profiler import profile

def generate_data(seed: int=42, syn_factors: int=6, syn_features: int=40, syn_samples: int=100):
    seed = seed
    syn_factors = syn_factors
    syn_features = syn_features
    syn_samples = syn_samples
    outliers = True
    outlier_p = 0.1
    outlier_mag = 1.25
    contribution_max = 2
    noise_mean_min = 0.03
    noise_mean_max = 0.05
    noise_scale = 0.02
    uncertainty_mean_min = 0.04
    uncertainty_mean_max = 0.06
    uncertainty_scale = 0.01
    simulator = Simulator(seed=seed, factors_n=syn_factors, features_n=syn_features, samples_n=syn_samples, outliers=outliers, outlier_p=outlier_p, outlier_mag=outlier_mag, contribution_max=contribution_max, noise_mean_min=noise_mean_min, noise_mean_max=noise_mean_max, noise_scale=noise_scale, uncertainty_mean_min=uncertainty_mean_min, uncertainty_mean_max=uncertainty_mean_max, uncertainty_scale=uncertainty_scale)
    syn_input_df, syn_uncertainty_df = simulator.get_data()
    return (syn_input_df, syn_uncertainty_df)

@profile
def execute(batch_model):
    _ = batch_model.train()

def workflow(V, U, factors, models):
    method = 'ls-nmf'
    init_method = 'col_means'
    seed = 42
    max_iterations = 20000
    converge_delta = 0.1
    converge_n = 25
    parallel = True
    sa_models = BatchSA(V=V, U=U, factors=factors, models=models, method=method, seed=seed, max_iter=max_iterations, init_method=init_method, converge_delta=converge_delta, converge_n=converge_n, parallel=parallel, verbose=True)
    execute(sa_models)

def run_all():
    input_df, uncertainty_df = generate_data(seed=42, syn_factors=7, syn_samples=1000, syn_features=34)
    data_handler = DataHandler.load_dataframe(input_df=input_df, uncertainty_df=uncertainty_df)
    V, U = data_handler.get_data()
    workflow(V=V, U=U, factors=7, models=20)
if __name__ == '__main__':
    input_df, uncertainty_df = generate_data(seed=42, syn_factors=7, syn_samples=1000, syn_features=50)
    data_handler = DataHandler.load_dataframe(input_df=input_df, uncertainty_df=uncertainty_df)
    V, U = data_handler.get_data()
    workflow(V=V, U=U, factors=7, models=10)
