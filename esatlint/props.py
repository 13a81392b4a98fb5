"""Which obligations decide which property.

Every entry maps a property to (entry pattern, observable pattern) pairs.  An
obligation is one observable of one public entry point; a disagreement of that
observable is reported under every property whose patterns it matches.
"""
import re

ANY = r".*"
PLOT = r"(plot|summary|show_|display_|details|describe|list_|print_|features_metrics|calculate_statistics|to_df|aggregate_)"

SPEC = {
    "C01": [(ANY, r"(argument|object) "), (r".*[.:]" + PLOT + r"\w*$", r"self\.")],
    "C02": [(r"esat\.model\.(sa:SA\.(__init__|initialize|train)|ls_nmf|ws_nmf)", ANY)],
    "C03": [(r"esat\.model\.sa:SA\.(__init__|initialize)", ANY), (r"esat\.model\.batch_sa:BatchSA\.(__init__|train)", ANY),
            (r"esat\.error\.(bootstrap:Bootstrap|displacement:Displacement|bs_disp:BSDISP)\.(__init__|run|map_\w+)", ANY),
            (r"esat\.(estimator|main|data\.impute)", ANY), (r"esat\.data\.datahandler:DataHandler\.split_locations", ANY),
            (r"eval\.simulator:Simulator\.(__init__|generate_profiles|update_contribution|get_data)", ANY),
            (r"eval\.perturbation:Perturbation\.(__init__|run|perturb|compare)", ANY), (r"esat\.rotational\.constrained:ConstrainedModel\.train", ANY),
            (r"esat\.model\.recombinator", ANY)],
    "C04": [(r"esat\.model\.batch_sa:BatchSA\.(__init__|train)", ANY), (r"esat\.model\.sa:SA\.train", ANY),
            (r"esat\.error\.(bootstrap:Bootstrap|displacement:Displacement|bs_disp:BSDISP|error:Error)\.(__init__|run)", ANY),
            (r"eval\.perturbation:Perturbation\.(__init__|run)", ANY), (r"esat\.estimator:FactorEstimator\.(__init__|run)", ANY)],
    "C05": [(r"esat\.model\.", ANY), (r"esat\.rotational\.constrained:ConstrainedModel\.train", ANY),
            (r"esat\.error\.\w+:\w+\.(run|__init__)", ANY), (r"esat\.(main|estimator)", ANY), (r"eval\.(perturbation|simulator):\w+\.(run|compare|perturb)", ANY)],
    "C06": [(r"esat\.model\.(sa|batch_sa)", ANY), (r"esat\.model\.(ls|ws)_nmf", ANY), (r"esat\.rotational\.constrained:ConstrainedModel\.(train|save|load|__init__)", ANY),
            (r"eval\.simulator:Simulator\.(__init__|generate_profiles|update_contribution|get_data|save|load)", ANY),
            (r"esat\.error\.\w+:\w+\.(run|__init__|save|load)", ANY), (r"esat\.metrics", ANY)],
    "C07": [(r"esat\.metrics", ANY), (r"esat\.model\.(ls_nmf|ws_nmf)", ANY), (r"esat\.model\.sa:SA\.(__init__|train|summary)", ANY),
            (r"esat\.data\.analysis:ModelAnalysis\.(features_metrics|calculate_statistics|__init__)", ANY), (r"esat\.utils", ANY),
            (r"esat\.rotational\.constrained:ConstrainedModel\.train", ANY), (r"esat\.estimator", ANY)],
    "C08": [(r"esat\.model\.sa:SA\.(__init__|train)", ANY), (r"esat\.rotational\.constrained:ConstrainedModel\.(__init__|train)", ANY),
            (r"esat\.model\.batch_sa:BatchSA\.(__init__|train)", ANY)],
    "C09": [(r"esat\.model\.sa:SA\.(__init__|initialize|train)", ANY), (r"esat\.data\.datahandler:DataHandler\.(__init__|load_dataframe|set_category|split_locations|merge)", ANY),
            (r"esat\.rotational\.constrained:(Constraint|ConstrainedModel)\.(__init__|add_\w+|train)", ANY)],
    "C10": [(r"esat\.model\.sa:SA\.(__init__|initialize|train)", ANY), (r"esat\.data\.datahandler:DataHandler\.(__init__|get_data|load_dataframe|split_locations|merge|set_category)", ANY),
            (r"esat\.error\.\w+:\w+\.(__init__|run)", ANY), (r"eval\.(simulator:Simulator\.(__init__|generate_\w+|get_data|update_contribution)|perturbation:Perturbation\.(__init__|run|perturb))", ANY),
            (r"esat\.data\.impute", ANY)],
    "C11": [(r"esat\.data\.datahandler", ANY), (r"esat\.data\.impute", ANY)],
    "C12": [(r"esat\.data\.datahandler", ANY)],
    "C14": [(r"esat\.error\.bootstrap", ANY), (r"esat\.model\.recombinator", ANY), (r"esat\.data\.datahandler:DataHandler\.(__init__|get_data|load_dataframe)", r"self\.optimal"),
            (r"esat\.error\.bs_disp:BSDISP\.(__init__|run)", ANY)],
    "C15": [(r"esat\.error\.bootstrap", ANY), (r"esat\.utils", ANY)],
    "C16": [(r"esat\.error\.displacement", ANY), (r"esat\.error\.bs_disp:BSDISP\.run", ANY), (r"esat\.error\.error", ANY), (r"esat\.utils", ANY)],
    "C17": [(r"esat\.error\.(bs_disp|error)", ANY)],
    "C18": [(r"esat\.rotational\.constrained", ANY)],
    "C19": [(r".*[.:](save|load|np_encoder)$", ANY), (r"esat\.main", r".*(save|load|dump|mkdir|open)"), (r"esat\.cli", r".*(save|load|dump|open)"),
            (r"esat\.utils:np_encoder", ANY)],
    "C20": [(r"esat\.cli", ANY), (r"esat\.main", ANY)],
    "C21": [(r"esat\.estimator", ANY)],
    "C22": [(r"eval\.simulator", ANY)],
    "C23": [(r"eval\.(factor_comparison|factor_catalog)", ANY), (r"esat\.utils", ANY), (r"eval\.simulator:Simulator\.(compare|plot_\w+)", ANY),
            (r"eval\.perturbation:Perturbation\.(run|compare)", ANY), (r"esat\.error\.\w+:\w+\.run", ANY), (r"esat\.metrics", ANY)],
    "C24": [(r"esat\.data\.analysis", ANY), (r"esat\.data\.test_tools", ANY), (r"esat\.model\.(sa:SA\.summary|batch_sa:BatchSA\.details)", ANY),
            (r"esat\.data\.datahandler:DataHandler\.(plot_|aggregate_|__init__|get_data)", ANY)],
    "C25": [(r"eval\.perturbation", ANY)],
    "C26": [(r"esat\.model\.batch_sa", ANY), (r"esat\.main", ANY), (r"esat\.data\.analysis:BatchAnalysis", ANY), (r"esat\.estimator:FactorEstimator\.run", ANY),
            (r"esat\.cli", r".*(best|model)"), (r"eval\.(factor_comparison|factor_catalog|simulator:Simulator\.compare|perturbation:Perturbation\.run)", ANY)],
    "C27": [(r"esat\.(utils|data\.impute)", ANY), (r"esat\.data\.datahandler:DataHandler\.(__init__|get_data|load_dataframe|split_locations|merge|set_category)", ANY),
            (r"esat\.data\.analysis:\w+\.calculate_statistics", ANY), (r"esat\.model\.recombinator", ANY)],
    "C28": [(r".*[.:](plot|summary|show_|add_|remove_|evaluate_|display_|set_category|perturb|update_contribution|compare|save|calculate_|combine_)\w*$", ANY)],
    "C29": [(ANY, ANY)],
}
COMPILED = {p: [(re.compile(e), re.compile(o)) for e, o in v] for p, v in SPEC.items()}
SELECT = re.compile(r"factor|feature|model|bootstrap|run_?i|idx|index|selec|^label$|^target$|^type$")


def entry_matches(prop, entry):
    return [o for e, o in COMPILED[prop] if e.match(entry)]


def matches(prop, entry, observable):
    return any(o.match(observable) for o in entry_matches(prop, entry))

DEFAULT_TECHNIQUE = "value-flow analysis of the source (abstract interpretation to gated normal forms), compared observable by observable with an audited reference model"
TECHNIQUE = {}
DEFAULT_NOTE = ("Static: every mapped entry point of the current source is reduced to a normal form of what it computes, changes and emits, and compared with the form confirmed by "
                "reading.  Trusts the reference model, the interpreter's model of Python/numpy/pandas operations and exact arithmetic; constructs it cannot model are counted as undecided and never reported.")
NOTE = {}
