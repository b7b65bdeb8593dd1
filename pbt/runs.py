"""Shared pieces of the checks that make complete (small) inference runs."""

# Options that keep a run small without switching any part of it off: few
# components in the final boost, short stochastic optimisations, small
# searches and entropies estimated from few samples.
FAST = {
    "display": "off",
    "min_final_components": 6,
    "max_iter_stochastic": 60,
    "ns_search": 200,
    "ns_ent": 20,
    "ns_ent_boost": 30,
    "ns_ent_fine": 200,
    "gp_train_n_init": 128,
    "gp_train_n_init_final": 32,
    "search_optimizer": "cmaes",
    "search_max_fun_evals": 60,
    "ns_gp_max": 6,
    "ns_gp_max_warmup": 3,
    "gp_sample_thin": 2,
}


def fast(**kw):
    o = dict(FAST)
    o.update(kw)
    return o
