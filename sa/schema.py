"""Field names the rules are written in, by data type; a private field renamed since is read under its old name."""

FIELDS = {
    'BayesianApproach': [
        ('alpha', 'usize'),
        ('tau', 'f64'),
    ],
    'DiscreteStatesContinousTimeParams': [
        ('label', 'alloc::string::String'),
        ('domain', 'alloc::collections::btree::set::BTreeSet<alloc::string::String>'),
        ('cim', 'core::option::Option<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<f64>, ndarray::dimension::dim::Dim<[usize; 3]>>>'),
        ('transitions', 'core::option::Option<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<usize>, ndarray::dimension::dim::Dim<[usize; 3]>>>'),
        ('residence_time', 'core::option::Option<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<f64>, ndarray::dimension::dim::Dim<[usize; 2]>>>'),
    ],
    'CtbnNetwork': [
        ('adj_matrix', 'core::option::Option<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<u16>, ndarray::dimension::dim::Dim<[usize; 2]>>>'),
        ('nodes', 'alloc::vec::Vec<params::Params>'),
    ],
    'CtmpProcess': [
        ('param', 'core::option::Option<params::Params>'),
    ],
    'MonteCarloReward': [
        ('max_iterations', 'usize'),
        ('max_err_stop', 'f64'),
        ('alpha_stop', 'f64'),
        ('end_time', 'f64'),
        ('reward_criteria', 'reward::reward_evaluation::RewardCriteria'),
        ('seed', 'core::option::Option<u64>'),
    ],
    'NeighborhoodRelativeReward': [
        ('inner_reward', 'RE'),
    ],
    'FactoredRewardFunction': [
        ('transition_reward', 'alloc::vec::Vec<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<f64>, ndarray::dimension::dim::Dim<[usize; 2]>>>'),
        ('instantaneous_reward', 'alloc::vec::Vec<ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<f64>, ndarray::dimension::dim::Dim<[usize; 1]>>>'),
    ],
    'Reward': [
        ('transition_reward', 'f64'),
        ('instantaneous_reward', 'f64'),
    ],
    'Sample': [
        ('t', 'f64'),
        ('state', 'alloc::vec::Vec<params::StateType>'),
    ],
    'ForwardSampler': [
        ('net', "&'a T"),
        ('rng', 'rand_chacha::chacha::ChaCha8Rng'),
        ('current_time', 'f64'),
        ('current_state', 'alloc::vec::Vec<params::StateType>'),
        ('next_transitions', 'alloc::vec::Vec<core::option::Option<f64>>'),
        ('initial_state', 'core::option::Option<alloc::vec::Vec<params::StateType>>'),
    ],
    'Cache': [
        ('parameter_learning', "&'a P"),
        ('cache_persistent_small', 'std::collections::hash::map::HashMap<core::option::Option<alloc::collections::btree::set::BTreeSet<usize>>, params::Params>'),
        ('cache_persistent_big', 'std::collections::hash::map::HashMap<core::option::Option<alloc::collections::btree::set::BTreeSet<usize>>, params::Params>'),
        ('parent_set_size_small', 'usize'),
    ],
    'CTPC': [
        ('parameter_learning', 'P'),
        ('Ftest', 'structure_learning::hypothesis_test::F'),
        ('Chi2test', 'structure_learning::hypothesis_test::ChiSquare'),
    ],
    'ChiSquare': [
        ('alpha', 'f64'),
    ],
    'F': [
        ('alpha', 'f64'),
    ],
    'HillClimbing': [
        ('score_function', 'S'),
        ('max_parent_set', 'core::option::Option<usize>'),
    ],
    'LogLikelihood': [
        ('alpha', 'usize'),
        ('tau', 'f64'),
    ],
    'BIC': [
        ('ll', 'structure_learning::score_function::LogLikelihood'),
    ],
    'Trajectory': [
        ('time', 'ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<f64>, ndarray::dimension::dim::Dim<[usize; 1]>>'),
        ('events', 'ndarray::ArrayBase<ndarray::data_repr::OwnedRepr<usize>, ndarray::dimension::dim::Dim<[usize; 2]>>'),
    ],
    'Dataset': [
        ('trajectories', 'alloc::vec::Vec<tools::Trajectory>'),
    ],
    'UniformGraphGenerator': [
        ('density', 'f64'),
        ('rng', 'rand_chacha::chacha::ChaCha8Rng'),
    ],
    'UniformParametersGenerator': [
        ('interval', 'core::ops::range::Range<f64>'),
        ('rng', 'rand_chacha::chacha::ChaCha8Rng'),
    ],
}


def renames(adts):
    """{type path: {current name: name used by the rules}}"""
    out = {}
    for a in adts:
        want = FIELDS.get(a["path"].split("::")[-1])
        if not want or a["kind"] != "Struct":
            continue
        have = [(f["name"], f["ty"]) for f in a["variants"][0]["fields"]]
        names = {n for n, _ in have}
        missing = [(n, t) for n, t in want if n not in names]
        new = [(n, t) for n, t in have if n not in {x for x, _ in want}]
        if not missing or not new:
            continue
        m = {}
        for t in {t for _, t in missing}:
            x, y = [n for n, u in missing if u == t], [n for n, u in new if u == t]
            if len(x) == len(y):
                m.update(zip(y, x))
        if m:
            out[a["path"]] = m
    return out


def canonical(d):
    """rewrite the exported program in place"""
    ren = renames(d["adts"])
    if not ren:
        return
    for a in d["adts"]:
        m = ren.get(a["path"], {})
        for v in a["variants"]:
            for f in v["fields"]:
                f["name"] = m.get(f["name"], f["name"])

    def walk(x):
        if isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == "field" and isinstance(x[3], str) and x[3] in ren:
                x[2] = ren[x[3]].get(x[2], x[2])
            elif len(x) == 5 and x[0] == "adt" and x[1] in ren and isinstance(x[4], list):
                x[4] = [ren[x[1]].get(n, n) for n in x[4]]
            for y in x:
                walk(y)

    for f in d["fns"]:
        walk(f)
