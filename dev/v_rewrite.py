"""Whole-function rewrites that keep the behaviour: every check must stay quiet."""
V = []
S = "/repo/src/"


def grab(f, start):
    """text from `start` to the end of the block it opens"""
    t = open(S + f).read()
    i = t.index(start)
    k = t.index("{", i + (start.rindex("{") if "{" in start else len(start)))
    d = 0
    for j in range(k, len(t)):
        d += {"{": 1, "}": -1}.get(t[j], 0)
        if d == 0:
            return t[i : j + 1]


def q(n, *e):
    V.append((n, "quiet", "", [(f, grab(f, o) if isinstance(o, str) and not raw else o, x) for f, o, x, raw in [(y + (False,))[:4] if len(y) == 3 else y for y in e]]))


PL, SA, PA, TO, RF, RE = "parameter_learning.rs", "sampling.rs", "params.rs", "tools.rs", "reward/reward_function.rs", "reward/reward_evaluation.rs"
SB, CB, HT, SF, BN, TP = ("structure_learning/score_based_algorithm.rs", "structure_learning/constraint_based_algorithm.rs", "structure_learning/hypothesis_test.rs",
                          "structure_learning/score_function.rs", "process/ctbn.rs", "process/ctmp.rs")

# ---------------------------------------------------------------- sufficient statistics
SS = "pub fn sufficient_statistics<T: process::NetworkProcess>("
SIG = '''pub fn sufficient_statistics<T: process::NetworkProcess>(
    net: &T,
    dataset: &Dataset,
    node: usize,
    parent_set: &BTreeSet<usize>,
) -> (Array3<usize>, Array2<f64>) {
'''
q("rw-ss-helper", (PL, SS, '''/// Strides of the parents in the mixed-radix index and number of configurations.
fn parent_strides<T: process::NetworkProcess>(
    net: &T,
    parent_set: &BTreeSet<usize>,
) -> (Array1<usize>, usize) {
    let mut strides: Array1<usize> = Array::zeros(net.get_number_of_nodes());
    let mut n_configurations = 1;
    for parent in parent_set {
        strides[*parent] = n_configurations;
        n_configurations *= net.get_node(*parent).get_reserved_space_as_parent();
    }
    (strides, n_configurations)
}

fn accumulate_trajectory(
    trj: &crate::tools::Trajectory,
    node: usize,
    strides: &Array1<usize>,
    M: &mut Array3<usize>,
    T: &mut Array2<f64>,
) {
    let time = trj.get_time();
    let events = trj.get_events();
    for idx in 1..time.len() {
        let from = events.row(idx - 1);
        let to = events.row(idx);
        let u = strides.dot(&from);
        let (x, y) = (from[node], to[node]);
        T[[u, x]] += time[idx] - time[idx - 1];
        if x != y {
            M[[u, x, y]] += 1;
        }
    }
}

''' + SIG + '''    let card = net.get_node(node).get_reserved_space_as_parent();
    let (strides, n_configurations) = parent_strides(net, parent_set);
    let mut M: Array3<usize> = Array::zeros((n_configurations, card, card));
    let mut T: Array2<f64> = Array::zeros((n_configurations, card));
    for trj in dataset.get_trajectories() {
        accumulate_trajectory(trj, node, &strides, &mut M, &mut T);
    }
    (M, T)
}'''))
q("rw-ss-windows", (PL, SS, SIG + '''    let node_domain = net.get_node(node).get_reserved_space_as_parent();
    let mut vector_to_idx: Array1<usize> = Array::zeros(net.get_number_of_nodes());
    let n_conf = parent_set.iter().fold(1, |acc, idx| {
        vector_to_idx[*idx] = acc;
        acc * net.get_node(*idx).get_reserved_space_as_parent()
    });
    let mut M = Array3::<usize>::zeros((n_conf, node_domain, node_domain));
    let mut T = Array2::<f64>::zeros((n_conf, node_domain));
    dataset.get_trajectories().iter().for_each(|trj| {
        let (time, events) = (trj.get_time(), trj.get_events());
        (0..time.len() - 1).for_each(|k| {
            let before = events.row(k);
            let after = events.row(k + 1);
            let conf = vector_to_idx.dot(&before);
            let delta = time[k + 1] - time[k];
            *T.get_mut((conf, before[node])).unwrap() += delta;
            let changed = before[node] != after[node];
            if !changed {
                return;
            }
            *M.get_mut((conf, before[node], after[node])).unwrap() += 1;
        });
    });
    (M, T)
}'''))
q("rw-ss-while", (PL, SS, SIG + '''    let node_domain = net.get_node(node).get_reserved_space_as_parent();
    let parents: Vec<(usize, usize)> = parent_set
        .iter()
        .map(|p| (*p, net.get_node(*p).get_reserved_space_as_parent()))
        .collect();
    let n_conf: usize = parents.iter().map(|(_, c)| c).product();
    let mut M: Array3<usize> = Array::zeros((n_conf, node_domain, node_domain));
    let mut T: Array2<f64> = Array::zeros((n_conf, node_domain));
    for trj in dataset.get_trajectories().iter() {
        let n_steps = trj.get_time().len() - 1;
        let mut idx = 0;
        while idx < n_steps {
            let mut conf = 0;
            let mut stride = 1;
            for (p, c) in parents.iter() {
                conf += stride * trj.get_events()[[idx, *p]];
                stride *= c;
            }
            let x = trj.get_events()[[idx, node]];
            let y = trj.get_events()[[idx + 1, node]];
            T[[conf, x]] += trj.get_time()[idx + 1] - trj.get_time()[idx];
            M[[conf, x, y]] += usize::from(x != y);
            idx += 1;
        }
    }
    (M, T)
}'''))

# ---------------------------------------------------------------- parameter learning
ML = '''        let (M, T) = sufficient_statistics(net, dataset, node.clone(), &parent_set);
        //Compute the CIM as M[i,x,y]/T[i,x]
'''


def fit_of(k):
    t = open(S + PL).read()
    i = t.index("impl ParameterLearning for " + k)
    j = t.index("    fn fit<", i)
    d = 0
    for e in range(t.index("{", j), len(t)):
        d += {"{": 1, "}": -1}.get(t[e], 0)
        if d == 0:
            return t[j : e + 1]


FSIG = '''    fn fit<T: process::NetworkProcess>(
        &self,
        net: &T,
        dataset: &Dataset,
        node: usize,
        parent_set: Option<BTreeSet<usize>>,
    ) -> Params {
'''
q("rw-mle-loops", (PL, fit_of("MLE"), FSIG + '''        let parent_set = parent_set.unwrap_or_else(|| net.get_parent_set(node));
        let (M, T) = sufficient_statistics(net, dataset, node, &parent_set);
        let (n_conf, n_from, n_to) = M.dim();
        let mut CIM: Array3<f64> = Array::zeros((n_conf, n_from, n_to));
        for u in 0..n_conf {
            for x in 0..n_from {
                let mut exit = 0.0;
                for y in 0..n_to {
                    let rate = M[[u, x, y]] as f64 / T[[u, x]];
                    CIM[[u, x, y]] = rate;
                    exit += rate;
                }
                CIM[[u, x, x]] = -exit;
            }
        }
        let mut learnt = net.get_node(node).clone();
        let Params::DiscreteStatesContinousTime(dsct) = &mut learnt;
        dsct.set_transitions(M);
        dsct.set_residence_time(T);
        dsct.set_cim_unchecked(CIM);
        learnt
    }''', True))
q("rw-bayes-loops", (PL, fit_of("BayesianApproach"), FSIG + '''        let parent_set = match parent_set {
            Some(given) => given,
            None => net.get_parent_set(node),
        };
        let (M, T) = sufficient_statistics(net, dataset, node, &parent_set);
        let n_conf = M.len_of(Axis(0));
        let alpha = self.alpha as f64 / n_conf as f64;
        let tau = self.tau / n_conf as f64;
        let mut CIM = Array3::<f64>::from_shape_fn(M.dim(), |(u, x, y)| {
            if x == y {
                0.0
            } else {
                (M[[u, x, y]] as f64 + alpha) / (T[[u, x]] + tau)
            }
        });
        for mut matrix in CIM.outer_iter_mut() {
            let exit_rates = matrix.sum_axis(Axis(1));
            matrix.diag_mut().assign(&exit_rates.mapv(|q| -q));
        }
        let mut n = net.get_node(node).clone();
        match &mut n {
            Params::DiscreteStatesContinousTime(dsct) => {
                dsct.set_cim_unchecked(CIM);
                dsct.set_transitions(M);
                dsct.set_residence_time(T);
            }
        }
        n
    }''', True))
q("rw-fit-shared", (PL, fit_of("MLE"), FSIG + '''        let parent_set = requested_or_own(net, node, parent_set);
        let (M, T) = sufficient_statistics(net, dataset, node.clone(), &parent_set);
        let mut CIM: Array3<f64> = Array::zeros(M.raw_dim());
        CIM.axis_iter_mut(Axis(2))
            .zip(M.mapv(|x| x as f64).axis_iter(Axis(2)))
            .for_each(|(mut C, m)| C.assign(&(&m / &T)));
        close_rows(&mut CIM);
        learnt_node(net, node, CIM, M, T)
    }''', True), (PL, fit_of("BayesianApproach"), FSIG + '''        let parent_set = requested_or_own(net, node, parent_set);
        let (M, T) = sufficient_statistics(net, dataset, node.clone(), &parent_set);
        let n_conf = M.shape()[0] as f64;
        let (alpha, tau) = (self.alpha as f64 / n_conf, self.tau as f64 / n_conf);
        let counts = M.mapv(|x| x as f64 + alpha);
        let times = T.mapv(|t| t + tau).insert_axis(Axis(2));
        let mut CIM: Array3<f64> = counts / times;
        CIM.outer_iter_mut().for_each(|mut C| C.diag_mut().fill(0.0));
        close_rows(&mut CIM);
        learnt_node(net, node, CIM, M, T)
    }''', True), (PL, "pub struct MLE {}", '''fn requested_or_own<T: process::NetworkProcess>(
    net: &T,
    node: usize,
    parent_set: Option<BTreeSet<usize>>,
) -> BTreeSet<usize> {
    if let Some(parent_set) = parent_set {
        parent_set
    } else {
        net.get_parent_set(node)
    }
}

/// Set the diagonal of every matrix to the opposite of the sum of its row.
fn close_rows(cim: &mut Array3<f64>) {
    let exit_rates = cim.sum_axis(Axis(2));
    for (mut matrix, rates) in cim.outer_iter_mut().zip(exit_rates.outer_iter()) {
        for (entry, rate) in matrix.diag_mut().iter_mut().zip(rates.iter()) {
            *entry = -*rate;
        }
    }
}

fn learnt_node<T: process::NetworkProcess>(
    net: &T,
    node: usize,
    cim: Array3<f64>,
    transitions: Array3<usize>,
    residence_time: Array2<f64>,
) -> Params {
    let mut n = net.get_node(node).clone();
    match n {
        Params::DiscreteStatesContinousTime(ref mut dsct) => {
            dsct.set_cim_unchecked(cim);
            dsct.set_transitions(transitions);
            dsct.set_residence_time(residence_time);
        }
    }
    n
}

pub struct MLE {}''', True))

# ---------------------------------------------------------------- sampler
NX = "    fn next(&mut self) -> Option<Self::Item> {"
q("rw-next-helpers", (SA, "impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {", '''impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {
    /// Schedule a transition for every node that has none pending.
    fn schedule_pending(&mut self) {
        for idx in 0..self.next_transitions.len() {
            if self.next_transitions[idx].is_none() {
                let node = self.net.get_node(idx);
                let state = node.state_to_index(&self.current_state[idx]);
                let u = self.net.get_param_index_network(idx, &self.current_state);
                let residence_time = node
                    .get_random_residence_time(state, u, &mut self.rng)
                    .unwrap();
                self.next_transitions[idx] = Some(self.current_time + residence_time);
            }
        }
    }

    /// Earliest pending transition.
    fn earliest(&self) -> (usize, f64) {
        let mut best = 0;
        let mut best_time = self.next_transitions[0].unwrap();
        for (idx, t) in self.next_transitions.iter().enumerate().skip(1) {
            let t = t.unwrap();
            if t < best_time {
                best = idx;
                best_time = t;
            }
        }
        (best, best_time)
    }

    fn invalidate(&mut self, node: usize) {
        self.next_transitions[node] = None;
        let children = self.net.get_children_set(node);
        children.into_iter().for_each(|child| self.next_transitions[child] = None);
    }
}

impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
    type Item = Sample;

    fn next(&mut self) -> Option<Self::Item> {
        let sample = Sample {
            t: self.current_time,
            state: self.current_state.clone(),
        };
        self.schedule_pending();
        let (node_idx, time) = self.earliest();
        self.current_time = time;
        let node = self.net.get_node(node_idx);
        let from = node.state_to_index(&self.current_state[node_idx]);
        let u = self.net.get_param_index_network(node_idx, &self.current_state);
        self.current_state[node_idx] = node.get_random_state(from, u, &mut self.rng).unwrap();
        self.invalidate(node_idx);
        Some(sample)
    }
}'''))
q("rw-reset", (SA, "    fn reset(&mut self) {", '''    fn reset(&mut self) {
        let net = self.net;
        self.current_state = if let Some(state) = self.initial_state.as_ref() {
            state.to_vec()
        } else {
            let mut state = Vec::with_capacity(net.get_number_of_nodes());
            for idx in net.get_node_indices() {
                state.push(net.get_node(idx).get_random_state_uniform(&mut self.rng));
            }
            state
        };
        self.next_transitions.clear();
        self.next_transitions.resize(net.get_node_indices().len(), None);
        self.current_time = 0.0;
    }'''))

# ---------------------------------------------------------------- params
q("rw-rt-letelse", (PA, "    fn get_random_residence_time(\n        &self,\n        state: usize,\n        u: usize,\n        rng: &mut ChaCha8Rng,\n    ) -> Result<f64, ParamsError> {", '''    fn get_random_residence_time(
        &self,
        state: usize,
        u: usize,
        rng: &mut ChaCha8Rng,
    ) -> Result<f64, ParamsError> {
        let Some(cim) = self.cim.as_ref() else {
            warn!("Cim not initialized for node {}", self.get_label());
            return Err(ParamsError::ParametersNotInitialized("CIM not initialized".to_string()));
        };
        let exit_rate = -cim[[u, state, state]];
        let uniform: f64 = rng.gen_range(0.0..=1.0);
        let time = -(uniform.ln()) / exit_rate;
        trace!("Generate random residence time. Node: {} - Time: {}", self.get_label(), time);
        Ok(time)
    }'''))
q("rw-rs-okorelse", (PA, "    fn get_random_state(\n        &self,\n        state: usize,\n        u: usize,\n        rng: &mut ChaCha8Rng,\n    ) -> Result<StateType, ParamsError> {", '''    fn get_random_state(
        &self,
        state: usize,
        u: usize,
        rng: &mut ChaCha8Rng,
    ) -> Result<StateType, ParamsError> {
        let cim = self.cim.as_ref().ok_or_else(|| {
            warn!("Cim not initialized for node {}", self.get_label());
            ParamsError::ParametersNotInitialized(String::from("CIM not initialized"))
        })?;
        let lambda = -cim[[u, state, state]];
        let urand: f64 = rng.gen_range(0.0..=1.0);
        let n = cim.shape()[2];
        let mut covered = 0.0;
        let mut next_state = state;
        for idx in 0..n {
            let rate = cim[[u, state, idx]];
            if rate <= 0.0 {
                continue;
            }
            next_state = idx;
            covered += rate / lambda;
            if covered >= urand {
                break;
            }
        }
        let next_state = StateType::Discrete(next_state);
        trace!("Generate random state. Node: {} - State: {:?}", self.get_label(), next_state);
        Ok(next_state)
    }'''))
q("rw-validate-split", (PA, "    fn validate_params(&self) -> Result<(), ParamsError> {\n        let domain", '''    fn validate_params(&self) -> Result<(), ParamsError> {
        match &self.cim {
            None => {
                warn!("Cim not initialized for node {}", self.get_label());
                Err(ParamsError::ParametersNotInitialized(String::from("CIM not initialized")))
            }
            Some(cim) => {
                check_shape(cim, self.domain.len())?;
                for matrix in cim.outer_iter() {
                    check_signs(&matrix)?;
                }
                let tolerance = f64::EPSILON.sqrt();
                for matrix in cim.outer_iter() {
                    for row in matrix.rows() {
                        if !(row.sum().abs() <= tolerance) {
                            return Err(ParamsError::InvalidCIM(format!("row sum {}", row.sum())));
                        }
                    }
                }
                Ok(())
            }
        }
    }'''), (PA, "impl ParamsTrait for DiscreteStatesContinousTimeParams {", '''fn check_shape(cim: &Array3<f64>, card: usize) -> Result<(), ParamsError> {
    let (_, rows, cols) = cim.dim();
    if rows == card && cols == card {
        Ok(())
    } else {
        Err(ParamsError::InvalidCIM(format!("Incompatible shape {:?} with domain {:?}", cim.shape(), card)))
    }
}

fn check_signs(matrix: &ArrayView2<f64>) -> Result<(), ParamsError> {
    for ((row, col), x) in matrix.indexed_iter() {
        if row == col && *x >= 0.0 {
            return Err(ParamsError::InvalidCIM(String::from("The diagonal of each cim must be non-positive")));
        }
        if row != col && !(*x >= 0.0) {
            return Err(ParamsError::InvalidCIM(String::from("The off-diagonal values of each cim must be non-negative")));
        }
    }
    Ok(())
}

impl ParamsTrait for DiscreteStatesContinousTimeParams {''', True))
q("rw-setcim", (PA, "    pub fn set_cim(&mut self, cim: Array3<f64>) -> Result<(), ParamsError> {", '''    pub fn set_cim(&mut self, cim: Array3<f64>) -> Result<(), ParamsError> {
        debug!("Setting cim for node {}", self.label);
        self.cim.replace(cim);
        let outcome = self.validate_params();
        if outcome.is_err() {
            warn!("Validation cim faild for node {}", self.label);
            self.cim.take();
        }
        outcome
    }'''))

# ---------------------------------------------------------------- tools
TG = "pub fn trajectory_generator<T: process::NetworkProcess>("
TSIG = '''pub fn trajectory_generator<T: process::NetworkProcess>(
    net: &T,
    n_trajectories: u64,
    t_end: f64,
    seed: Option<u64>,
) -> Dataset {
'''
TDOC = '''    Dataset::new(trajectories)
}'''
q("rw-tg-helper", (TO, TG, '''fn state_value(s: &params::StateType) -> usize {
    match s {
        params::StateType::Discrete(x) => *x,
    }
}

fn sample_trajectory<T: process::NetworkProcess>(
    sampler: &mut ForwardSampler<T>,
    t_end: f64,
) -> Trajectory {
    let mut time: Vec<f64> = vec![];
    let mut events: Vec<process::NetworkProcessState> = vec![];
    loop {
        let sample = sampler.next().unwrap();
        if sample.t >= t_end {
            break;
        }
        time.push(sample.t);
        events.push(sample.state);
    }
    time.push(t_end);
    events.push(events[events.len() - 1].clone());
    let shape = (events.len(), events[0].len());
    let flat: Vec<usize> = events.iter().flat_map(|e| e.iter().map(state_value)).collect();
    Trajectory::new(
        Array::from_vec(time),
        Array2::from_shape_vec(shape, flat).unwrap(),
    )
}

''' + TSIG + '''    let mut sampler = ForwardSampler::new(net, seed, None);
    let mut trajectories: Vec<Trajectory> = Vec::with_capacity(n_trajectories as usize);
    for _ in 0..n_trajectories {
        trajectories.push(sample_trajectory(&mut sampler, t_end));
        sampler.reset();
    }
''' + TDOC))
q("rw-tg-fromfn", (TO, TG, TSIG + '''    let mut trajectories: Vec<Trajectory> = Vec::new();
    let mut sampler = ForwardSampler::new(net, seed, None);
    for _ in 0..n_trajectories {
        let mut time: Vec<f64> = Vec::new();
        let mut events: Vec<process::NetworkProcessState> = Vec::new();
        while let Some(sample) = sampler.next() {
            if !(sample.t < t_end) {
                break;
            }
            time.push(sample.t);
            events.push(sample.state);
        }
        let last = events.last().unwrap().clone();
        time.push(t_end);
        events.push(last);
        let n_vars = net.get_number_of_nodes();
        let matrix = Array2::from_shape_fn((events.len(), events[0].len()), |(i, j)| match events[i][j] {
            params::StateType::Discrete(x) => x,
        });
        debug_assert!(n_vars == n_vars);
        trajectories.push(Trajectory::new(Array::from_vec(time), matrix));
        sampler.reset();
    }
''' + TDOC))
q("rw-ug", (TO, "    fn generate_graph<T: NetworkProcess>(&mut self, net: &mut T) {\n        net.init", '''    fn generate_graph<T: NetworkProcess>(&mut self, net: &mut T) {
        net.initialize_adj_matrix();
        let n = net.get_number_of_nodes();
        let pairs = (0..n).flat_map(|parent| (0..n).map(move |child| (parent, child)));
        for (parent, child) in pairs.filter(|(p, c)| p != c) {
            let draw = self.rng.gen_bool(self.density);
            if draw {
                net.add_edge(parent, child);
            }
        }
    }'''))
q("rw-ug-while", (TO, "    fn generate_graph<T: NetworkProcess>(&mut self, net: &mut T) {\n        net.init", '''    fn generate_graph<T: NetworkProcess>(&mut self, net: &mut T) {
        net.initialize_adj_matrix();
        for parent in net.get_node_indices() {
            for child in net.get_node_indices() {
                if parent == child || !self.rng.gen_bool(self.density) {
                    continue;
                }
                net.add_edge(parent, child);
            }
        }
    }'''))
q("rw-up", (TO, "    fn generate_parameters<T: NetworkProcess>(&mut self, net: &mut T) {\n        for", '''    fn generate_parameters<T: NetworkProcess>(&mut self, net: &mut T) {
        for node in net.get_node_indices() {
            let mut n_conf = 1;
            for parent in net.get_parent_set(node) {
                n_conf *= net.get_node(parent).get_reserved_space_as_parent();
            }
            let params::Params::DiscreteStatesContinousTime(param) = net.get_node_mut(node);
            let card = param.get_reserved_space_as_parent();
            let mut cim = Array3::<f64>::from_shape_fn((n_conf, card, card), |_| self.rng.gen());
            for mut x in cim.outer_iter_mut() {
                x.diag_mut().fill(0.0);
                for mut row in x.rows_mut() {
                    let total = row.sum();
                    let rate = self.rng.gen_range(self.interval.start..self.interval.end);
                    row.mapv_inplace(|w| w / total * rate);
                }
                let exit = x.sum_axis(Axis(1));
                for (i, e) in exit.iter().enumerate() {
                    x[[i, i]] = -e;
                }
            }
            param.set_cim_unchecked(cim);
        }
    }'''))

# ---------------------------------------------------------------- rewards
q("rw-rewcall", (RF, "    fn call(\n        &self,", '''    fn call(
        &self,
        current_state: &process::NetworkProcessState,
        previous_state: Option<&process::NetworkProcessState>,
    ) -> Reward {
        let value = |s: &params::StateType| match s {
            params::StateType::Discrete(x) => *x,
        };
        let mut instantaneous_reward = 0.0;
        for (rewards, s) in self.instantaneous_reward.iter().zip(current_state.iter()) {
            instantaneous_reward += rewards[value(s)];
        }
        let mut transition_reward = 0.0;
        if let Some(previous_state) = previous_state {
            for idx in 0..previous_state.len().min(current_state.len()) {
                let (p, c) = (value(&previous_state[idx]), value(&current_state[idx]));
                if p != c {
                    transition_reward = self.transition_reward[idx][[p, c]];
                    break;
                }
            }
        }
        Reward { transition_reward, instantaneous_reward }
    }'''))
q("rw-rewinit", (RF, "    fn initialize_from_network_process<T: process::NetworkProcess>(p: &T) -> Self {", '''    fn initialize_from_network_process<T: process::NetworkProcess>(p: &T) -> Self {
        let sizes: Vec<usize> = p
            .get_node_indices()
            .map(|i| p.get_node(i).get_reserved_space_as_parent())
            .collect();
        Self {
            transition_reward: sizes.iter().map(|n| ndarray::Array2::zeros((*n, *n))).collect(),
            instantaneous_reward: sizes.iter().map(|n| ndarray::Array1::zeros(*n)).collect(),
        }
    }'''))
q("rw-space", (RE, "    fn evaluate_state_space<N: process::NetworkProcess, R: super::RewardFunction>(\n        &self,\n        network_process: &N,\n        reward_function: &R,\n    ) -> HashMap<process::NetworkProcessState, f64> {", '''    fn evaluate_state_space<N: process::NetworkProcess, R: super::RewardFunction>(
        &self,
        network_process: &N,
        reward_function: &R,
    ) -> HashMap<process::NetworkProcessState, f64> {
        let cardinalities: Vec<usize> = network_process
            .get_node_indices()
            .map(|x| network_process.get_node(x).get_reserved_space_as_parent())
            .collect();
        let n_states: usize = cardinalities.iter().product();
        (0..n_states)
            .into_par_iter()
            .map(|s| {
                let mut rest = s;
                let mut state: process::NetworkProcessState = Vec::with_capacity(cardinalities.len());
                for card in cardinalities.iter() {
                    state.push(params::StateType::Discrete(rest % card));
                    rest /= card;
                }
                let value = self.evaluate_state(network_process, reward_function, &state);
                (state, value)
            })
            .collect()
    }'''))
q("rw-neigh", (RE, "    fn evaluate_state_space<N: process::NetworkProcess, R: super::RewardFunction>(\n        &self,\n        network_process: &N,\n        reward_function: &R,\n    ) -> HashMap<process::NetworkProcessState, f64> {\n        let abs", '''    fn evaluate_state_space<N: process::NetworkProcess, R: super::RewardFunction>(
        &self,
        network_process: &N,
        reward_function: &R,
    ) -> HashMap<process::NetworkProcessState, f64> {
        let absolute_reward = self
            .inner_reward
            .evaluate_state_space(network_process, reward_function);
        let mut relative = HashMap::with_capacity(absolute_reward.len());
        for (state, value) in &absolute_reward {
            let best = absolute_reward
                .iter()
                .filter(|(other, _)| state.iter().zip(other.iter()).filter(|(a, b)| a != b).count() <= 1)
                .map(|(_, v)| value / v)
                .fold(1.0, f64::max);
            relative.insert(state.clone(), best);
        }
        relative
    }'''))
q("rw-mc", (RE, "    fn evaluate_state<N: crate::process::NetworkProcess, R: super::RewardFunction>(\n        &self,\n        network_process: &N,\n        reward_function: &R,\n        state: &NetworkProcessState,\n    ) -> f64 {\n        info", '''    fn evaluate_state<N: crate::process::NetworkProcess, R: super::RewardFunction>(
        &self,
        network_process: &N,
        reward_function: &R,
        state: &NetworkProcessState,
    ) -> f64 {
        info!("Evaluating state {:?}", state);
        let mut sampler = ForwardSampler::new(network_process, self.seed, Some(state.clone()));
        let mut mean = 0.0;
        let mut mean_of_squares = 0.0;
        let normal = statrs::distribution::Normal::new(0.0, 1.0).unwrap();
        for i in 0..self.max_iterations {
            sampler.reset();
            let ret = self.trajectory_return(&mut sampler, reward_function);
            let n = i as f64 + 1.0;
            mean = mean * i as f64 / n + ret / n;
            mean_of_squares = mean_of_squares * i as f64 / n + ret * ret / n;
            if i > 2 && self.converged(i as f64, mean, mean_of_squares, &normal) {
                info!("State {:?} converged after {} iterations with expected value: {}", state, i, mean);
                return mean;
            }
        }
        warn!("State {:?} reached the maximum number of iterations: {}", state, mean);
        mean
    }'''), (RE, "impl RewardEvaluation for MonteCarloReward {", '''impl MonteCarloReward {
    /// Reward accrued in (from, to] by a unit reward rate.
    fn weight(&self, from: f64, to: f64) -> f64 {
        match self.reward_criteria {
            RewardCriteria::FiniteHorizon => to - from,
            RewardCriteria::InfiniteHorizon { discount_factor } => {
                ((-discount_factor * from).exp() - (-discount_factor * to).exp()) / discount_factor
            }
        }
    }

    fn discount(&self, t: f64) -> f64 {
        match &self.reward_criteria {
            RewardCriteria::FiniteHorizon => 1.0,
            RewardCriteria::InfiniteHorizon { discount_factor } => (-discount_factor * t).exp(),
        }
    }

    fn trajectory_return<N: crate::process::NetworkProcess, R: super::RewardFunction>(
        &self,
        sampler: &mut ForwardSampler<N>,
        reward_function: &R,
    ) -> f64 {
        let mut total = 0.0;
        let mut previous = sampler.next().unwrap();
        while previous.t < self.end_time {
            let current = sampler.next().unwrap();
            let rate = reward_function.call(&previous.state, None).instantaneous_reward;
            if current.t > self.end_time {
                total += self.weight(previous.t, self.end_time) * rate;
            } else {
                let jump = reward_function.call(&current.state, Some(&previous.state)).transition_reward;
                total += self.weight(previous.t, current.t) * rate + self.discount(current.t) * jump;
            }
            previous = current;
        }
        total
    }

    fn converged(&self, i: f64, mean: f64, mean_of_squares: f64, normal: &statrs::distribution::Normal) -> bool {
        let var = (i + 1.0) / i * (mean_of_squares - mean.powi(2));
        let p = 2.0 * normal.cdf(-(i + 1.0).sqrt() * self.max_err_stop / var.sqrt());
        self.alpha_stop - p > 0.0
    }
}

impl RewardEvaluation for MonteCarloReward {''', True))
