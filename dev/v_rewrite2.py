"""Whole-function rewrites of the remaining functions (structure learning, networks): every check must stay quiet."""
import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(__file__), "v_rewrite.py"))
V = _b["V"]
del V[:]
q, grab = _b["q"], _b["grab"]
SB, CB, HT, SF, BN, TP, PA = (_b[k] for k in ("SB", "CB", "HT", "SF", "BN", "TP", "PA"))

# ---------------------------------------------------------------- CTBN
q("r2-amalg-enum", (BN, "    pub fn amalgamation(&self) -> CtmpProcess {", '''    pub fn amalgamation(&self) -> CtmpProcess {
        let variables_domain: Array1<usize> = self
            .nodes
            .iter()
            .map(|x| x.get_reserved_space_as_parent())
            .collect();
        let state_space: usize = variables_domain.iter().product();
        let all: BTreeSet<usize> = self.get_node_indices().collect();
        let to_state = |x: &Array1<usize>| -> NetworkProcessState {
            x.iter().map(|x| StateType::Discrete(*x)).collect()
        };
        let mut amalgamated_cim: Array3<f64> = Array::zeros((1, state_space, state_space));
        for from in 0..state_space {
            let current_state = CtbnNetwork::idx_to_state(&variables_domain, from);
            let current = to_state(&current_state);
            for (idx_node, node) in self.nodes.iter().enumerate() {
                let Params::DiscreteStatesContinousTime(p) = node;
                let cim = p.get_cim().as_ref().unwrap();
                let configuration = self.get_param_index_network(idx_node, &current);
                for value in 0..variables_domain[idx_node] {
                    let mut next_state = current_state.clone();
                    next_state[idx_node] = value;
                    let to = self.get_param_index_from_custom_parent_set(&to_state(&next_state), &all);
                    amalgamated_cim[[0, from, to]] += cim[[configuration, current_state[idx_node], value]];
                }
            }
        }
        let domain: BTreeSet<String> = (0..state_space).map(|x| x.to_string()).collect();
        let mut amalgamated_param = DiscreteStatesContinousTimeParams::new("ctmp".to_string(), domain);
        amalgamated_param.set_cim(amalgamated_cim).unwrap();
        let mut ctmp = CtmpProcess::new();
        ctmp.add_node(Params::DiscreteStatesContinousTime(amalgamated_param)).unwrap();
        info!("Network Amalgamation Completed");
        ctmp
    }'''))
q("r2-amalg-mutvec", (BN, "    pub fn amalgamation(&self) -> CtmpProcess {", '''    pub fn amalgamation(&self) -> CtmpProcess {
        info!("Network Amalgamation Started");
        let variables_domain =
            Array1::from_iter(self.nodes.iter().map(|x| x.get_reserved_space_as_parent()));
        let state_space = variables_domain.product();
        let variables_set = BTreeSet::from_iter(self.get_node_indices());
        let cim = self.fill(&variables_domain, &variables_set, state_space);
        let mut amalgamated_param = DiscreteStatesContinousTimeParams::new(
            String::from("ctmp"),
            (0..state_space).map(|x| format!("{}", x)).collect(),
        );
        amalgamated_param.set_cim(cim).expect("valid generator");
        let mut ctmp = CtmpProcess::new();
        let node = Params::DiscreteStatesContinousTime(amalgamated_param);
        if let Err(e) = ctmp.add_node(node) {
            panic!("{}", e);
        }
        ctmp
    }

    fn fill(&self, domain: &Array1<usize>, set: &BTreeSet<usize>, n: usize) -> Array3<f64> {
        let mut res: Array3<f64> = Array::zeros((1, n, n));
        for i in 0..n {
            let cur = CtbnNetwork::idx_to_state(domain, i);
            let mut state: NetworkProcessState = cur.iter().map(|x| StateType::Discrete(*x)).collect();
            for node in self.get_node_indices() {
                let row = self.get_param_index_network(node, &state);
                let p = match self.get_node(node) {
                    Params::DiscreteStatesContinousTime(p) => p,
                };
                for v in 0..domain[node] {
                    state[node] = StateType::Discrete(v);
                    let j = self.get_param_index_from_custom_parent_set(&state, set);
                    res[[0, i, j]] += p.get_cim().as_ref().unwrap()[[row, cur[node], v]];
                }
                state[node] = StateType::Discrete(cur[node]);
            }
        }
        res
    }'''))
q("r2-idx", (BN, "    pub fn idx_to_state(", '''    pub fn idx_to_state(variables_domain: &Array1<usize>, state: usize) -> Array1<usize> {
        let mut rest = state;
        variables_domain
            .iter()
            .map(|var| {
                let digit = rest % var;
                rest /= var;
                digit
            })
            .collect()
    }'''))
q("r2-idx-while", (BN, "    pub fn idx_to_state(", '''    pub fn idx_to_state(variables_domain: &Array1<usize>, state: usize) -> Array1<usize> {
        let n = variables_domain.len();
        let mut array_state = Array1::zeros(n);
        let mut state = state;
        let mut i = 0;
        while i < n {
            let var = variables_domain[i];
            let quotient = state / var;
            array_state[i] = state - quotient * var;
            state = quotient;
            i += 1;
        }
        array_state
    }'''))
q("r2-idx-stride", (BN, "    pub fn idx_to_state(", '''    pub fn idx_to_state(variables_domain: &Array1<usize>, state: usize) -> Array1<usize> {
        let mut stride = 1;
        let mut array_state = Array1::zeros(variables_domain.len());
        for i in 0..variables_domain.len() {
            array_state[i] = (state / stride) % variables_domain[i];
            stride *= variables_domain[i];
        }
        array_state
    }'''))
q("r2-idx-entry", (BN, "    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {", '''    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {
        let adj = self.adj_matrix.as_ref().unwrap();
        let mut index = 0;
        let mut multiplier = 1;
        for (parent, edge) in adj.column(node).iter().enumerate() {
            if *edge == 0 {
                continue;
            }
            let p = &self.nodes[parent];
            index += p.state_to_index(&current_state[parent]) * multiplier;
            multiplier *= p.get_reserved_space_as_parent();
        }
        index
    }'''))
q("r2-idx-delegates", (BN, "    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {", '''    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {
        self.get_param_index_from_custom_parent_set(current_state, &self.get_parent_set(node))
    }'''))
q("r2-idx-rev", (BN, "    fn get_param_index_from_custom_parent_set(", '''    fn get_param_index_from_custom_parent_set(
        &self,
        current_state: &NetworkProcessState,
        parent_set: &BTreeSet<usize>,
    ) -> usize {
        // Horner's scheme from the most significant parent
        let mut index = 0;
        for x in parent_set.iter().rev() {
            index = index * self.nodes[*x].get_reserved_space_as_parent()
                + self.nodes[*x].state_to_index(&current_state[*x]);
        }
        index
    }'''))
q("r2-custom-loop", (BN, "    fn get_param_index_from_custom_parent_set(", '''    fn get_param_index_from_custom_parent_set(
        &self,
        current_state: &NetworkProcessState,
        parent_set: &BTreeSet<usize>,
    ) -> usize {
        let mut radix = 1usize;
        parent_set
            .iter()
            .map(|&x| {
                let digit = self.get_node(x).state_to_index(&current_state[x]) * radix;
                radix *= self.get_node(x).get_reserved_space_as_parent();
                digit
            })
            .sum()
    }'''))
q("r2-parents-loop", (BN, "    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {", '''    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        let adj = self.adj_matrix.as_ref().unwrap();
        let mut res = BTreeSet::new();
        for idx in 0..adj.nrows() {
            if adj[[idx, node]] != 0 {
                res.insert(idx);
            }
        }
        res
    }'''))
q("r2-parents-shared", (BN, "    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {", '''    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        linked(self.adj_matrix.as_ref().unwrap().column(node))
    }'''), (BN, "    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {", '''    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {
        linked(self.adj_matrix.as_ref().unwrap().row(node))
    }'''), (BN, "impl process::NetworkProcess for CtbnNetwork {", '''fn linked(line: ArrayView1<u16>) -> BTreeSet<usize> {
    line.iter()
        .enumerate()
        .filter(|(_, x)| **x > 0)
        .map(|(idx, _)| idx)
        .collect()
}

impl process::NetworkProcess for CtbnNetwork {''', True))
q("r2-children-indices", (BN, "    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {", '''    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {
        let adj = self.adj_matrix.as_ref().unwrap();
        self.get_node_indices().filter(|&c| adj[(node, c)] > 0).collect()
    }'''))
q("r2-addedge", (BN, "    fn add_edge(&mut self, parent: usize, child: usize) {", '''    fn add_edge(&mut self, parent: usize, child: usize) {
        if self.adj_matrix.is_none() {
            self.initialize_adj_matrix();
        }
        let network = self.adj_matrix.as_mut().unwrap();
        network[[parent, child]] = 1;
        self.nodes[child].reset_params();
    }'''))
q("r2-addedge-match", (BN, "    fn add_edge(&mut self, parent: usize, child: usize) {", '''    fn add_edge(&mut self, parent: usize, child: usize) {
        match self.adj_matrix {
            Some(_) => (),
            None => self.initialize_adj_matrix(),
        }
        self.adj_matrix.as_mut().map(|m| m[(parent, child)] = 1);
        self.get_node_mut(child).reset_params();
    }'''))
q("r2-init", (BN, "    fn initialize_adj_matrix(&mut self) {", '''    fn initialize_adj_matrix(&mut self) {
        self.reset_conditional_nodes();
        let n = self.get_number_of_nodes();
        self.adj_matrix.replace(Array2::zeros((n, n)));
    }'''))
q("r2-addnode", (BN, "    fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {", '''    fn add_node(&mut self, n: Params) -> Result<usize, process::NetworkError> {
        let index = self.nodes.len();
        self.reset_conditional_nodes();
        self.adj_matrix = None;
        let mut node = n;
        node.reset_params();
        self.nodes.push(node);
        Ok(index)
    }'''))
q("r2-reset-cond", (BN, "    fn reset_conditional_nodes(&mut self) {", '''    fn reset_conditional_nodes(&mut self) {
        let network = match self.adj_matrix.as_ref() {
            None => return,
            Some(network) => network,
        };
        for idx in 0..self.nodes.len() {
            let orphan = network.column(idx).iter().all(|x| *x == 0);
            if !orphan {
                self.nodes[idx].reset_params();
            }
        }
    }'''))
# ---------------------------------------------------------------- CTMP
q("r2-ctmp-addnode", (TP, "    fn add_node(&mut self, n: crate::params::Params) -> Result<usize, process::NetworkError> {", '''    fn add_node(&mut self, n: crate::params::Params) -> Result<usize, process::NetworkError> {
        if self.param.is_some() {
            warn!("A CTMP do not support more than one node");
            return Err(process::NetworkError::NodeInsertionError(String::from(
                "CtmpProcess has only one node",
            )));
        }
        self.param = Some(n);
        Ok(0)
    }'''))
q("r2-ctmp-counts", (TP, "    fn get_node_indices(&self) -> std::ops::Range<usize> {", '''    fn get_node_indices(&self) -> std::ops::Range<usize> {
        0..self.get_number_of_nodes()
    }'''), (TP, "    fn get_number_of_nodes(&self) -> usize {", '''    fn get_number_of_nodes(&self) -> usize {
        self.param.is_some() as usize
    }'''))
q("r2-ctmp-node", (TP, "    fn get_node(&self, node_idx: usize) -> &crate::params::Params {", '''    fn get_node(&self, node_idx: usize) -> &crate::params::Params {
        if node_idx != 0 {
            unimplemented!("CtmpProcess has only one node");
        }
        self.param.as_ref().unwrap()
    }'''), (TP, "    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {", '''    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {
        match node {
            0 => {
                let StateType::Discrete(x) = current_state[0];
                x
            }
            _ => unimplemented!("CtmpProcess has only one node"),
        }
    }'''))
q("r2-ctmp-sets", (TP, "    fn get_parent_set(&self, node: usize) -> std::collections::BTreeSet<usize> {", '''    fn get_parent_set(&self, node: usize) -> std::collections::BTreeSet<usize> {
        self.isolated(node)
    }'''), (TP, "    fn get_children_set(&self, node: usize) -> std::collections::BTreeSet<usize> {", '''    fn get_children_set(&self, node: usize) -> std::collections::BTreeSet<usize> {
        self.isolated(node)
    }'''), (TP, "    pub fn new() -> CtmpProcess {", '''    fn isolated(&self, node: usize) -> BTreeSet<usize> {
        if self.param.is_none() {
            panic!("Uninitialized CtmpProcess");
        }
        if node != 0 {
            unimplemented!("CtmpProcess has only one node");
        }
        BTreeSet::new()
    }

    pub fn new() -> CtmpProcess {
        CtmpProcess { param: None }
    }'''))
# ---------------------------------------------------------------- scores
SC = '''    fn compute_score<T>(
        &self,
        net: &T,
        node: usize,
        parent_set: &BTreeSet<usize>,
        dataset: &tools::Dataset,
    ) -> (f64, Array3<usize>)
    where
        T: process::NetworkProcess,
    {'''
q("r2-ll-loops", (SF, SC, SC + '''
        let params::Params::DiscreteStatesContinousTime(_params) = net.get_node(node);
        let (M, T) = parameter_learning::sufficient_statistics(net, dataset, node, parent_set);
        let configurations = M.shape()[0] as f64;
        let alpha = self.alpha as f64 / configurations;
        let tau = self.tau / configurations;
        let mut q = 0.0;
        let mut theta = 0.0;
        for u in 0..M.shape()[0] {
            for x in 0..M.shape()[1] {
                let m: usize = M.slice(s![u, x, ..]).sum();
                let m = m as f64;
                q += gamma::ln_gamma(alpha + m + 1.0) - gamma::ln_gamma(alpha + 1.0)
                    + (alpha + 1.0) * tau.ln()
                    - (alpha + m + 1.0) * (tau + T[[u, x]]).ln();
                theta += gamma::ln_gamma(alpha) - gamma::ln_gamma(alpha + m);
                for y in 0..M.shape()[2] {
                    theta += gamma::ln_gamma(alpha + M[[u, x, y]] as f64) - gamma::ln_gamma(alpha);
                }
            }
        }
        (q + theta, M)
    }'''))
q("r2-ll-helpers", (SF, SC, SC + '''
        match &net.get_node(node) {
            params::Params::DiscreteStatesContinousTime(_params) => {
                let (M, T) =
                    parameter_learning::sufficient_statistics(net, dataset, node, parent_set);
                let n = M.shape()[0] as f64;
                let (alpha, tau) = (self.alpha as f64 / n, self.tau / n);
                let log_ll_q: f64 = Self::log_ll_q(&M, &T, alpha, tau);
                let log_ll_theta: f64 = Self::log_ll_theta(&M, alpha);
                (log_ll_q + log_ll_theta, M)
            }
        }
    }

    fn log_ll_q(M: &Array3<usize>, T: &Array2<f64>, alpha: f64, tau: f64) -> f64 {
        let departures = M.sum_axis(Axis(2)).mapv(|m| m as f64);
        let prior = (alpha + 1.0) * f64::ln(tau) - gamma::ln_gamma(alpha + 1.0);
        departures
            .iter()
            .zip(T.iter())
            .fold(0.0, |acc, (m, t)| {
                acc + gamma::ln_gamma(alpha + m + 1.0) + prior
                    - (alpha + m + 1.0) * f64::ln(tau + t)
            })
    }

    fn log_ll_theta(M: &Array3<usize>, alpha: f64) -> f64 {
        let mut total = 0.0;
        for x in M.outer_iter() {
            for y in x.outer_iter() {
                total += gamma::ln_gamma(alpha);
                total -= gamma::ln_gamma(alpha + y.sum() as f64);
                total += y
                    .iter()
                    .map(|z| gamma::ln_gamma(alpha + *z as f64) - gamma::ln_gamma(alpha))
                    .sum::<f64>();
            }
        }
        total
    }'''))
BC = '''        let (ll, M) = self.ll.compute_score(net, node, parent_set, dataset);'''
q("r2-bic", (SF, '''        //Compute the number of parameters
        let n_parameters = M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);
''' if "//Compute the number of parameters" in open("/repo/src/" + SF).read() else "        let n_parameters = M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);\n", '''        let (configurations, from, to) = M.dim();
        let n_parameters = configurations * from * (to - 1);
''', True), (SF, "            .map(|x| x.get_time().len() - 1)\n            .sum();", "            .fold(0, |acc, x| acc + x.get_time().len() - 1);", True))
# ---------------------------------------------------------------- hill climbing
FT = '''    fn fit_transform<T>(&self, net: T, dataset: &Dataset) -> T
    where
        T: process::NetworkProcess,
    {'''
HEAD = '''
        if net.get_number_of_nodes() != dataset.get_trajectories()[0].get_events().shape()[1] {
            panic!("Dataset and Network must have the same number of variables.")
        }
        let mut net = net;
'''
q("r2-hc-seq", (SB, FT, FT + HEAD + '''        let max_parent_set = self.max_parent_set.unwrap_or(net.get_number_of_nodes());
        net.initialize_adj_matrix();
        let mut learned: Vec<(usize, BTreeSet<usize>)> = vec![];
        learned.par_extend(net.get_node_indices().into_par_iter().map(|node| {
            info!("Learning node {}", node);
            let score = |ps: &BTreeSet<usize>| self.score_function.call(&net, node, ps, dataset);
            let mut parent_set: BTreeSet<usize> = BTreeSet::new();
            let mut current_score = score(&parent_set);
            loop {
                let old_score = current_score;
                for parent in net.get_node_indices().filter(|p| *p != node) {
                    let is_removed = parent_set.remove(&parent);
                    if !is_removed && parent_set.len() < max_parent_set {
                        parent_set.insert(parent);
                    }
                    let tmp_score = score(&parent_set);
                    if tmp_score < current_score {
                        if is_removed {
                            parent_set.insert(parent);
                        } else {
                            parent_set.remove(&parent);
                        }
                    } else {
                        current_score = tmp_score;
                    }
                }
                if current_score <= old_score {
                    break;
                }
            }
            (node, parent_set)
        }));
        learned.iter().for_each(|(child, parents)| {
            parents.iter().for_each(|parent| net.add_edge(*parent, *child))
        });
        net
    }'''))
q("r2-hc-candidate", (SB, FT, FT + HEAD + '''        let max_parent_set = match self.max_parent_set {
            Some(m) => m,
            None => net.get_number_of_nodes(),
        };
        net.initialize_adj_matrix();
        let learned: Vec<(usize, BTreeSet<usize>)> = net
            .get_node_indices()
            .into_par_iter()
            .map(|node| (node, self.learn_node(&net, node, max_parent_set, dataset)))
            .collect();
        for (child, parents) in learned {
            for parent in parents {
                net.add_edge(parent, child);
            }
        }
        net
    }
}

impl<S: ScoreFunction> HillClimbing<S> {
    fn learn_node<T: process::NetworkProcess>(&self, net: &T, node: usize, max_parent_set: usize, dataset: &Dataset) -> BTreeSet<usize> {
        info!("Learning node {}", node);
        let mut parent_set: BTreeSet<usize> = BTreeSet::new();
        let mut current_score = self.score_function.call(net, node, &parent_set, dataset);
        let mut old_score = f64::NEG_INFINITY;
        while current_score > old_score {
            old_score = current_score;
            for parent in net.get_node_indices() {
                if parent == node {
                    continue;
                }
                let mut candidate = parent_set.clone();
                if !candidate.remove(&parent) && candidate.len() < max_parent_set {
                    candidate.insert(parent);
                }
                let tmp_score = self.score_function.call(net, node, &candidate, dataset);
                if tmp_score >= current_score {
                    parent_set = candidate;
                    current_score = tmp_score;
                }
            }
        }
        parent_set
    }'''))
# ---------------------------------------------------------------- CTPC
q("r2-ctpc-helper", (CB, FT, FT + HEAD + '''
        net.initialize_adj_matrix();
        let learned: Vec<(usize, BTreeSet<usize>)> = net
            .get_node_indices()
            .into_par_iter()
            .map(|child| (child, self.parents_of(&net, child, dataset)))
            .collect();
        for (child, parents) in &learned {
            for parent in parents {
                net.add_edge(*parent, *child);
            }
        }
        net
    }
}

impl<P: ParameterLearning> CTPC<P> {
    fn parents_of<T: process::NetworkProcess>(&self, net: &T, child: usize, dataset: &Dataset) -> BTreeSet<usize> {
        let mut cache = Cache::new(&self.parameter_learning);
        let mut candidates: BTreeSet<usize> = net.get_node_indices().collect();
        candidates.remove(&child);
        let mut size = 0;
        while size < candidates.len() {
            let mut remaining = candidates.clone();
            for parent in &candidates {
                let separated = candidates
                    .iter()
                    .filter(|x| *x != parent)
                    .copied()
                    .combinations(size)
                    .any(|s| {
                        let s: BTreeSet<usize> = s.into_iter().collect();
                        self.Ftest.call(net, child, *parent, &s, dataset, &mut cache)
                            && self.Chi2test.call(net, child, *parent, &s, dataset, &mut cache)
                    });
                if separated {
                    remaining.remove(parent);
                }
            }
            candidates = remaining;
            size += 1;
        }
        candidates
    }'''))
q("r2-ctpc-retain", (CB, FT, FT + HEAD + '''
        net.initialize_adj_matrix();
        let mut learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = vec![];
        learned_parent_sets.par_extend(net.get_node_indices().into_par_iter().map(|child_node| {
            let mut cache = Cache::new(&self.parameter_learning);
            let mut candidates: BTreeSet<usize> =
                net.get_node_indices().filter(|x| *x != child_node).collect();
            for separation_set_size in 0.. {
                if separation_set_size >= candidates.len() {
                    break;
                }
                let mut dropped: BTreeSet<usize> = BTreeSet::new();
                for parent_node in candidates.iter() {
                    let others: Vec<usize> =
                        candidates.iter().cloned().filter(|x| x != parent_node).collect();
                    for separation_set in others.into_iter().combinations(separation_set_size) {
                        let separation_set: BTreeSet<usize> = separation_set.into_iter().collect();
                        let f = self.Ftest.call(&net, child_node, *parent_node, &separation_set, dataset, &mut cache);
                        if !f {
                            continue;
                        }
                        if self.Chi2test.call(&net, child_node, *parent_node, &separation_set, dataset, &mut cache) {
                            dropped.insert(*parent_node);
                            break;
                        }
                    }
                }
                candidates.retain(|x| !dropped.contains(x));
            }
            (child_node, candidates)
        }));
        for (child_node, parents) in learned_parent_sets {
            for parent_node in parents.into_iter() {
                net.add_edge(parent_node, child_node);
            }
        }
        net
    }'''))
CF = '''    pub fn fit<T: process::NetworkProcess>(
        &mut self,
        net: &T,
        dataset: &Dataset,
        node: usize,
        parent_set: Option<BTreeSet<usize>>,
    ) -> Params {'''
q("r2-cache-entry", (CB, CF, CF + '''
        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            self.cache_persistent_small = mem::take(&mut self.cache_persistent_big);
            self.parent_set_size_small += 1;
        }
        let learner = self.parameter_learning;
        let cache = if parent_set_len > self.parent_set_size_small {
            &mut self.cache_persistent_big
        } else {
            &mut self.cache_persistent_small
        };
        cache
            .entry(parent_set.clone())
            .or_insert_with(|| learner.fit(net, dataset, node, parent_set))
            .clone()
    }'''))
q("r2-cache-lookup", (CB, CF, CF + '''
        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            mem::swap(&mut self.cache_persistent_small, &mut self.cache_persistent_big);
            self.cache_persistent_big.clear();
            self.parent_set_size_small += 1;
        }
        let big = parent_set_len > self.parent_set_size_small;
        let cached = if big {
            self.cache_persistent_big.get(&parent_set)
        } else {
            self.cache_persistent_small.get(&parent_set)
        };
        if let Some(params) = cached {
            return params.clone();
        }
        let params = self.parameter_learning.fit(net, dataset, node, parent_set.clone());
        if big {
            self.cache_persistent_big.insert(parent_set, params.clone());
        } else {
            self.cache_persistent_small.insert(parent_set, params.clone());
        }
        params
    }'''))
# ---------------------------------------------------------------- tests
t = open("/repo/src/" + HT).read()
i1 = t.index("impl HypothesisTest for F {")
i2 = t.index("impl HypothesisTest for ChiSquare {")
CALL_F = t[t.index("        let P_small = match cache.fit", i1): t.index("impl ChiSquare {", i1)]
CALL_X = t[t.index("        let P_small = match cache.fit", i2):]
end = lambda s: s[: s.rindex("        return true;\n    }") + len("        return true;\n    }")]
CALL_F, CALL_X = end(CALL_F), end(CALL_X)
HELP = '''
fn estimates<T, P>(
    net: &T,
    child_node: usize,
    parent_node: usize,
    separation_set: &BTreeSet<usize>,
    dataset: &Dataset,
    cache: &mut Cache<P>,
) -> (DiscreteStatesContinousTimeParams, DiscreteStatesContinousTimeParams, usize, usize)
where
    T: process::NetworkProcess,
    P: parameter_learning::ParameterLearning,
{
    let Params::DiscreteStatesContinousTime(small) =
        cache.fit(net, dataset, child_node, Some(separation_set.clone()));
    let extended: BTreeSet<usize> = separation_set
        .iter()
        .copied()
        .chain(std::iter::once(parent_node))
        .collect();
    let Params::DiscreteStatesContinousTime(big) =
        cache.fit(net, dataset, child_node, Some(extended));
    let lower: usize = separation_set
        .iter()
        .filter(|x| **x < parent_node)
        .map(|x| net.get_node(*x).get_reserved_space_as_parent())
        .product();
    let radix = net.get_node(parent_node).get_reserved_space_as_parent();
    (small, big, lower, radix)
}

impl HypothesisTest for F {'''
q("r2-tests-shared", (HT, CALL_F, '''        let (small, big, lower, radix) =
            estimates(net, child_node, parent_node, separation_set, dataset, cache);
        let (m_small, m_big) = (
            small.get_transitions().as_ref().unwrap(),
            big.get_transitions().as_ref().unwrap(),
        );
        (0..m_big.shape()[0]).all(|j| {
            let i = j % lower + (j / (lower * radix)) * lower;
            self.compare_matrices(
                i,
                m_small,
                small.get_cim().as_ref().unwrap(),
                j,
                m_big,
                big.get_cim().as_ref().unwrap(),
            )
        })
    }''', True), (HT, CALL_X, '''        let (small, big, lower, radix) =
            estimates(net, child_node, parent_node, separation_set, dataset, cache);
        let m_small = small.get_transitions().as_ref().unwrap();
        let m_big = big.get_transitions().as_ref().unwrap();
        (0..m_big.len_of(Axis(0))).all(|j| {
            self.compare_matrices(j % lower + (j / (lower * radix)) * lower, m_small, j, m_big)
        })
    }''', True), (HT, "impl HypothesisTest for F {", HELP, True))
q("r2-F-loop", (HT, CALL_F, '''        let Params::DiscreteStatesContinousTime(P_small) =
            cache.fit(net, dataset, child_node, Some(separation_set.clone()));
        let extended: BTreeSet<usize> = separation_set | &BTreeSet::from([parent_node]);
        let Params::DiscreteStatesContinousTime(P_big) =
            cache.fit(net, dataset, child_node, Some(extended.clone()));
        let stride: usize = extended
            .range(..parent_node)
            .map(|x| net.get_node(*x).get_reserved_space_as_parent())
            .product();
        let values = net.get_node(parent_node).get_reserved_space_as_parent();
        let n = P_big.get_transitions().as_ref().unwrap().shape()[0];
        let mut same = true;
        let mut j = 0;
        while same && j < n {
            let i = (j % stride) + (j / (stride * values)) * stride;
            same = self.compare_matrices(
                i,
                P_small.get_transitions().as_ref().unwrap(),
                P_small.get_cim().as_ref().unwrap(),
                j,
                P_big.get_transitions().as_ref().unwrap(),
                P_big.get_cim().as_ref().unwrap(),
            );
            j += 1;
        }
        same
    }''', True))
FC = t[t.index("        let M1 = M1.index_axis"): t.index("impl HypothesisTest for F {")]
FC = FC[: FC.index("        true\n    }") + len("        true\n    }")]
q("r2-F-compare", (HT, FC, '''        let departures = |m: &Array3<usize>, k: usize, row: usize| -> f64 {
            m.index_axis(Axis(0), k).row(row).iter().map(|x| *x as f64).sum()
        };
        let lim_sx = self.alpha / 2.0;
        let lim_dx = 1.0 - lim_sx;
        (0..M1.shape()[1]).all(|idx| {
            let statistic = cim_2[[j, idx, idx]] / cim_1[[i, idx, idx]];
            let law = FisherSnedecor::new(departures(M1, i, idx), departures(M2, j, idx)).unwrap();
            let s = law.cdf(statistic);
            !(s < lim_sx || s > lim_dx)
        })
    }''', True))
XC = t[t.index("        let M1 = M1.index_axis", t.index("impl ChiSquare {")): i2]
XC = XC[: XC.index("        ret\n    }") + len("        ret\n    }")]
q("r2-X-compare", (HT, XC, '''        let M1 = M1.index_axis(Axis(0), i).mapv(|x| x as f64);
        let M2 = M2.index_axis(Axis(0), j).mapv(|x| x as f64);
        let n = M1.shape()[0];
        let law = ChiSquared::new((n - 1) as f64).unwrap();
        for x in 0..n {
            let k = (M1.row(x).sum() / M2.row(x).sum()).sqrt();
            let l = 1.0 / k;
            let mut statistic = 0.0;
            for y in 0..M1.shape()[1] {
                if x == y {
                    continue;
                }
                let d = k * M2[[x, y]] - l * M1[[x, y]];
                statistic += d * d / (M2[[x, y]] + M1[[x, y]]);
            }
            if !(law.cdf(statistic) < 1.0 - self.alpha) {
                return false;
            }
        }
        true
    }''', True))
q("r2-X-compare-arrays", (HT, XC, '''        let to_f64 = |m: &Array3<usize>, k: usize| m.index_axis(Axis(0), k).mapv(|x| x as f64);
        let first = to_f64(M1, i);
        let second = to_f64(M2, j);
        let K = (first.sum_axis(Axis(1)) / second.sum_axis(Axis(1)))
            .mapv(|x| x.sqrt())
            .insert_axis(Axis(1));
        let L = K.mapv(|x| 1.0 / x);
        let numerator = (&K * &second - &L * &first).mapv(|a| a * a);
        let mut X_2 = numerator / (&second + &first);
        X_2.diag_mut().fill(0.0);
        let statistics = X_2.sum_axis(Axis(1));
        let degrees = (statistics.len() - 1) as f64;
        let limit = 1.0 - self.alpha;
        let n = ChiSquared::new(degrees).unwrap();
        for x in statistics.iter() {
            if !(n.cdf(*x) < limit) {
                return false;
            }
        }
        true
    }''', True))
q("r2-ctmp-counts2", (TP, "    fn get_node_indices(&self) -> std::ops::Range<usize> {", '''    fn get_node_indices(&self) -> std::ops::Range<usize> {
        0..self.get_number_of_nodes()
    }'''), (TP, "    fn get_number_of_nodes(&self) -> usize {", '''    fn get_number_of_nodes(&self) -> usize {
        usize::from(self.param.is_some())
    }'''))
q("r2-ctmp-counts3", (TP, "    fn get_node_indices(&self) -> std::ops::Range<usize> {", '''    fn get_node_indices(&self) -> std::ops::Range<usize> {
        0..self.get_number_of_nodes()
    }'''), (TP, "    fn get_number_of_nodes(&self) -> usize {", '''    fn get_number_of_nodes(&self) -> usize {
        self.param.iter().count()
    }'''))
