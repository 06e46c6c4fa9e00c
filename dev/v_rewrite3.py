"""a third batch of rewrites that keep the behaviour"""
V = []
CB, SA, PA, TO, PL, CT, RE, RF, SS, SB, CA, HT = "process/ctbn.rs", "sampling.rs", "params.rs", "tools.rs", "parameter_learning.rs", "process/ctmp.rs", "reward/reward_evaluation.rs", "reward/reward_function.rs", "structure_learning/score_function.rs", "structure_learning/score_based_algorithm.rs", "structure_learning/constraint_based_algorithm.rs", "structure_learning/hypothesis_test.rs"


def q(n, *eds):
    V.append((n, "quiet", "", list(eds)))


q("r3-am-push", (CB, '''                // Add the transition intensities for each possible configuration of the node
                // `idx_node` in the `amalgamated_cim`
                for next_node_state in 0..variables_domain[idx_node] {
                    let mut next_state = current_state.clone();
                    next_state[idx_node] = next_node_state;

                    let next_state_statetype: NetworkProcessState =
                        next_state.iter().map(|x| StateType::Discrete(*x)).collect();
                    let idx_next_state = self.get_param_index_from_custom_parent_set(
                        &next_state_statetype,
                        &variables_set,
                    );
                    amalgamated_cim[[0, idx_current_state, idx_next_state]] +=
                        p.get_cim().as_ref().unwrap()[[
                            self.get_param_index_network(idx_node, &current_state_statetype),
                            current_state[idx_node],
                            next_node_state,
                        ]];
                }''', '''                let cim = p.get_cim().as_ref().unwrap();
                let u = self.get_param_index_network(idx_node, &current_state_statetype);
                let mut next_state_statetype = current_state_statetype.clone();
                for next_node_state in 0..variables_domain[idx_node] {
                    next_state_statetype[idx_node] = StateType::Discrete(next_node_state);
                    let idx_next_state = self.get_param_index_from_custom_parent_set(
                        &next_state_statetype,
                        &variables_set,
                    );
                    amalgamated_cim[[0, idx_current_state, idx_next_state]] +=
                        cim[[u, current_state[idx_node], next_node_state]];
                }'''))
q("r3-am-nodeouter", (CB, '''            for idx_node in 0..self.nodes.len() {
                let p = match self.get_node(idx_node) {
                    Params::DiscreteStatesContinousTime(p) => p,
                };
''', '''            for (idx_node, node) in self.nodes.iter().enumerate() {
                let Params::DiscreteStatesContinousTime(p) = node;
'''))
q("r3-idx-map", (CB, '''        let mut state = state;
        let mut array_state = Array1::zeros(variables_domain.shape()[0]);
        for (idx, var) in variables_domain.indexed_iter() {
            array_state[idx] = state % var;
            state = state / var;
        }

        return array_state;''', '''        let mut rest = state;
        variables_domain
            .iter()
            .map(|var| {
                let digit = rest % var;
                rest /= var;
                digit
            })
            .collect()'''))
q("r3-idx-sub", (CB, '''            array_state[idx] = state % var;
            state = state / var;
        }''', '''            let quotient = state / var;
            array_state[idx] = state - quotient * var;
            state = quotient;
        }'''))
q("r3-reset-cond", (CB, '''        if let Some(network) = &self.adj_matrix {
            for (idx, node) in self.nodes.iter_mut().enumerate() {
                if network.column(idx).iter().any(|x| x > &0) {
                    node.reset_params();
                }
            }
        }''', '''        let network = match self.adj_matrix.as_ref() {
            Some(network) => network,
            None => return,
        };
        for idx in 0..self.nodes.len() {
            let parents = network.column(idx).iter().filter(|x| **x != 0).count();
            if parents != 0 {
                self.nodes[idx].reset_params();
            }
        }'''))
q("r3-parents-loop", (CB, '''    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        self.adj_matrix
            .as_ref()
            .unwrap()
            .column(node)
            .iter()
            .enumerate()
            .filter_map(|(idx, x)| if x > &0 { Some(idx) } else { None })
            .collect()
    }''', '''    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        let network = self.adj_matrix.as_ref().unwrap();
        let mut parents = BTreeSet::new();
        for parent in (0..network.nrows()).rev() {
            if network[(parent, node)] != 0 {
                parents.insert(parent);
            }
        }
        parents
    }'''))
q("r3-pin-helper", (CB, '''        self.adj_matrix
            .as_ref()
            .unwrap()
            .column(node)
            .iter()
            .enumerate()
            .fold((0, 1), |mut acc, x| {
                if x.1 > &0 {
                    acc.0 += self.nodes[x.0].state_to_index(&current_state[x.0]) * acc.1;
                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();
                }
                acc
            })
            .0
    }''', '''        let parents = self.get_parent_set(node);
        self.get_param_index_from_custom_parent_set(current_state, &parents)
    }'''))
q("r3-edge-let", (CB, '''        if let None = self.adj_matrix {
            self.initialize_adj_matrix();
        }

        if let Some(network) = &mut self.adj_matrix {
            network[[parent, child]] = 1;
            self.nodes[child].reset_params();
        }''', '''        if self.adj_matrix.is_none() {
            self.initialize_adj_matrix();
        }
        let network = self.adj_matrix.as_mut().unwrap();
        network[(parent, child)] = 1;
        self.get_node_mut(child).reset_params();'''))
q("r3-s-take", (SA, '''        // Set the variable to be returned (time and state)
        let ret_time = self.current_time.clone();
        let ret_state = self.current_state.clone();
''', '''        let sample = Sample { t: self.current_time, state: self.current_state.clone() };
'''), (SA, '''        Some(Sample {
            t: ret_time,
            state: ret_state,
        })
''', '''        Some(sample)
'''))
q("r3-s-minloop", (SA, '''        let next_node_transition = self
            .next_transitions
            .iter()
            .enumerate()
            .min_by(|x, y| x.1.unwrap().partial_cmp(&y.1.unwrap()).unwrap())
            .unwrap()
            .0;

        self.current_time = self.next_transitions[next_node_transition].unwrap().clone();''', '''        let (next_node_transition, time) = self
            .next_transitions
            .iter()
            .map(|x| x.unwrap())
            .enumerate()
            .min_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
            .unwrap();

        self.current_time = time;'''))
q("r3-s-unpack", (SA, '''            if let None = val {
                *val = Some(
                    self.net
                        .get_node(idx)
                        .get_random_residence_time(
                            self.net
                                .get_node(idx)
                                .state_to_index(&self.current_state[idx]),
                            self.net.get_param_index_network(idx, &self.current_state),
                            &mut self.rng,
                        )
                        .unwrap()
                        + self.current_time,
                );
            }''', '''            if val.is_some() {
                continue;
            }
            let node = self.net.get_node(idx);
            let state = node.state_to_index(&self.current_state[idx]);
            let u = self.net.get_param_index_network(idx, &self.current_state);
            let wait = node.get_random_residence_time(state, u, &mut self.rng).unwrap();
            val.replace(self.current_time + wait);'''))
q("r3-s-initfield", (SA, '''        let mut fs = ForwardSampler {
            net,
            rng,
            current_time: 0.0,
            current_state: vec![],
            next_transitions: vec![],
            initial_state,
        };
        fs.reset();
        return fs;''', '''        let mut fs = ForwardSampler {
            current_time: f64::default(),
            current_state: Vec::with_capacity(net.get_number_of_nodes()),
            next_transitions: vec![None; net.get_number_of_nodes()],
            initial_state,
            net,
            rng,
        };
        fs.reset();
        fs'''))
q("r3-s-reset", (SA, '''        match &self.initial_state {
            None => {
                self.current_state = self
                    .net
                    .get_node_indices()
                    .map(|x| self.net.get_node(x).get_random_state_uniform(&mut self.rng))
                    .collect()
            }
            Some(is) => self.current_state = is.clone(),
        };
        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();''', '''        self.current_state = if let Some(is) = self.initial_state.as_ref() {
            is.to_vec()
        } else {
            let mut state = Vec::new();
            for x in self.net.get_node_indices() {
                state.push(self.net.get_node(x).get_random_state_uniform(&mut self.rng));
            }
            state
        };
        self.next_transitions.clear();
        self.next_transitions.resize(self.net.get_number_of_nodes(), None);'''))
q("r3-p-rate", (PA, '''                let lambda = cim[[u, state, state]] * -1.0;
                let x: f64 = rng.gen_range(0.0..=1.0);
                let ret = -x.ln() / lambda;''', '''                let x: f64 = rng.gen_range(0.0..=1.0);
                let ret = x.ln() / cim[[u, state, state]];'''))
q("r3-p-row", (PA, '''                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
                    if rate > &0.0 {
                        next_state = idx;
                        cumulative_probability += rate / lambda;
                        if cumulative_probability >= urand {
                            break;
                        }
                    }
                }''', '''                for idx in 0..cim.shape()[2] {
                    let rate = cim[[u, state, idx]];
                    if !(rate > 0.0) {
                        continue;
                    }
                    next_state = idx;
                    cumulative_probability = cumulative_probability + rate / lambda;
                    if urand <= cumulative_probability {
                        break;
                    }
                }'''))
q("r3-p-okor", (PA, '''    fn validate_params(&self) -> Result<(), ParamsError> {
        let domain_size = self.domain.len();

        // Check if the cim is initialized
        if let None = self.cim {
            warn!("Cim not initialized for node {}", self.get_label());
            return Err(ParamsError::ParametersNotInitialized(String::from(
                "CIM not initialized",
            )));
        }
        let cim = self.cim.as_ref().unwrap();''', '''    fn validate_params(&self) -> Result<(), ParamsError> {
        let domain_size = self.domain.len();

        // Check if the cim is initialized
        let cim = self.cim.as_ref().ok_or_else(|| {
            warn!("Cim not initialized for node {}", self.get_label());
            ParamsError::ParametersNotInitialized(String::from("CIM not initialized"))
        })?;'''))
q("r3-p-all", (PA, '''        if cim
            .sum_axis(Axis(2))
            .iter()
            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))
        {''', '''        let tolerance = f64::EPSILON.sqrt();
        if !cim
            .sum_axis(Axis(2))
            .iter()
            .all(|x| x.abs() <= tolerance)
        {'''))
q("r3-p-setcim", (PA, '''        self.cim = Some(cim);
        match self.validate_params() {
            Ok(()) => Ok(()),
            Err(e) => {
                warn!("Validation cim faild for node {}", self.label);
                self.cim = None;
                Err(e)
            }
        }''', '''        self.set_cim_unchecked(cim);
        let outcome = self.validate_params();
        if outcome.is_err() {
            warn!("Validation cim faild for node {}", self.label);
            self.cim.take();
        }
        outcome'''))
q("r3-t-loop", (TO, '''        let mut sample = sampler.next().unwrap();
        //Generate new samples until ending time is reached.
        while sample.t < t_end {
            time.push(sample.t);
            events.push(sample.state);
            sample = sampler.next().unwrap();
        }''', '''        loop {
            let sample = sampler.next().unwrap();
            if !(sample.t < t_end) {
                break;
            }
            time.push(sample.t);
            events.push(sample.state);
        }'''))
q("r3-t-shape", (TO, '''            Array2::from_shape_vec(
                (events.len(), events.last().unwrap().len()),
                events
                    .iter()
                    .flatten()
                    .map(|x| match x {
                        params::StateType::Discrete(x) => x.clone(),
                    })
                    .collect(),
            )
            .unwrap(),''', '''            Array2::from_shape_fn((events.len(), events[0].len()), |(row, var)| {
                let params::StateType::Discrete(x) = &events[row][var];
                *x
            }),'''))
q("r3-t-graph", (TO, '''        let last_node_idx = net.get_node_indices().len();
        for parent in 0..last_node_idx {
            for child in 0..last_node_idx {
                if parent != child {
                    if self.rng.gen_bool(self.density) {
                        net.add_edge(parent, child);
                    }
                }
            }
        }''', '''        let nodes = net.get_node_indices();
        for parent in nodes.clone() {
            for child in nodes.clone().filter(|child| *child != parent) {
                let present = self.rng.gen_bool(self.density);
                if present {
                    net.add_edge(parent, child);
                }
            }
        }'''))
q("r3-t-gp", (TO, '''                        x.mul_assign(&diag.clone().insert_axis(Axis(1)));
                        // Recomputing the diagonal in order to reduce the issues caused by the
                        // loss of precision when validating the parameters.
                        let diag_sum = -x.sum_axis(Axis(1));
                        x.diag_mut().assign(&diag_sum)''', '''                        for row in 0..node_domain_cardinality {
                            let rate = diag[row];
                            for col in 0..node_domain_cardinality {
                                x[[row, col]] *= rate;
                            }
                        }
                        let diag_sum = x.sum_axis(Axis(1));
                        for row in 0..node_domain_cardinality {
                            x[[row, row]] = -diag_sum[row];
                        }'''))
q("r3-t-density", (TO, '''        if density < 0.0 || density > 1.0 {''', '''        let too_low = density < 0.0;
        if too_low || 1.0 < density {'''))
q("r3-t-ds", (TO, '''        if trajectories
            .iter()
            .any(|x| trajectories[0].get_events().shape()[1] != x.get_events().shape()[1])
        {
            panic!("All the trajectories mus represents the same number of variables");
        }''', '''        if let Some(first) = trajectories.first() {
            let width = first.get_events().ncols();
            for trajectory in trajectories.iter().skip(1) {
                if trajectory.get_events().ncols() != width {
                    panic!("All the trajectories mus represents the same number of variables");
                }
            }
        }'''))
q("r3-mle-direct", (PL, '''        CIM.axis_iter_mut(Axis(2))
            .zip(M.mapv(|x| x as f64).axis_iter(Axis(2)))
            .for_each(|(mut C, m)| C.assign(&(&m / &T)));

        //Set the diagonal of the inner matrices to the the row sum multiplied by -1
        let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(2)).mapv(|x| x * -1.0);
        CIM.outer_iter_mut()
            .zip(tmp_diag_sum.outer_iter())
            .for_each(|(mut C, diag)| {
                C.diag_mut().assign(&diag);
            });
''', '''        for ((i, x, y), value) in CIM.indexed_iter_mut() {
            *value = M[[i, x, y]] as f64 / T[[i, x]];
        }

        //Set the diagonal of the inner matrices to the the row sum multiplied by -1
        let row_sums: Array2<f64> = CIM.sum_axis(Axis(2));
        for ((i, x), sum) in row_sums.indexed_iter() {
            CIM[[i, x, x]] = -sum;
        }
'''))
q("r3-bay-alpha", (PL, '''        let alpha: f64 = self.alpha as f64 / M.shape()[0] as f64;
        let tau: f64 = self.tau as f64 / M.shape()[0] as f64;
''', '''        let (configurations, _, _) = M.dim();
        let configurations = configurations as f64;
        let (alpha, tau) = (self.alpha as f64 / configurations, self.tau / configurations);
'''))
