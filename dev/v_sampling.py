SA = "sampling.rs"; PL = "parameter_learning.rs"; CM = "process/ctmp.rs"; PA="params.rs"
S1 = '''        for (idx, val) in self.next_transitions.iter_mut().enumerate() {
            if let None = val {
                *val = Some(
                    self.net
                        .get_node(idx)
                        .get_random_residence_time(
                            self.net
                                .get_node(idx)
                                .state_to_index(&self.current_state[idx]),
                            self.net.get_param_index_network(idx, &self.current_state),
                            &mut self.rng,
                        )
                        .unwrap()
                        + self.current_time,
                );
            }
        }'''
S2 = '''        let next_node_transition = self
            .next_transitions
            .iter()
            .enumerate()
            .min_by(|x, y| x.1.unwrap().partial_cmp(&y.1.unwrap()).unwrap())
            .unwrap()
            .0;'''
S3 = '''        self.current_time = self.next_transitions[next_node_transition].unwrap().clone();
'''
S4 = '''        self.current_state[next_node_transition] = self
            .net
            .get_node(next_node_transition)
            .get_random_state(
                self.net
                    .get_node(next_node_transition)
                    .state_to_index(&self.current_state[next_node_transition]),
                self.net
                    .get_param_index_network(next_node_transition, &self.current_state),
                &mut self.rng,
            )
            .unwrap();
'''
S5 = '''        for child in self.net.get_children_set(next_node_transition) {
            self.next_transitions[child] = None;
        }'''
R = '''        self.current_time = 0.0;
        match &self.initial_state {
            None => {
                self.current_state = self
                    .net
                    .get_node_indices()
                    .map(|x| self.net.get_node(x).get_random_state_uniform(&mut self.rng))
                    .collect()
            }
            Some(is) => self.current_state = is.clone(),
        };
        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();'''
NEW = '''        let mut fs = ForwardSampler {
            net,
            rng,
            current_time: 0.0,
            current_state: vec![],
            next_transitions: vec![],
            initial_state,
        };
        fs.reset();
        return fs;'''
SS = '''    for trj in dataset.get_trajectories().iter() {
        for idx in 0..(trj.get_time().len() - 1) {
            let t1 = trj.get_time()[idx];
            let t2 = trj.get_time()[idx + 1];
            let ev1 = trj.get_events().row(idx);
            let ev2 = trj.get_events().row(idx + 1);
            let idx1 = vector_to_idx.dot(&ev1);

            T[[idx1, ev1[node]]] += t2 - t1;
            if ev1[node] != ev2[node] {
                M[[idx1, ev1[node], ev2[node]]] += 1;
            }
        }
    }'''
RADIX = '''    parent_set
        .iter()
        .zip(parentset_domain.iter())
        .fold(1, |acc, (idx, x)| {
            vector_to_idx[*idx] = acc;
            acc * x
        });'''
DOM = '''    let parentset_domain: Vec<usize> = parent_set
        .iter()
        .map(|x| net.get_node(x.clone()).get_reserved_space_as_parent())
        .collect();'''
CIM_M = '''            .for_each(|(mut C, m)| C.assign(&(&m / &T)));'''
CIM_B = '''            .for_each(|(mut C, m)| C.assign(&(&m.mapv(|y| y + alpha) / &T.mapv(|y| y + tau))));

        CIM.outer_iter_mut().for_each(|mut C| {
            C.diag_mut().fill(0.0);
        });
'''
FULL_B = '''        let mut CIM: Array3<f64> = Array::zeros((M.shape()[0], M.shape()[1], M.shape()[2]));
        CIM.axis_iter_mut(Axis(2))
            .zip(M.mapv(|x| x as f64).axis_iter(Axis(2)))
            .for_each(|(mut C, m)| C.assign(&(&m.mapv(|y| y + alpha) / &T.mapv(|y| y + tau))));

        CIM.outer_iter_mut().for_each(|mut C| {
            C.diag_mut().fill(0.0);
        });

        //Set the diagonal of the inner matrices to the the row sum multiplied by -1
        let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(2)).mapv(|x| x * -1.0);
        CIM.outer_iter_mut()
            .zip(tmp_diag_sum.outer_iter())
            .for_each(|(mut C, diag)| {
                C.diag_mut().assign(&diag);
            });
'''
FULL_M = '''        let mut CIM: Array3<f64> = Array::zeros((M.shape()[0], M.shape()[1], M.shape()[2]));
        CIM.axis_iter_mut(Axis(2))
            .zip(M.mapv(|x| x as f64).axis_iter(Axis(2)))
            .for_each(|(mut C, m)| C.assign(&(&m / &T)));

        //Set the diagonal of the inner matrices to the the row sum multiplied by -1
        let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(2)).mapv(|x| x * -1.0);
        CIM.outer_iter_mut()
            .zip(tmp_diag_sum.outer_iter())
            .for_each(|(mut C, diag)| {
                C.diag_mut().assign(&diag);
            });
'''
PSET = '''        let parent_set = match parent_set {
            Some(p) => p,
            None => net.get_parent_set(node),
        };
'''
FIN = '''        let mut n: Params = net.get_node(node).clone();

        match n {
            Params::DiscreteStatesContinousTime(ref mut dsct) => {
                dsct.set_cim_unchecked(CIM);
                dsct.set_transitions(M);
                dsct.set_residence_time(T);
            }
        };
        return n;'''
V = [
 ("s1-index", "quiet", "", [(SA, S1, '''        for idx in 0..self.next_transitions.len() {
            if self.next_transitions[idx].is_none() {
                let node = self.net.get_node(idx);
                let state = node.state_to_index(&self.current_state[idx]);
                let u = self.net.get_param_index_network(idx, &self.current_state);
                let dt = node.get_random_residence_time(state, u, &mut self.rng).unwrap();
                self.next_transitions[idx] = Some(self.current_time + dt);
            }
        }''')]),
 ("s1-filter", "quiet", "", [(SA, S1, '''        let now = self.current_time;
        for (idx, val) in self.next_transitions.iter_mut().enumerate().filter(|(_, v)| v.is_none()) {
            let node = self.net.get_node(idx);
            let u = self.net.get_param_index_network(idx, &self.current_state);
            let t = node
                .get_random_residence_time(node.state_to_index(&self.current_state[idx]), u, &mut self.rng)
                .expect("initialized");
            *val = Some(now + t);
        }''')]),
 ("s1-getorinsert", "quiet", "", [(SA, S1, '''        for idx in self.net.get_node_indices() {
            match self.next_transitions[idx] {
                Some(_) => continue,
                None => {
                    let node = self.net.get_node(idx);
                    let state = node.state_to_index(&self.current_state[idx]);
                    let u = self.net.get_param_index_network(idx, &self.current_state);
                    let wait = node.get_random_residence_time(state, u, &mut self.rng).unwrap();
                    self.next_transitions[idx] = Some(wait + self.current_time);
                }
            }
        }''')]),
 ("s1-collect", "quiet", "", [(SA, S1, '''        let mut pending = Vec::with_capacity(self.next_transitions.len());
        for (idx, val) in self.next_transitions.iter().enumerate() {
            pending.push(match val {
                Some(t) => Some(*t),
                None => {
                    let node = self.net.get_node(idx);
                    let state = node.state_to_index(&self.current_state[idx]);
                    let u = self.net.get_param_index_network(idx, &self.current_state);
                    Some(self.current_time + node.get_random_residence_time(state, u, &mut self.rng).unwrap())
                }
            });
        }
        self.next_transitions = pending;''')]),
 ("s1-helper", "quiet", "", [(SA, S1, "        self.draw_pending();"), (SA, "impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {", '''impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {
    fn state_of(&self, idx: usize) -> usize {
        self.net.get_node(idx).state_to_index(&self.current_state[idx])
    }
    fn draw_pending(&mut self) {
        for idx in 0..self.next_transitions.len() {
            if self.next_transitions[idx].is_some() {
                continue;
            }
            let state = self.state_of(idx);
            let u = self.net.get_param_index_network(idx, &self.current_state);
            let dt = self.net.get_node(idx).get_random_residence_time(state, u, &mut self.rng).unwrap();
            self.next_transitions[idx] = Some(dt + self.current_time);
        }
    }
}

impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {''')]),
 ("s1-nonow", "alarm", "C12", [(SA, "                        + self.current_time,\n", "")]),
 ("s1-u0", "alarm", "C12", [(SA, "self.net.get_param_index_network(idx, &self.current_state),\n                            &mut", "0,\n                            &mut")]),
 ("s1-all", "alarm", "C12", [(SA, "            if let None = val {", "            if val.is_none() || idx == 0 {")]),
 ("s2-loop", "quiet", "", [(SA, S2, '''        let mut next_node_transition = 0;
        for idx in 1..self.next_transitions.len() {
            if self.next_transitions[idx].unwrap() < self.next_transitions[next_node_transition].unwrap() {
                next_node_transition = idx;
            }
        }''')]),
 ("s2-totalcmp", "quiet", "", [(SA, S2, '''        let (next_node_transition, _) = self
            .next_transitions
            .iter()
            .enumerate()
            .min_by(|(_, x), (_, y)| x.unwrap().total_cmp(&y.unwrap()))
            .unwrap();''')]),
 ("s2-range", "quiet", "", [(SA, S2, '''        let next_node_transition = self
            .net
            .get_node_indices()
            .min_by(|a, b| self.next_transitions[*a].partial_cmp(&self.next_transitions[*b]).unwrap())
            .unwrap();''')]),
 ("s2-fold", "quiet", "", [(SA, S2, '''        let next_node_transition = self
            .next_transitions
            .iter()
            .map(|t| t.unwrap())
            .enumerate()
            .fold((0, f64::INFINITY), |best, (i, t)| if t < best.1 { (i, t) } else { best })
            .0;''')]),
 ("s2-max", "alarm", "C12", [(SA, ".min_by(", ".max_by(")]),
 ("s2-skip", "alarm", "C12", [(SA, "            .enumerate()\n            .min_by(", "            .enumerate()\n            .skip(1)\n            .min_by(")]),
 ("s34-swap-bad", "alarm", "C12", [(SA, S3, ""), (SA, "        self.next_transitions[next_node_transition] = None;\n", "        self.next_transitions[next_node_transition] = None;\n        self.current_time = ret_time;\n")]),
 ("s4-let", "quiet", "", [(SA, S4, '''        let node = self.net.get_node(next_node_transition);
        let state = node.state_to_index(&self.current_state[next_node_transition]);
        let u = self.net.get_param_index_network(next_node_transition, &self.current_state);
        let new_state = node.get_random_state(state, u, &mut self.rng).unwrap();
        self.current_state[next_node_transition] = new_state;
'''), (SA, S3, '''        if let Some(t) = self.next_transitions[next_node_transition] {
            self.current_time = t;
        } else {
            unreachable!();
        }
''')]),
 ("s34-order", "quiet", "", [(SA, S3, ""), (SA, S4, S4 + S3)]),
 ("s345-take", "quiet", "", [(SA, S3, "        self.current_time = self.next_transitions[next_node_transition].take().unwrap();\n"), (SA, "        self.next_transitions[next_node_transition] = None;\n", "")]),
 ("s5-foreach", "quiet", "", [(SA, S5, '''        let children = self.net.get_children_set(next_node_transition);
        children.iter().for_each(|c| self.next_transitions[*c] = None);''')]),
 ("s5-contains", "quiet", "", [(SA, S5, '''        let children = self.net.get_children_set(next_node_transition);
        for (idx, t) in self.next_transitions.iter_mut().enumerate() {
            if children.contains(&idx) {
                *t = None;
            }
        }''')]),
 ("s5-parents", "alarm", "C12", [(SA, "self.net.get_children_set(next_node_transition)", "self.net.get_parent_set(next_node_transition)")]),
 ("s5-all", "alarm", "C12", [(SA, S5, "        for child in self.net.get_node_indices() { self.next_transitions[child] = None; }")]),
 ("s5-cond", "alarm", "C12", [(SA, S5, '''        for child in self.net.get_children_set(next_node_transition) {
            if child > next_node_transition { self.next_transitions[child] = None; }
        }''')]),
 ("ret-after", "alarm", "C12", [(SA, "            state: ret_state,", "            state: self.current_state.clone(),")]),
 ("ret-replace", "quiet", "", [(SA, "        let ret_time = self.current_time.clone();\n        let ret_state = self.current_state.clone();", "        let sample = Sample { t: self.current_time, state: self.current_state.to_vec() };"), (SA, '''        Some(Sample {
            t: ret_time,
            state: ret_state,
        })''', "        Some(sample)")]),
 ("reset-iflet", "quiet", "", [(SA, R, '''        self.next_transitions = vec![None; self.net.get_number_of_nodes()];
        if let Some(is) = self.initial_state.as_ref() {
            self.current_state = is.clone();
        } else {
            let mut state = Vec::new();
            for x in self.net.get_node_indices() {
                state.push(self.net.get_node(x).get_random_state_uniform(&mut self.rng));
            }
            self.current_state = state;
        }
        self.current_time = 0.0;''')]),
 ("reset-clonematch", "quiet", "", [(SA, R, '''        let start = match self.initial_state.clone() {
            Some(s) => s,
            None => self.net.get_node_indices().map(|x| self.net.get_node(x).get_random_state_uniform(&mut self.rng)).collect(),
        };
        self.current_time = 0.0;
        self.current_state = start;
        self.next_transitions = std::iter::repeat(None).take(self.net.get_node_indices().len()).collect();''')]),
 ("reset-clear", "quiet", "", [(SA, "        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();", '''        self.next_transitions.clear();
        self.next_transitions.resize(self.net.get_number_of_nodes(), None);''')]),
 ("reset-fill", "alarm", "C13", [(SA, "        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();", '''        self.next_transitions.resize(self.net.get_number_of_nodes(), None);''')]),
 ("reset-notime", "alarm", "C13", [(SA, "        self.current_time = 0.0;\n        match", "        match")]),
 ("reset-firstonly", "alarm", "C13", [(SA, "        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();", '''        if self.next_transitions.is_empty() { self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect(); }''')]),
 ("reset-taketo", "alarm", "C13", [(SA, "match &self.initial_state {\n            None => {\n                self", "match self.initial_state.take() {\n            None => {\n                self"), (SA, "Some(is) => self.current_state = is.clone(),", "Some(is) => self.current_state = is,")]),
 ("reset-uniform0", "alarm", "C13", [(SA, ".map(|x| self.net.get_node(x).get_random", ".map(|x| self.net.get_node(x * 0).get_random")]),
 ("new-inline", "quiet", "", [(SA, NEW, '''        let mut sampler = Self {
            initial_state,
            next_transitions: Vec::new(),
            current_state: Vec::new(),
            current_time: f64::default(),
            rng,
            net,
        };
        Sampler::reset(&mut sampler);
        sampler''')]),
 ("new-mapor", "quiet", "", [(SA, '''        let rng: ChaCha8Rng = match seed {
            //If a seed is present use it to initialize the random generator.
            Some(seed) => SeedableRng::seed_from_u64(seed),
            //Otherwise create a new random generator using the method `from_entropy`
            None => SeedableRng::from_entropy(),
        };''', "        let rng = seed.map_or_else(ChaCha8Rng::from_entropy, ChaCha8Rng::seed_from_u64);")]),
 ("new-iflet", "quiet", "", [(SA, '''        let rng: ChaCha8Rng = match seed {
            //If a seed is present use it to initialize the random generator.
            Some(seed) => SeedableRng::seed_from_u64(seed),
            //Otherwise create a new random generator using the method `from_entropy`
            None => SeedableRng::from_entropy(),
        };''', "        let rng = if let Some(s) = seed { ChaCha8Rng::seed_from_u64(s) } else { ChaCha8Rng::from_entropy() };")]),
 ("new-seed+1", "alarm", "C13", [(SA, "SeedableRng::seed_from_u64(seed)", "SeedableRng::seed_from_u64(seed / 2)")]),
 ("new-unwrapor", "alarm", "C13", [(SA, "None => SeedableRng::from_entropy(),", "None => SeedableRng::seed_from_u64(0),")]),
 ("ss-windows", "quiet", "", [(PL, SS, '''    for trj in dataset.get_trajectories() {
        let time = trj.get_time();
        let events = trj.get_events();
        for idx in 1..time.len() {
            let from = events[[idx - 1, node]];
            let to = events[[idx, node]];
            let conf = vector_to_idx.dot(&events.row(idx - 1));
            T[[conf, from]] += time[idx] - time[idx - 1];
            if from != to {
                M[[conf, from, to]] += 1;
            }
        }
    }''')]),
 ("ss-foreach", "quiet", "", [(PL, SS, '''    dataset.get_trajectories().iter().for_each(|trj| {
        let time = trj.get_time();
        let events = trj.get_events();
        (0..time.len() - 1).for_each(|i| {
            let before = events.row(i);
            let after = events.row(i + 1);
            let u = before.dot(&vector_to_idx);
            let x = before[node];
            let y = after[node];
            if x != y {
                M[[u, x, y]] += 1;
            }
            T[[u, x]] += time[i + 1] - time[i];
        });
    });''')]),
 ("ss-zipiter", "quiet", "", [(PL, SS, '''    for trj in dataset.get_trajectories().iter() {
        let n = trj.get_time().len();
        for (idx, ev1) in trj.get_events().outer_iter().take(n - 1).enumerate() {
            let ev2 = trj.get_events().row(idx + 1);
            let idx1 = vector_to_idx.dot(&ev1);
            T[[idx1, ev1[node]]] += trj.get_time()[idx + 1] - trj.get_time()[idx];
            if ev1[node] == ev2[node] {
                continue;
            }
            M[[idx1, ev1[node], ev2[node]]] += 1;
        }
    }''')]),
 ("ss-radixloop", "quiet", "", [(PL, RADIX, '''    let mut radix = 1;
    for (idx, card) in parent_set.iter().zip(&parentset_domain) {
        vector_to_idx[*idx] = radix;
        radix *= card;
    }''')]),
 ("ss-radixloop2", "quiet", "", [(PL, DOM, ""), (PL, RADIX, '''    let mut radix = 1;
    for &p in parent_set {
        vector_to_idx[p] = radix;
        radix *= net.get_node(p).get_reserved_space_as_parent();
    }
    let n_conf = radix;'''), (PL, "Array::zeros((parentset_domain.iter().product(), node_domain, node_domain));", "Array::zeros((n_conf, node_domain, node_domain));"), (PL, "Array::zeros((parentset_domain.iter().product(), node_domain));", "Array::zeros((n_conf, node_domain));")]),
 ("ss-getmut", "quiet", "", [(PL, "M[[idx1, ev1[node], ev2[node]]] += 1;", "let cell = &mut M[[idx1, ev1[node], ev2[node]]];\n                *cell = *cell + 1;")]),
 ("ss-lastlost", "alarm", "C16", [(PL, "for idx in 0..(trj.get_time().len() - 1) {", "for idx in 0..(trj.get_time().len() - 2) {")]),
 ("ss-idx2", "alarm", "C16", [(PL, "vector_to_idx.dot(&ev1)", "vector_to_idx.dot(&ev2)")]),
 ("ss-onlychange", "alarm", "C16", [(PL, '''            T[[idx1, ev1[node]]] += t2 - t1;
            if ev1[node] != ev2[node] {''', '''            if ev1[node] != ev2[node] {
                T[[idx1, ev1[node]]] += t2 - t1;''')]),
 ("ss-swap", "alarm", "C16", [(PL, "M[[idx1, ev1[node], ev2[node]]] += 1", "M[[idx1, ev2[node], ev1[node]]] += 1")]),
 ("ss-diag", "alarm", "C16", [(PL, "if ev1[node] != ev2[node] {", "if ev1 != ev2 {")]),
 ("ss-radix-rev", "alarm", "C16", [(PL, "        .zip(parentset_domain.iter())\n        .fold(1, |acc, (idx, x)| {\n            vector_to_idx[*idx] = acc;\n            acc * x", "        .rev()\n        .zip(parentset_domain.iter().rev())\n        .fold(1, |acc, (idx, x)| {\n            vector_to_idx[*idx] = acc;\n            acc * x")]),
 ("ss-take", "alarm", "C16", [(PL, "for trj in dataset.get_trajectories().iter() {", "for trj in dataset.get_trajectories().iter().skip(1) {")]),
 ("ss-assign", "alarm", "C16", [(PL, "+= t2 - t1", "= t2 - t1")]),
 ("mle-fromshape", "quiet", "", [(PL, FULL_M, '''        let mut CIM: Array3<f64> = Array3::from_shape_fn(M.dim(), |(u, x, y)| M[[u, x, y]] as f64 / T[[u, x]]);
        let tmp_diag_sum: Array2<f64> = -CIM.sum_axis(Axis(2));
        for (mut block, diag) in CIM.outer_iter_mut().zip(tmp_diag_sum.outer_iter()) {
            block.diag_mut().assign(&diag);
        }
''')]),
 ("mle-loops", "quiet", "", [(PL, FULL_M, '''        let (n_u, n_x, n_y) = M.dim();
        let mut CIM: Array3<f64> = Array::zeros((n_u, n_x, n_y));
        for u in 0..n_u {
            for x in 0..n_x {
                let mut total = 0.0;
                for y in 0..n_y {
                    let q = M[[u, x, y]] as f64 / T[[u, x]];
                    CIM[[u, x, y]] = q;
                    total += q;
                }
                CIM[[u, x, x]] = -total;
            }
        }
''')]),
 ("mle-skipdiag", "quiet", "", [(PL, FULL_M, '''        let (n_u, n_x, n_y) = M.dim();
        let mut CIM: Array3<f64> = Array::zeros((n_u, n_x, n_y));
        for u in 0..n_u {
            for x in 0..n_x {
                for y in 0..n_y {
                    if x != y {
                        CIM[[u, x, y]] = M[[u, x, y]] as f64 / T[[u, x]];
                    }
                }
            }
        }
        let exit_rate = CIM.sum_axis(Axis(2));
        for u in 0..n_u {
            for x in 0..n_x {
                CIM[[u, x, x]] = -exit_rate[[u, x]];
            }
        }
''')]),
 ("mle-zip", "quiet", "", [(PL, FULL_M, '''        let mut CIM: Array3<f64> = M.mapv(|x| x as f64) / &T.view().insert_axis(Axis(2));
        let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(2)).mapv(|x| -x);
        CIM.outer_iter_mut()
            .zip(tmp_diag_sum.outer_iter())
            .for_each(|(mut C, diag)| {
                C.diag_mut().assign(&diag);
            });
''')]),
 ("bay-fromshape", "quiet", "", [(PL, FULL_B, '''        let (n_u, n_x, n_y) = M.dim();
        let mut CIM: Array3<f64> = Array::zeros((n_u, n_x, n_y));
        for u in 0..n_u {
            for x in 0..n_x {
                let mut total = 0.0;
                for y in 0..n_y {
                    if x == y { continue; }
                    let q = (M[[u, x, y]] as f64 + alpha) / (T[[u, x]] + tau);
                    CIM[[u, x, y]] = q;
                    total += q;
                }
                CIM[[u, x, x]] = -total;
            }
        }
''')]),
 ("bay-diag", "quiet", "", [(PL, FULL_B, '''        let rates = T.mapv(|t| t + tau);
        let mut CIM: Array3<f64> = M.mapv(|m| m as f64 + alpha);
        for mut slice in CIM.axis_iter_mut(Axis(2)) {
            slice /= &rates;
        }
        for mut block in CIM.outer_iter_mut() {
            block.diag_mut().fill(0.0);
            let totals = block.sum_axis(Axis(1));
            block.diag_mut().assign(&(-totals));
        }
''')]),
 ("fit-unwrapor", "quiet", "", [(PL, PSET, "        let parent_set = parent_set.unwrap_or_else(|| net.get_parent_set(node));\n")]),
 ("fit-iflet", "quiet", "", [(PL, PSET, "        let parent_set = if let Some(p) = parent_set { p } else { net.get_parent_set(node) };\n")]),
 ("fit-helper", "quiet", "", [(PL, FIN, "        learnt_node(net.get_node(node), CIM, M, T)"), (PL, "/// Bayesian Approach for learning the parameters given a dataset.", '''fn learnt_node(template: &Params, cim: Array3<f64>, m: Array3<usize>, t: Array2<f64>) -> Params {
    let mut n = template.clone();
    let Params::DiscreteStatesContinousTime(p) = &mut n;
    p.set_transitions(m);
    p.set_residence_time(t);
    p.set_cim_unchecked(cim);
    n
}

/// Bayesian Approach for learning the parameters given a dataset.''')]),
 ("fit-children", "alarm", "C18", [(PL, "None => net.get_parent_set(node),", "None => net.get_children_set(node),")]),
 ("fit-label", "alarm", "C18", [(PL, "let mut n: Params = net.get_node(node).clone();", "let mut n: Params = net.get_node(0).clone();")]),
 ("fit-statnode", "alarm", "C18", [(PL, "                dsct.set_transitions(M);\n                dsct.set_residence_time(T);", "                dsct.set_transitions(M);\n                dsct.set_residence_time(T * 2.0);")]),
 ("mle-ratio", "alarm", "C17", [(PL, "C.assign(&(&m / &T))", "C.assign(&(&m / &(&T + 1e-6)))")]),
 ("bay-nodiag", "alarm", "C17", [(PL, '''        CIM.outer_iter_mut().for_each(|mut C| {
            C.diag_mut().fill(0.0);
        });
''', "")]),
 ("bay-alpha", "alarm", "C17", [(PL, "self.alpha as f64 / M.shape()[0] as f64", "self.alpha as f64 / M.shape()[1] as f64")]),
 ("bay-tau", "alarm", "C17", [(PL, "self.tau as f64 / M.shape()[0] as f64", "self.tau as f64")]),
 ("bay-sumaxis", "alarm", "C17", [(PL, "let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(2)).mapv(|x| x * -1.0);", "let tmp_diag_sum: Array2<f64> = CIM.sum_axis(Axis(1)).mapv(|x| x * -1.0);")]),
]
