"""a fifth batch of rewrites that keep the behaviour: independence tests, cache, and combinations"""
V = []
CB, SA, PA, TO, PL, CT, RE, RF, SS, SB, CA, HT = "process/ctbn.rs", "sampling.rs", "params.rs", "tools.rs", "parameter_learning.rs", "process/ctmp.rs", "reward/reward_evaluation.rs", "reward/reward_function.rs", "structure_learning/score_function.rs", "structure_learning/score_based_algorithm.rs", "structure_learning/constraint_based_algorithm.rs", "structure_learning/hypothesis_test.rs"

import re


def real(f, o):
    """the text of the file that the pattern stands for: comment lines between its lines are skipped"""
    src = open("/repo/src/" + f).read()
    if o in src:
        return o
    m = re.search(r"\n(?:[ ]*//[^\n]*\n)*".join(re.escape(l) for l in o.split("\n")), src)
    return m.group(0) if m else o


def q(n, *eds):
    V.append((n, "quiet", "", [(f, real(f, o), w) for f, o, w in eds]))


SMALL = '''            let idx_M_small: usize = idx_M_big % partial_cardinality_product
                + (idx_M_big
                    / (partial_cardinality_product
                        * net.get_node(parent_node).get_reserved_space_as_parent()))
                    * partial_cardinality_product;
'''
q("r5-f-zip", (HT, '''        for idx in 0..r1.shape()[0] {
            let s = q2[idx] / q1[idx];
            let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
            let s = F.cdf(s);
            let lim_sx = self.alpha / 2.0;
            let lim_dx = 1.0 - (self.alpha / 2.0);
            if s < lim_sx || s > lim_dx {
                return false;
            }
        }
        true''', '''        let half = self.alpha / 2.0;
        (0..r1.len()).all(|idx| {
            let p = FisherSnedecor::new(r1[idx], r2[idx])
                .unwrap()
                .cdf(q2[idx] / q1[idx]);
            !(p < half || p > 1.0 - half)
        })'''))
q("r5-f-range", (HT, '''            if s < lim_sx || s > lim_dx {
                return false;
            }
        }
        true''', '''            let outside = s < lim_sx || lim_dx < s;
            if outside {
                return false;
            }
        }
        return true;'''))
q("r5-x-loop", (HT, '''        let K = M1.sum_axis(Axis(1)) / M2.sum_axis(Axis(1));
        let K = K.mapv(f64::sqrt);
        let K = {
            let n = K.len();
            K.into_shape((n, 1)).unwrap()
        };
        let L = 1.0 / &K;
        let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
        X_2.diag_mut().fill(0.0);
        let X_2 = X_2.sum_axis(Axis(1));
        let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
        let ret = X_2.into_iter().all(|x| n.cdf(x) < (1.0 - self.alpha));
        ret''', '''        let (r1, r2) = (M1.sum_axis(Axis(1)), M2.sum_axis(Axis(1)));
        let states = r1.len();
        let distribution = ChiSquared::new((states - 1) as f64).unwrap();
        for x in 0..states {
            let k = (r1[x] / r2[x]).sqrt();
            let mut statistic = 0.0;
            for y in 0..states {
                if x != y {
                    let d = k * M2[[x, y]] - M1[[x, y]] / k;
                    statistic += d * d / (M1[[x, y]] + M2[[x, y]]);
                }
            }
            if !(distribution.cdf(statistic) < 1.0 - self.alpha) {
                return false;
            }
        }
        true'''))
q("r5-x-axis", (HT, '''        let K = K.mapv(f64::sqrt);
        let K = {
            let n = K.len();
            K.into_shape((n, 1)).unwrap()
        };
        let L = 1.0 / &K;
''', '''        let K = K.mapv(|ratio| ratio.sqrt()).insert_axis(Axis(1));
        let L = K.mapv(|ratio| 1.0 / ratio);
'''))
q("r5-c-short", (CA, '''        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            mem::swap(
                &mut self.cache_persistent_small,
                &mut self.cache_persistent_big,
            );
            self.cache_persistent_big = HashMap::new();
            self.parent_set_size_small += 1;
        }
''', '''        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            self.cache_persistent_small = mem::take(&mut self.cache_persistent_big);
            self.parent_set_size_small += 1;
        }
'''))
q("r5-c-table", (CA, '''        if parent_set_len > self.parent_set_size_small {
            match self.cache_persistent_big.get(&parent_set) {
                Some(params) => params.clone(),
                None => {
                    let params =
                        self.parameter_learning
                            .fit(net, dataset, node, parent_set.clone());
                    self.cache_persistent_big.insert(parent_set, params.clone());
                    params
                }
            }
        } else {
            match self.cache_persistent_small.get(&parent_set) {
                Some(params) => params.clone(),
                None => {
                    let params =
                        self.parameter_learning
                            .fit(net, dataset, node, parent_set.clone());
                    self.cache_persistent_small
                        .insert(parent_set, params.clone());
                    params
                }
            }
        }''', '''        let table = if parent_set_len > self.parent_set_size_small {
            &mut self.cache_persistent_big
        } else {
            &mut self.cache_persistent_small
        };
        if let Some(params) = table.get(&parent_set) {
            return params.clone();
        }
        let params = self.parameter_learning.fit(net, dataset, node, parent_set.clone());
        table.insert(parent_set, params.clone());
        params'''))
q("r5-c-entry", (CA, '''            match self.cache_persistent_big.get(&parent_set) {
                Some(params) => params.clone(),
                None => {
                    let params =
                        self.parameter_learning
                            .fit(net, dataset, node, parent_set.clone());
                    self.cache_persistent_big.insert(parent_set, params.clone());
                    params
                }
            }''', '''            let learning = self.parameter_learning;
            self.cache_persistent_big
                .entry(parent_set.clone())
                .or_insert_with(|| learning.fit(net, dataset, node, parent_set))
                .clone()'''))
q("r5-combo-ctbn", (CB, '''        n.reset_params();
        self.reset_conditional_nodes();
        self.adj_matrix = Option::None;
        self.nodes.push(n);
        Ok(self.nodes.len() - 1)''', '''        self.reset_conditional_nodes();
        self.adj_matrix.take();
        let index = self.nodes.len();
        n.reset_params();
        self.nodes.push(n);
        Ok(index)'''), (CB, '''    fn get_number_of_nodes(&self) -> usize {
        self.nodes.len()
    }''', '''    fn get_number_of_nodes(&self) -> usize {
        self.get_node_indices().end
    }'''))
q("r5-combo-params", (PA, '''        self.cim = Option::None;
        self.transitions = Option::None;
        self.residence_time = Option::None;''', '''        (self.cim, self.transitions, self.residence_time) = (None, None, None);'''), (PA, '''            StateType::Discrete(val) => val.clone() as usize,''', '''            StateType::Discrete(val) => *val,'''))
q("r5-p-diag", (PA, '''        if cim
            .axis_iter(Axis(0))
            .any(|x| x.diag().iter().any(|x| x >= &0.0))
        {''', '''        let mut wrong_diagonal = false;
        for matrix in cim.outer_iter() {
            for state in 0..domain_size {
                wrong_diagonal |= matrix[[state, state]] >= 0.0;
            }
        }
        if wrong_diagonal {'''))
q("r5-p-neg", (PA, '''        if cim
            .indexed_iter()
            .any(|((_, row, col), x)| row != col && !(x >= &0.0))
        {''', '''        if !cim
            .indexed_iter()
            .filter(|((_, row, col), _)| row != col)
            .all(|(_, x)| *x >= 0.0)
        {'''))
q("r5-t-trajlen", (TO, '''        if time.shape()[0] != events.shape()[0] {
            panic!("time.shape[0] must be equal to events.shape[0]");
        }''', '''        assert_eq!(time.len(), events.nrows(), "time.shape[0] must be equal to events.shape[0]");'''))
q("r5-t-last", (TO, '''        let current_state = events.last().unwrap().clone();
        events.push(current_state);
''', '''        events.extend_from_within(events.len() - 1..);
'''))
q("r5-t-lastidx", (TO, '''        let current_state = events.last().unwrap().clone();
        events.push(current_state);
''', '''        let n_events = events.len();
        events.push(events[n_events - 1].clone());
'''))
q("r5-t-seed", (TO, '''        let rng: ChaCha8Rng = match seed {
            //If a seed is present use it to initialize the random generator.
            Some(seed) => SeedableRng::seed_from_u64(seed),
            //Otherwise create a new random generator using the method `from_entropy`
            None => SeedableRng::from_entropy(),
        };
        UniformGraphGenerator { density, rng }''', '''        let rng = seed.map_or_else(ChaCha8Rng::from_entropy, ChaCha8Rng::seed_from_u64);
        Self { density, rng }'''))
q("r5-t-interval", (TO, '''        if interval.start < 0.0 || interval.end < 0.0 {''', '''        let Range { start, end } = interval;
        if [start, end].iter().any(|bound| *bound < 0.0) {'''), (TO, '''        UniformParametersGenerator { interval, rng }''', '''        UniformParametersGenerator { interval: start..end, rng }'''), (TO, '''                interval.start, interval.end
''', '''                start, end
'''))
q("r5-s-children", (SA, '''        for child in self.net.get_children_set(next_node_transition) {
            self.next_transitions[child] = None;
        }''', '''        let net = self.net;
        net.get_children_set(next_node_transition)
            .iter()
            .for_each(|child| self.next_transitions[*child] = None);'''))
q("r5-s-seedlet", (SA, '''        let rng: ChaCha8Rng = match seed {
            //If a seed is present use it to initialize the random generator.
            Some(seed) => SeedableRng::seed_from_u64(seed),
            //Otherwise create a new random generator using the method `from_entropy`
            None => SeedableRng::from_entropy(),
        };''', '''        let rng = if let Some(seed) = seed {
            ChaCha8Rng::seed_from_u64(seed)
        } else {
            ChaCha8Rng::from_entropy()
        };'''))
q("r5-bay-loop", (PL, '''            .for_each(|(mut C, m)| C.assign(&(&m.mapv(|y| y + alpha) / &T.mapv(|y| y + tau))));

        CIM.outer_iter_mut().for_each(|mut C| {
            C.diag_mut().fill(0.0);
        });
''', '''            .for_each(|(mut C, m)| C.assign(&((&m + alpha) / (&T + tau))));

        for mut C in CIM.outer_iter_mut() {
            for x in 0..C.nrows() {
                C[[x, x]] = 0.0;
            }
        }
'''))
