CB = "structure_learning/constraint_based_algorithm.rs"; SB = "structure_learning/score_based_algorithm.rs"; HT = "structure_learning/hypothesis_test.rs"; SF = "structure_learning/score_function.rs"
CHECK = '''        if net.get_number_of_nodes() != dataset.get_trajectories()[0].get_events().shape()[1] {
            panic!("Dataset and Network must have the same number of variables.")
        }
'''
ADD = '''        for (child_node, candidate_parent_set) in learned_parent_sets {
            for parent_node in candidate_parent_set.iter() {
                net.add_edge(*parent_node, child_node);
            }
        }
'''
ROT = '''        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            //self.cache_persistent_small = self.cache_persistent_big;
            mem::swap(
                &mut self.cache_persistent_small,
                &mut self.cache_persistent_big,
            );
            self.cache_persistent_big = HashMap::new();
            self.parent_set_size_small += 1;
        }
'''
BODY = '''        if parent_set_len > self.parent_set_size_small {
            match self.cache_persistent_big.get(&parent_set) {
                // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                // not cloning requires a minor and reasoned refactoring across the library
                Some(params) => params.clone(),
                None => {
                    let params =
                        self.parameter_learning
                            .fit(net, dataset, node, parent_set.clone());
                    self.cache_persistent_big.insert(parent_set, params.clone());
                    params
                }
            }
        } else {
            match self.cache_persistent_small.get(&parent_set) {
                // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                // not cloning requires a minor and reasoned refactoring across the library
                Some(params) => params.clone(),
                None => {
                    let params =
                        self.parameter_learning
                            .fit(net, dataset, node, parent_set.clone());
                    self.cache_persistent_small
                        .insert(parent_set, params.clone());
                    params
                }
            }
        }
'''
CAND = '''            let mut candidate_parent_set: BTreeSet<usize> = net
                .get_node_indices()
                .into_iter()
                .filter(|x| x != &child_node)
                .collect();
'''
INNER = '''                    for separation_set in candidate_parent_set
                        .iter()
                        .filter(|x| x != &parent_node)
                        .map(|x| *x)
                        .combinations(separation_set_size)
                    {
                        let separation_set = separation_set.into_iter().collect();
                        if self.Ftest.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        ) && self.Chi2test.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        ) {
                            candidate_parent_set_TMP.remove(parent_node);
                            break;
                        }
                    }
'''
LEVEL = '''                let mut candidate_parent_set_TMP = candidate_parent_set.clone();
                for parent_node in candidate_parent_set.iter() {
''' + INNER + '''                }
                candidate_parent_set = candidate_parent_set_TMP;
                separation_set_size += 1;
'''
LOOP = '''                for parent in net.get_node_indices() {
                    //Continue if the parent and the node are the same.
                    if parent == node {
                        continue;
                    }
'''
REV = '''                    if tmp_score < current_score {
                        if is_removed {
                            parent_set.insert(parent);
                        } else {
                            parent_set.remove(&parent);
                        }
                    }
                    //Otherwise save the computed score as current_score
                    else {
                        current_score = tmp_score;
                    }
'''
MOVE = '''                    let is_removed = parent_set.remove(&parent);
                    //If parent was not in the parent_set add it.
                    if !is_removed && parent_set.len() < max_parent_set {
                        parent_set.insert(parent);
                    }
'''
FCALL = '''        for idx_M_big in 0..P_big.get_transitions().as_ref().unwrap().shape()[0] {
            let idx_M_small: usize = idx_M_big % partial_cardinality_product
                + (idx_M_big
                    / (partial_cardinality_product
                        * net.get_node(parent_node).get_reserved_space_as_parent()))
                    * partial_cardinality_product;
            if !self.compare_matrices(
                idx_M_small,
                P_small.get_transitions().as_ref().unwrap(),
                P_small.get_cim().as_ref().unwrap(),
                idx_M_big,
                P_big.get_transitions().as_ref().unwrap(),
                P_big.get_cim().as_ref().unwrap(),
            ) {
                return false;
            }
        }
        return true;
'''
PCP = '''        let partial_cardinality_product: usize = extended_separation_set
            .iter()
            .take_while(|x| **x != parent_node)
            .map(|x| net.get_node(*x).get_reserved_space_as_parent())
            .product();
'''
FB = '''        for idx in 0..r1.shape()[0] {
            let s = q2[idx] / q1[idx];
            let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
            let s = F.cdf(s);
            let lim_sx = self.alpha / 2.0;
            let lim_dx = 1.0 - (self.alpha / 2.0);
            if s < lim_sx || s > lim_dx {
                return false;
            }
        }
        true
'''
CHI = '''        let K = M1.sum_axis(Axis(1)) / M2.sum_axis(Axis(1));
        let K = K.mapv(f64::sqrt);
        // Reshape to column vector.
        let K = {
            let n = K.len();
            K.into_shape((n, 1)).unwrap()
        };
        let L = 1.0 / &K;
        let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
        X_2.diag_mut().fill(0.0);
        let X_2 = X_2.sum_axis(Axis(1));
        let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
        let ret = X_2.into_iter().all(|x| n.cdf(x) < (1.0 - self.alpha));
        ret
'''
LLQ = '''                let log_ll_q: f64 = M
                    .sum_axis(Axis(2))
                    .iter()
                    .zip(T.iter())
                    .map(|(m, t)| {
                        gamma::ln_gamma(alpha + *m as f64 + 1.0) + (alpha + 1.0) * f64::ln(tau)
                            - gamma::ln_gamma(alpha + 1.0)
                            - (alpha + *m as f64 + 1.0) * f64::ln(tau + t)
                    })
                    .sum();
'''
LLT = '''                let log_ll_theta: f64 = M
                    .outer_iter()
                    .map(|x| {
                        x.outer_iter()
                            .map(|y| {
                                gamma::ln_gamma(alpha) - gamma::ln_gamma(alpha + y.sum() as f64)
                                    + y.iter()
                                        .map(|z| {
                                            gamma::ln_gamma(alpha + *z as f64)
                                                - gamma::ln_gamma(alpha)
                                        })
                                        .sum::<f64>()
                            })
                            .sum::<f64>()
                    })
                    .sum();
'''
BICB = '''        let n_parameters = M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);
        //TODO: Optimize this
        //Compute the sample size
        let sample_size: usize = dataset
            .get_trajectories()
            .iter()
            .map(|x| x.get_time().len() - 1)
            .sum();
        //Compute BIC
        let score = ll - f64::ln(sample_size as f64) / 2.0 * n_parameters as f64;
'''
V = []
def q(n, *e): V.append((n, "quiet", "", list(e)))
def a(n, ids, *e): V.append((n, "alarm", ids, list(e)))
for F_, t in ((CB, "ct"), (SB, "hc")):
    q(t + "-check-assert", (F_, CHECK, '''        assert_eq!(
            net.get_number_of_nodes(),
            dataset.get_trajectories()[0].get_events().ncols(),
            "Dataset and Network must have the same number of variables."
        );
'''))
    q(t + "-check-let", (F_, CHECK, '''        let n_variables = dataset.get_trajectories()[0].get_events().shape()[1];
        if !(n_variables == net.get_node_indices().len()) {
            panic!("Dataset and Network must have the same number of variables.");
        }
'''))
    q(t + "-add-intoiter", (F_, ADD, '''        for (child, parents) in learned_parent_sets.into_iter() {
            parents.into_iter().for_each(|p| net.add_edge(p, child));
        }
'''))
    q(t + "-add-index", (F_, ADD, '''        for k in 0..learned_parent_sets.len() {
            let (child, ref parents) = learned_parent_sets[k];
            for p in parents {
                net.add_edge(*p, child);
            }
        }
'''))
    q(t + "-collect", (F_, "let mut learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = vec![];", ""), (F_, "learned_parent_sets.par_extend(net", "let learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = net"), (F_, "}));", "}).collect();"), (F_, "use rayon::prelude::ParallelExtend;\n", ""))
    a(t + "-check-lt", "C21", (F_, "net.get_number_of_nodes() != dataset", "net.get_number_of_nodes() < dataset"))
    a(t + "-check-rows", "C21", (F_, "shape()[1] {", "shape()[0].min(net.get_number_of_nodes()) {"))
    a(t + "-add-rev", "C19", (F_, "net.add_edge(*parent_node, child_node);", "net.add_edge(child_node, *parent_node);"))
    a(t + "-add-skip", "C19", (F_, "for (child_node, candidate_parent_set) in learned_parent_sets {", "for (child_node, candidate_parent_set) in learned_parent_sets.into_iter().skip(1) {"))
    a(t + "-noinit", "C19", (F_, "net.initialize_adj_matrix();", ""))
    a(t + "-add-first", "C19", (F_, "for parent_node in candidate_parent_set.iter() {\n                net", "for parent_node in candidate_parent_set.iter().take(3) {\n                net"))
q("ca-rot-take", (CB, ROT, '''        let parent_set_len = match &parent_set { Some(p) => p.len(), None => panic!("no parent set") };
        if parent_set_len > 1 + self.parent_set_size_small {
            self.cache_persistent_small = mem::take(&mut self.cache_persistent_big);
            self.parent_set_size_small += 1;
        }
'''))
q("ca-rot-replace", (CB, ROT, '''        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            self.cache_persistent_small = mem::replace(&mut self.cache_persistent_big, HashMap::new());
            self.parent_set_size_small = self.parent_set_size_small + 1;
        }
'''))
q("ca-rot-clear", (CB, ROT, '''        let parent_set_len = parent_set.as_ref().unwrap().len();
        if parent_set_len > self.parent_set_size_small + 1 {
            mem::swap(&mut self.cache_persistent_small, &mut self.cache_persistent_big);
            self.cache_persistent_big.clear();
            self.parent_set_size_small += 1;
        }
'''))
q("ca-body-ref", (CB, BODY, '''        let cache = if parent_set_len > self.parent_set_size_small {
            &mut self.cache_persistent_big
        } else {
            &mut self.cache_persistent_small
        };
        if let Some(params) = cache.get(&parent_set) {
            return params.clone();
        }
        let params = self.parameter_learning.fit(net, dataset, node, parent_set.clone());
        cache.insert(parent_set, params.clone());
        params
'''))
q("ca-body-entry", (CB, BODY, '''        let cache = if parent_set_len > self.parent_set_size_small {
            &mut self.cache_persistent_big
        } else {
            &mut self.cache_persistent_small
        };
        let learner = self.parameter_learning;
        cache
            .entry(parent_set)
            .or_insert_with_key(|key| learner.fit(net, dataset, node, key.clone()))
            .clone()
'''))
q("ca-body-contains", (CB, BODY, '''        let cache = if parent_set_len <= self.parent_set_size_small {
            &mut self.cache_persistent_small
        } else {
            &mut self.cache_persistent_big
        };
        if !cache.contains_key(&parent_set) {
            let params = self.parameter_learning.fit(net, dataset, node, parent_set.clone());
            cache.insert(parent_set.clone(), params);
        }
        cache[&parent_set].clone()
'''))
q("ca-body-helper", (CB, BODY, '''        let map = if parent_set_len > self.parent_set_size_small {
            &mut self.cache_persistent_big
        } else {
            &mut self.cache_persistent_small
        };
        lookup(self.parameter_learning, map, net, dataset, node, parent_set)
'''), (CB, "pub struct CTPC<P: ParameterLearning> {", '''fn lookup<P: ParameterLearning, T: process::NetworkProcess>(
    learner: &P,
    map: &mut HashMap<Option<BTreeSet<usize>>, Params>,
    net: &T,
    dataset: &Dataset,
    node: usize,
    key: Option<BTreeSet<usize>>,
) -> Params {
    match map.get(&key) {
        Some(found) => found.clone(),
        None => {
            let fitted = learner.fit(net, dataset, node, key.clone());
            map.insert(key, fitted.clone());
            fitted
        }
    }
}

pub struct CTPC<P: ParameterLearning> {'''))
q("ca-nocache", (CB, BODY, "        let _ = parent_set_len;\n        self.parameter_learning.fit(net, dataset, node, parent_set)\n"))
a("ca-key-none", "C22", (CB, "self.cache_persistent_big.insert(parent_set, params.clone());", "self.cache_persistent_big.insert(None, params.clone());"))
a("ca-fit-none", "C22", (CB, ".fit(net, dataset, node, parent_set.clone());\n                    self.cache_persistent_small", ".fit(net, dataset, node, None);\n                    self.cache_persistent_small"))
a("ca-get-any", "C22", (CB, "match self.cache_persistent_small.get(&parent_set) {", "match self.cache_persistent_small.values().next() {"))
q("ct-cand-remove", (CB, CAND, '''            let mut candidate_parent_set: BTreeSet<usize> = net.get_node_indices().collect();
            candidate_parent_set.remove(&child_node);
'''))
q("ct-cand-loop", (CB, CAND, '''            let mut candidate_parent_set = BTreeSet::new();
            for x in net.get_node_indices() {
                if x != child_node {
                    candidate_parent_set.insert(x);
                }
            }
'''))
q("ct-inner-any", (CB, INNER, '''                    let others: Vec<usize> = candidate_parent_set.iter().copied().filter(|x| x != parent_node).collect();
                    let separated = others.into_iter().combinations(separation_set_size).any(|s| {
                        let separation_set: BTreeSet<usize> = s.into_iter().collect();
                        self.Ftest.call(&net, child_node, *parent_node, &separation_set, dataset, &mut cache)
                            && self.Chi2test.call(&net, child_node, *parent_node, &separation_set, dataset, &mut cache)
                    });
                    if separated {
                        candidate_parent_set_TMP.remove(parent_node);
                    }
'''))
q("ct-inner-helper", (CB, INNER, '''                    for separation_set in candidate_parent_set
                        .iter()
                        .copied()
                        .filter(|x| x != parent_node)
                        .combinations(separation_set_size)
                    {
                        let separation_set = separation_set.into_iter().collect();
                        if self.independent(&net, child_node, *parent_node, &separation_set, dataset, &mut cache) {
                            candidate_parent_set_TMP.remove(parent_node);
                            break;
                        }
                    }
'''), (CB, "impl<P: ParameterLearning> StructuralLearningAlgorithm for CTPC<P> {", '''impl<P: ParameterLearning> CTPC<P> {
    fn independent<T: process::NetworkProcess>(
        &self,
        net: &T,
        child: usize,
        parent: usize,
        separation_set: &BTreeSet<usize>,
        dataset: &Dataset,
        cache: &mut Cache<P>,
    ) -> bool {
        if !self.Ftest.call(net, child, parent, separation_set, dataset, cache) {
            return false;
        }
        self.Chi2test.call(net, child, parent, separation_set, dataset, cache)
    }
}

impl<P: ParameterLearning> StructuralLearningAlgorithm for CTPC<P> {'''))
q("ct-inner-nobreak", (CB, "                            candidate_parent_set_TMP.remove(parent_node);\n                            break;", "                            candidate_parent_set_TMP.remove(parent_node);"))
q("ct-inner-order", (CB, '''                        if self.Ftest.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        ) && self.Chi2test.call(''', '''                        if self.Chi2test.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        ) && self.Ftest.call('''))
q("ct-level-retain", (CB, LEVEL, '''                let mut separated = BTreeSet::new();
                for parent_node in candidate_parent_set.iter() {
''' + INNER.replace("candidate_parent_set_TMP.remove(parent_node)", "separated.insert(*parent_node)") + '''                }
                candidate_parent_set.retain(|p| !separated.contains(p));
                separation_set_size += 1;
'''))
q("ct-level-next", (CB, LEVEL, '''                let mut next_candidates = BTreeSet::new();
                for parent_node in candidate_parent_set.iter() {
                    let mut keep = true;
''' + INNER.replace("candidate_parent_set_TMP.remove(parent_node)", "keep = false") + '''                    if keep {
                        next_candidates.insert(*parent_node);
                    }
                }
                candidate_parent_set = next_candidates;
                separation_set_size += 1;
'''))
q("ct-level-loop", (CB, "            while separation_set_size < candidate_parent_set.len() {", "            loop {\n                if separation_set_size >= candidate_parent_set.len() { break; }"))
a("ct-immediate", "C23", (CB, LEVEL, '''                for parent_node in candidate_parent_set.clone().iter() {
''' + INNER.replace("candidate_parent_set_TMP", "candidate_parent_set").replace('''                    for separation_set in candidate_parent_set
                        .iter()
                        .filter(|x| x != &parent_node)
                        .map(|x| *x)
''', '''                    let others: Vec<usize> = candidate_parent_set.iter().copied().filter(|x| x != parent_node).collect();
                    for separation_set in others
                        .into_iter()
''') + '''                }
                separation_set_size += 1;
'''))
a("ct-or", "C23", (CB, ") && self.Chi2test.call(", ") || self.Chi2test.call("))
a("ct-size1", "C23", (CB, "let mut separation_set_size = 0;", "let mut separation_set_size = 1;"))
a("ct-step2", "C23", (CB, "separation_set_size += 1;", "separation_set_size += 2;"))
a("ct-nofilter", "C23", (CB, ".filter(|x| x != &parent_node)\n", ""))
a("ct-onlyf", "C23", (CB, INNER, INNER.replace(''' && self.Chi2test.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        )''', "")))
a("ct-swapargs", "C23", (CB, "                            child_node,\n                            *parent_node,", "                            *parent_node,\n                            child_node,"))
a("ct-limit", "C23", (CB, "while separation_set_size < candidate_parent_set.len() {", "while separation_set_size < candidate_parent_set.len() && separation_set_size < 3 {"))
a("ct-limit1", "C23", (CB, "while separation_set_size < candidate_parent_set.len() {", "while separation_set_size + 1 < candidate_parent_set.len() {"))
a("ct-breaklevel3", "C23", (CB, "                separation_set_size += 1;", "                if candidate_parent_set.len() < 3 { break; }\n                separation_set_size += 1;"))
q("ct-breaklevel", (CB, "                separation_set_size += 1;", "                if candidate_parent_set.len() < 2 { break; }\n                separation_set_size += 1;"))
a("ct-take3", "C23", (CB, ".combinations(separation_set_size)\n", ".combinations(separation_set_size).take(10)\n"))
a("ct-smallcand", "C23", (CB, ".filter(|x| x != &child_node)\n", ".filter(|x| x < &child_node)\n"))
q("hc-loop-filter", (SB, LOOP, '''                for parent in net.get_node_indices().filter(|p| *p != node) {
'''))
q("hc-loop-if", (SB, LOOP, '''                for parent in 0..net.get_number_of_nodes() {
                    if node == parent {
                        continue;
                    }
'''))
q("hc-rev-ge", (SB, REV, '''                    if tmp_score >= current_score {
                        current_score = tmp_score;
                    } else if is_removed {
                        parent_set.insert(parent);
                    } else {
                        parent_set.remove(&parent);
                    }
'''))
q("hc-rev-match", (SB, REV, '''                    if !(tmp_score < current_score) {
                        current_score = tmp_score;
                        continue;
                    }
                    match is_removed {
                        true => { parent_set.insert(parent); }
                        false => { parent_set.remove(&parent); }
                    }
'''))
q("hc-move-contains", (SB, MOVE, '''                    let is_removed = parent_set.contains(&parent);
                    if is_removed {
                        parent_set.remove(&parent);
                    } else if parent_set.len() < max_parent_set {
                        parent_set.insert(parent);
                    }
'''))
q("hc-tentative", (SB, MOVE, '''                    let mut tentative = parent_set.clone();
                    let is_removed = tentative.remove(&parent);
                    if !is_removed && tentative.len() < max_parent_set {
                        tentative.insert(parent);
                    }
'''), (SB, "let tmp_score = self.score_function.call(&net, node, &parent_set, dataset);", "let tmp_score = self.score_function.call(&net, node, &tentative, dataset);"), (SB, REV, '''                    if tmp_score >= current_score {
                        current_score = tmp_score;
                        parent_set = tentative;
                    }
'''))
q("hc-strict", (SB, "if tmp_score < current_score {", "if tmp_score <= current_score {"))
q("hc-maxmatch", (SB, "let max_parent_set = self.max_parent_set.unwrap_or(net.get_number_of_nodes());", "let max_parent_set = match self.max_parent_set { Some(m) => m, None => net.get_number_of_nodes() };"))
q("hc-loopbreak", (SB, "            while current_score > old_score {", "            loop {\n                if !(current_score > old_score) { break; }"))
q("hc-flag", (SB, '''            let mut old_score = f64::NEG_INFINITY;
            //Iterate until convergence
            while current_score > old_score {
                //Save the current_score.
                old_score = current_score;''', '''            let mut improved = true;
            while improved {
                let old_score = current_score;'''), (SB, REV, REV + "                }\n                improved = current_score > old_score;\n                {\n"))
q("hc-helper", (SB, "            (node, parent_set)\n        }));", "            (node, parent_set)\n        }));\n        info!(\"learnt {}\", learned_parent_sets.len());"))
a("hc-norevert", "C20", (SB, "                            parent_set.insert(parent);\n                        } else {", "                        } else {"))
a("hc-noremove", "C20", (SB, "                            parent_set.remove(&parent);\n                        }\n", "                        }\n"))
a("hc-limit", "C20", (SB, "parent_set.len() < max_parent_set", "parent_set.len() <= max_parent_set"))
a("hc-thresh", "C20", (SB, "while current_score > old_score {", "while current_score - old_score > 0.1 {"))
a("hc-self", "C20", (SB, "if parent == node {", "if parent < node {"))
a("hc-stale", "C20", (SB, "                        current_score = tmp_score;\n", "                        if !is_removed { current_score = tmp_score; }\n"))
a("hc-once", "C20", (SB, "            while current_score > old_score {", "            if current_score > old_score {"))
a("hc-tol", "C20", (SB, "if tmp_score < current_score {", "if tmp_score < current_score - 1e-3 {"))
a("hc-tol2", "C20", (SB, "if tmp_score < current_score {", "if tmp_score < current_score + 1e-3 {"))
a("hc-scoreold", "C20", (SB, "                old_score = current_score;", "                old_score = current_score.max(old_score + 1.0);"))
q("ht-all", (HT, FCALL, '''        let small_M = P_small.get_transitions().as_ref().unwrap();
        let big_M = P_big.get_transitions().as_ref().unwrap();
        let small_cim = P_small.get_cim().as_ref().unwrap();
        let big_cim = P_big.get_cim().as_ref().unwrap();
        let parent_card = net.get_node(parent_node).get_reserved_space_as_parent();
        (0..big_M.shape()[0]).all(|big| {
            let low = big % partial_cardinality_product;
            let high = big / (partial_cardinality_product * parent_card);
            self.compare_matrices(low + high * partial_cardinality_product, small_M, small_cim, big, big_M, big_cim)
        })
'''))
q("ht-nested", (HT, FCALL, '''        let parent_card = net.get_node(parent_node).get_reserved_space_as_parent();
        let n_big = P_big.get_transitions().as_ref().unwrap().shape()[0];
        let mut independent = true;
        for big in 0..n_big {
            let block = big / partial_cardinality_product;
            let small = big - block * partial_cardinality_product + (block / parent_card) * partial_cardinality_product;
            if !self.compare_matrices(
                small,
                P_small.get_transitions().as_ref().unwrap(),
                P_small.get_cim().as_ref().unwrap(),
                big,
                P_big.get_transitions().as_ref().unwrap(),
                P_big.get_cim().as_ref().unwrap(),
            ) {
                independent = false;
                break;
            }
        }
        independent
'''))
q("ht-pcp-filter", (HT, PCP, '''        let partial_cardinality_product: usize = separation_set
            .iter()
            .filter(|x| **x < parent_node)
            .map(|x| net.get_node(*x).get_reserved_space_as_parent())
            .product();
'''))
q("ht-pcp-range", (HT, PCP, '''        let partial_cardinality_product: usize = extended_separation_set
            .range(..parent_node)
            .map(|x| net.get_node(*x).get_reserved_space_as_parent())
            .product();
'''))
q("ht-pcp-loop", (HT, PCP, '''        let mut partial_cardinality_product: usize = 1;
        for x in extended_separation_set.iter() {
            if *x == parent_node {
                break;
            }
            partial_cardinality_product *= net.get_node(*x).get_reserved_space_as_parent();
        }
'''))
q("ht-bigfirst", (HT, "Some(extended_separation_set.clone()),", "Some(extended_separation_set.iter().copied().collect()),"))
a("ht-pcp-all", "C05", (HT, "            .take_while(|x| **x != parent_node)\n", ""))
a("ht-mod", "C05", (HT, "let idx_M_small: usize = idx_M_big % partial_cardinality_product", "let idx_M_small: usize = idx_M_big % (partial_cardinality_product + 1)"))
a("ht-half", "C05", (HT, "for idx_M_big in 0..P_big.get_transitions().as_ref().unwrap().shape()[0] {", "for idx_M_big in 0..P_small.get_transitions().as_ref().unwrap().shape()[0] {"))
a("ht-nomul", "C05", (HT, '''                        * net.get_node(parent_node).get_reserved_space_as_parent()))
                    * partial_cardinality_product;''', '''                        * net.get_node(child_node).get_reserved_space_as_parent()))
                    * partial_cardinality_product;'''))
a("ht-child", "C05", (HT, "let P_small = match cache.fit(net, &dataset, child_node,", "let P_small = match cache.fit(net, &dataset, parent_node,"))
a("ht-any", "C05", (HT, '''            ) {
                return false;
            }
        }
        return true;''', '''            ) && idx_M_big + 1 < P_big.get_transitions().as_ref().unwrap().shape()[0] {
                return false;
            }
        }
        return true;'''))
q("f-all", (HT, FB, '''        let lim_sx = self.alpha / 2.0;
        let lim_dx = 1.0 - lim_sx;
        (0..r1.len()).all(|idx| {
            let p = FisherSnedecor::new(r1[idx], r2[idx]).unwrap().cdf(q2[idx] / q1[idx]);
            !(p < lim_sx || p > lim_dx)
        })
'''))
q("f-flag", (HT, FB, '''        let mut accepted = true;
        for ((a, b), (x, y)) in r1.iter().zip(r2.iter()).zip(q1.iter().zip(q2.iter())) {
            let dist = FisherSnedecor::new(*a, *b).unwrap();
            let p = dist.cdf(y / x);
            if p < self.alpha / 2.0 || p > 1.0 - self.alpha / 2.0 {
                accepted = false;
            }
        }
        accepted
'''))
a("f-inv", "C36", (HT, "let s = q2[idx] / q1[idx];", "let s = q1[idx] / q2[idx];"))
a("f-onesided", "C36", (HT, "if s < lim_sx || s > lim_dx {", "if s > lim_dx {"))
a("f-dof", "C36", (HT, "FisherSnedecor::new(r1[idx], r2[idx])", "FisherSnedecor::new(r2[idx], r1[idx])"))
a("f-skip", "C36", (HT, "for idx in 0..r1.shape()[0] {", "for idx in 1..r1.shape()[0] {"))
a("f-axis0", "C36", (HT, "let r1 = M1.sum_axis(Axis(1));", "let r1 = M1.sum_axis(Axis(0));"))
q("chi-loops", (HT, CHI, '''        let n_states = M1.nrows();
        let dist = ChiSquared::new((n_states - 1) as f64).unwrap();
        for x in 0..n_states {
            let r1: f64 = M1.row(x).sum();
            let r2: f64 = M2.row(x).sum();
            let k = (r1 / r2).sqrt();
            let l = 1.0 / k;
            let mut stat = 0.0;
            for y in 0..n_states {
                if x != y {
                    stat += (k * M2[[x, y]] - l * M1[[x, y]]).powi(2) / (M1[[x, y]] + M2[[x, y]]);
                }
            }
            if !(dist.cdf(stat) < 1.0 - self.alpha) {
                return false;
            }
        }
        true
'''))
q("chi-insertaxis", (HT, CHI, '''        let K = (M1.sum_axis(Axis(1)) / M2.sum_axis(Axis(1))).mapv(f64::sqrt).insert_axis(Axis(1));
        let diff = &K * &M2 - &M1 / &K;
        let mut X_2 = &diff * &diff / (&M1 + &M2);
        X_2.diag_mut().fill(0.0);
        let n = ChiSquared::new((X_2.nrows() - 1) as f64).unwrap();
        !X_2.sum_axis(Axis(1)).iter().any(|x| !(n.cdf(*x) < (1.0 - self.alpha)))
'''))
a("chi-nodiag", "C36", (HT, "        X_2.diag_mut().fill(0.0);\n", ""))
a("chi-dof", "C36", (HT, "(X_2.dim() - 1) as f64", "(X_2.dim()) as f64"))
a("chi-nosqrt", "C36", (HT, "        let K = K.mapv(f64::sqrt);\n", ""))
a("chi-any", "C36", (HT, "X_2.into_iter().all(", "X_2.into_iter().any("))
a("chi-alpha", "C36", (HT, "n.cdf(x) < (1.0 - self.alpha)", "n.cdf(x) < (1.0 - self.alpha / 2.0)"))
q("ll-loops", (SF, LLQ, '''                let mut log_ll_q = 0.0;
                for u in 0..M.shape()[0] {
                    for x in 0..M.shape()[1] {
                        let mut m = 0;
                        for y in 0..M.shape()[2] {
                            m += M[[u, x, y]];
                        }
                        log_ll_q += gamma::ln_gamma(alpha + m as f64 + 1.0) + (alpha + 1.0) * tau.ln()
                            - gamma::ln_gamma(alpha + 1.0)
                            - (alpha + m as f64 + 1.0) * (tau + T[[u, x]]).ln();
                    }
                }
'''))
q("ll-theta-loops", (SF, LLT, '''                let lg = gamma::ln_gamma(alpha);
                let mut log_ll_theta = 0.0;
                for x in M.outer_iter() {
                    for y in x.outer_iter() {
                        let mut row = lg - gamma::ln_gamma(alpha + y.sum() as f64);
                        for z in y.iter() {
                            row += gamma::ln_gamma(alpha + *z as f64) - lg;
                        }
                        log_ll_theta += row;
                    }
                }
'''))
q("ll-theta-lanes", (SF, LLT, '''                let term = |z: usize| gamma::ln_gamma(alpha + z as f64) - gamma::ln_gamma(alpha);
                let log_ll_theta: f64 = M.iter().map(|z| term(*z)).sum::<f64>()
                    - M.sum_axis(Axis(2)).iter().map(|m| term(*m)).sum::<f64>();
'''))
q("ll-match", (SF, "let score = self.compute_score(net, node, parent_set, dataset).0;", "let (score, _) = self.compute_score(net, node, parent_set, dataset);"))
q("bic-fold", (SF, BICB, '''        let (n_u, n_x, n_y) = M.dim();
        let n_parameters = (n_y - 1) * n_x * n_u;
        let sample_size = dataset.get_trajectories().iter().fold(0usize, |acc, x| acc + x.get_time().len() - 1);
        let penalty = 0.5 * (sample_size as f64).ln() * n_parameters as f64;
        let score = ll - penalty;
'''))
q("bic-loop", (SF, BICB, '''        let n_parameters = M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);
        let mut sample_size = 0;
        for t in dataset.get_trajectories() {
            sample_size += t.get_time().len() - 1;
        }
        let score = ll - (n_parameters as f64) * f64::ln(sample_size as f64) / 2.0;
'''))
a("ll-alpha", "C35", (SF, "gamma::ln_gamma(alpha + *m as f64 + 1.0)", "gamma::ln_gamma(alpha + *m as f64)"))
a("ll-tau", "C35", (SF, "let tau = self.tau / M.shape()[0] as f64;", "let tau = self.tau;"))
a("ll-theta", "C35", (SF, "gamma::ln_gamma(alpha) - gamma::ln_gamma(alpha + y.sum() as f64)", "gamma::ln_gamma(alpha) - gamma::ln_gamma(alpha + y.len() as f64)"))
a("bic-n", "C35", (SF, "(M.shape()[2] - 1)", "M.shape()[2]"))
a("bic-size", "C35", (SF, ".map(|x| x.get_time().len() - 1)\n            .sum();", ".map(|x| x.get_time().len())\n            .sum();"))
a("bic-half", "C35", (SF, "/ 2.0 * n_parameters", "* n_parameters"))
