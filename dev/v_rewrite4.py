"""a fourth batch of rewrites that keep the behaviour: statistics, scores, rewards, learning"""
V = []
CB, SA, PA, TO, PL, CT, RE, RF, SS, SB, CA, HT = "process/ctbn.rs", "sampling.rs", "params.rs", "tools.rs", "parameter_learning.rs", "process/ctmp.rs", "reward/reward_evaluation.rs", "reward/reward_function.rs", "structure_learning/score_function.rs", "structure_learning/score_based_algorithm.rs", "structure_learning/constraint_based_algorithm.rs", "structure_learning/hypothesis_test.rs"


import re


def real(f, o):
    """the text of the file that the pattern stands for: comment lines between its lines are skipped"""
    src = open("/repo/src/" + f).read()
    if o in src:
        return o
    m = re.search(r"\n(?:[ ]*//[^\n]*\n)*".join(re.escape(l) for l in o.split("\n")), src)
    return m.group(0) if m else o


def q(n, *eds):
    V.append((n, "quiet", "", [(f, real(f, o), w) for f, o, w in eds]))


q("r4-ss-windows", (PL, '''        for idx in 0..(trj.get_time().len() - 1) {
            let t1 = trj.get_time()[idx];
            let t2 = trj.get_time()[idx + 1];
            let ev1 = trj.get_events().row(idx);
            let ev2 = trj.get_events().row(idx + 1);
            let idx1 = vector_to_idx.dot(&ev1);

            T[[idx1, ev1[node]]] += t2 - t1;
            if ev1[node] != ev2[node] {
                M[[idx1, ev1[node], ev2[node]]] += 1;
            }
        }''', '''        let (time, events) = (trj.get_time(), trj.get_events());
        for idx in 1..time.len() {
            let idx1 = vector_to_idx.dot(&events.row(idx - 1));
            let (before, after) = (events[[idx - 1, node]], events[[idx, node]]);
            T[[idx1, before]] += time[idx] - time[idx - 1];
            if before == after {
                continue;
            }
            M[[idx1, before, after]] += 1;
        }'''))
q("r4-ss-stride", (PL, '''    parent_set
        .iter()
        .zip(parentset_domain.iter())
        .fold(1, |acc, (idx, x)| {
            vector_to_idx[*idx] = acc;
            acc * x
        });

    let mut M: Array3<usize> =
        Array::zeros((parentset_domain.iter().product(), node_domain, node_domain));

    let mut T: Array2<f64> = Array::zeros((parentset_domain.iter().product(), node_domain));
''', '''    let mut configurations = 1;
    for (idx, x) in parent_set.iter().zip(&parentset_domain) {
        vector_to_idx[*idx] = configurations;
        configurations *= *x;
    }

    let mut M = Array3::<usize>::zeros((configurations, node_domain, node_domain));
    let mut T = Array2::<f64>::zeros((configurations, node_domain));
'''))
q("r4-ss-dot", (PL, '''            let idx1 = vector_to_idx.dot(&ev1);
''', '''            let idx1: usize = parent_set.iter().map(|p| vector_to_idx[*p] * ev1[*p]).sum();
'''))
q("r4-ss-counts2", (PL, '''            T[[idx1, ev1[node]]] += t2 - t1;
            if ev1[node] != ev2[node] {
                M[[idx1, ev1[node], ev2[node]]] += 1;
            }''', '''            let (x, y) = (ev1[node], ev2[node]);
            T[[idx1, x]] = T[[idx1, x]] + (t2 - t1);
            M[[idx1, x, y]] += if x != y { 1 } else { 0 };'''))
q("r4-ll-loops", (SS, '''                let log_ll_theta: f64 = M
                    .outer_iter()
                    .map(|x| {
                        x.outer_iter()
                            .map(|y| {
                                gamma::ln_gamma(alpha) - gamma::ln_gamma(alpha + y.sum() as f64)
                                    + y.iter()
                                        .map(|z| {
                                            gamma::ln_gamma(alpha + *z as f64)
                                                - gamma::ln_gamma(alpha)
                                        })
                                        .sum::<f64>()
                            })
                            .sum::<f64>()
                    })
                    .sum();''', '''                let ln_gamma_alpha = gamma::ln_gamma(alpha);
                let mut log_ll_theta = 0.0;
                for configuration in M.outer_iter() {
                    for row in configuration.outer_iter() {
                        log_ll_theta += ln_gamma_alpha - gamma::ln_gamma(alpha + row.sum() as f64);
                        for count in row.iter() {
                            log_ll_theta += gamma::ln_gamma(alpha + *count as f64) - ln_gamma_alpha;
                        }
                    }
                }'''))
q("r4-ll-q", (SS, '''                    .map(|(m, t)| {
                        gamma::ln_gamma(alpha + *m as f64 + 1.0) + (alpha + 1.0) * f64::ln(tau)
                            - gamma::ln_gamma(alpha + 1.0)
                            - (alpha + *m as f64 + 1.0) * f64::ln(tau + t)
                    })
                    .sum();''', '''                    .map(|(m, t)| {
                        let shape = alpha + 1.0;
                        let posterior = shape + *m as f64;
                        gamma::ln_gamma(posterior) - gamma::ln_gamma(shape) + shape * tau.ln()
                            - posterior * (t + tau).ln()
                    })
                    .sum();'''))
q("r4-bic", (SS, '''        let n_parameters = M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);
        let sample_size: usize = dataset
            .get_trajectories()
            .iter()
            .map(|x| x.get_time().len() - 1)
            .sum();
        let score = ll - f64::ln(sample_size as f64) / 2.0 * n_parameters as f64;''', '''        let (configurations, states, _) = M.dim();
        let n_parameters = (configurations * states * (states - 1)) as f64;
        let mut sample_size = 0usize;
        for trajectory in dataset.get_trajectories() {
            sample_size += trajectory.get_time().len() - 1;
        }
        let penalty = 0.5 * n_parameters * (sample_size as f64).ln();
        let score = ll - penalty;'''))
q("r4-hc-eval", (SB, '''                    if tmp_score < current_score {
                        if is_removed {
                            parent_set.insert(parent);
                        } else {
                            parent_set.remove(&parent);
                        }
                    }
''', '''                    if current_score > tmp_score {
                        match is_removed {
                            true => {
                                parent_set.insert(parent);
                            }
                            false => {
                                parent_set.remove(&parent);
                            }
                        }
                    }
'''))
q("r4-hc-tryset", (SB, '''                    let is_removed = parent_set.remove(&parent);
                    if !is_removed && parent_set.len() < max_parent_set {
                        parent_set.insert(parent);
                    }
                    let tmp_score = self.score_function.call(&net, node, &parent_set, dataset);
                    if tmp_score < current_score {
                        if is_removed {
                            parent_set.insert(parent);
                        } else {
                            parent_set.remove(&parent);
                        }
                    }
''', '''                    let mut tried = parent_set.clone();
                    if !tried.remove(&parent) && tried.len() < max_parent_set {
                        tried.insert(parent);
                    }
                    let tmp_score = self.score_function.call(&net, node, &tried, dataset);
                    if tmp_score < current_score {
                        continue;
                    }
'''), (SB, '''                    else {
                        current_score = tmp_score;
                    }''', '''                    current_score = tmp_score;
                    parent_set = tried;'''))
q("r4-ca-collect", (CA, '''        let mut learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = vec![];
        learned_parent_sets.par_extend(net.get_node_indices().into_par_iter().map(|child_node| {''', '''        let learn = |child_node: usize| {'''), (CA, '''            (child_node, candidate_parent_set)
        }));
''', '''            (child_node, candidate_parent_set)
        };
        let learned_parent_sets: Vec<(usize, BTreeSet<usize>)> =
            net.get_node_indices().into_par_iter().map(learn).collect();
'''))
q("r4-ca-find", (CA, '''                        let separation_set = separation_set.into_iter().collect();
                        if self.Ftest.call(''', '''                        let separation_set: BTreeSet<usize> = separation_set.into_iter().collect();
                        let cannot_separate = !self.Ftest.call('''), (CA, '''                            &mut cache,
                        ) && self.Chi2test.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        ) {
                            candidate_parent_set_TMP.remove(parent_node);
                            break;
                        }''', '''                            &mut cache,
                        ) || !self.Chi2test.call(
                            &net,
                            child_node,
                            *parent_node,
                            &separation_set,
                            dataset,
                            &mut cache,
                        );
                        if cannot_separate {
                            continue;
                        }
                        candidate_parent_set_TMP.remove(parent_node);
                        break;'''))
q("r4-ca-retain", (CA, '''                candidate_parent_set = candidate_parent_set_TMP;
                separation_set_size += 1;''', '''                separation_set_size = separation_set_size + 1;
                std::mem::swap(&mut candidate_parent_set, &mut candidate_parent_set_TMP);'''))
q("r4-ca-cand", (CA, '''            let mut candidate_parent_set: BTreeSet<usize> = net
                .get_node_indices()
                .into_iter()
                .filter(|x| x != &child_node)
                .collect();''', '''            let mut candidate_parent_set: BTreeSet<usize> = net.get_node_indices().collect();
            candidate_parent_set.remove(&child_node);'''))
q("r4-ca-addall", (CA, '''        for (child_node, candidate_parent_set) in learned_parent_sets {
            for parent_node in candidate_parent_set.iter() {
                net.add_edge(*parent_node, child_node);
            }
        }''', '''        learned_parent_sets
            .into_iter()
            .for_each(|(child_node, parents)| parents.into_iter().for_each(|parent_node| net.add_edge(parent_node, child_node)));'''))
q("r4-rf-inst", (RF, '''        let instantaneous_reward: f64 = current_state
            .iter()
            .enumerate()
            .map(|(idx, x)| {
                let x = match x {
                    params::StateType::Discrete(x) => x,
                };
                self.instantaneous_reward[idx][*x]
            })
            .sum();''', '''        let mut instantaneous_reward = 0.0;
        for (state, rewards) in current_state.iter().zip(self.instantaneous_reward.iter()) {
            let params::StateType::Discrete(x) = state;
            instantaneous_reward += rewards[*x];
        }'''))
q("r4-rf-trans", (RF, '''                .find_map(|(idx, (p, c))| -> Option<f64> {
                    let p = match p {
                        params::StateType::Discrete(p) => p,
                    };
                    let c = match c {
                        params::StateType::Discrete(c) => c,
                    };
                    if p != c {
                        Some(self.transition_reward[idx][[*p, *c]])
                    } else {
                        None
                    }
                })
                .unwrap_or(0.0);''', '''                .find(|(_, (p, c))| p != c)
                .map_or(0.0, |(idx, (p, c))| {
                    let params::StateType::Discrete(p) = p;
                    let params::StateType::Discrete(c) = c;
                    self.transition_reward[idx][[*p, *c]]
                });'''))
q("r4-rf-one", (RF, '''        if let Some(previous_state) = previous_state {
            let transition_reward = previous_state''', '''        let transition_reward = if let Some(previous_state) = previous_state {
            previous_state'''), (RF, '''                .unwrap_or(0.0);
            Reward {
                transition_reward,
                instantaneous_reward,
            }
        } else {
            Reward {
                transition_reward: 0.0,
                instantaneous_reward,
            }
        }''', '''                .unwrap_or_default()
        } else {
            0.0
        };
        Reward {
            transition_reward,
            instantaneous_reward,
        }'''))
q("r4-rf-init", (RF, '''        let mut transition_reward: Vec<ndarray::Array2<f64>> = vec![];
        let mut instantaneous_reward: Vec<ndarray::Array1<f64>> = vec![];
        for i in p.get_node_indices() {
            let size: usize = p.get_node(i).get_reserved_space_as_parent();
            instantaneous_reward.push(ndarray::Array1::zeros(size));
            transition_reward.push(ndarray::Array2::zeros((size, size)));
        }
''', '''        let sizes: Vec<usize> = p
            .get_node_indices()
            .map(|i| p.get_node(i).get_reserved_space_as_parent())
            .collect();
        let transition_reward = sizes.iter().map(|n| ndarray::Array2::from_elem((*n, *n), 0.0)).collect();
        let instantaneous_reward = sizes.into_iter().map(ndarray::Array1::zeros).collect();
'''))
q("r4-mc-mean", (RE, '''            let float_i = i as f64;
            expected_value =
                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
            squared_expected_value = squared_expected_value * float_i as f64 / (float_i + 1.0)
                + ret.powi(2) / (float_i + 1.0);''', '''            let float_i = i as f64;
            let n = float_i + 1.0;
            expected_value += (ret - expected_value) / n;
            squared_expected_value += (ret * ret - squared_expected_value) / n;'''))
q("r4-mc-sums", (RE, '''            expected_value =
                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
            squared_expected_value = squared_expected_value * float_i as f64 / (float_i + 1.0)
                + ret.powi(2) / (float_i + 1.0);''', '''            total += ret;
            squared_total += ret * ret;
            expected_value = total / (float_i + 1.0);
            let squared_expected_value = squared_total / (float_i + 1.0);'''), (RE, '''        let mut squared_expected_value = 0.0;
''', '''        let (mut total, mut squared_total) = (0.0, 0.0);
'''))
q("r4-mc-exp", (RE, '''                            (std::f64::consts::E.powf(-discount_factor * previous.t)
                                - std::f64::consts::E.powf(-discount_factor * current.t))
                                / discount_factor''', '''                            ((-discount_factor * previous.t).exp()
                                - (-discount_factor * current.t).exp())
                                / discount_factor'''))
q("r4-mc-min", (RE, '''            let mut previous = sampler.next().unwrap();

            while previous.t < self.end_time {
                let current = sampler.next().unwrap();''', '''            let mut previous = sampler.next().unwrap();

            loop {
                if previous.t >= self.end_time {
                    break;
                }
                let current = sampler.next().unwrap();'''))
q("r4-mc-disc", (RE, '''        for i in 0..self.max_iterations {
            sampler.reset();''', '''        let weight = |from: f64, to: f64| match &self.reward_criteria {
            RewardCriteria::FiniteHorizon => to - from,
            RewardCriteria::InfiniteHorizon { discount_factor } => {
                let at = |t: f64| std::f64::consts::E.powf(-discount_factor * t);
                (at(from) - at(to)) / discount_factor
            }
        };

        for i in 0..self.max_iterations {
            sampler.reset();'''), (RE, '''                    let discount = match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => self.end_time - previous.t,
                        RewardCriteria::InfiniteHorizon { discount_factor } => {
                            (std::f64::consts::E.powf(-discount_factor * previous.t)
                                - std::f64::consts::E.powf(-discount_factor * self.end_time))
                                / discount_factor
                        }
                    };
                    ret += discount * r.instantaneous_reward;''', '''                    ret += weight(previous.t, self.end_time) * r.instantaneous_reward;'''), (RE, '''                    let discount = match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => current.t - previous.t,
                        RewardCriteria::InfiniteHorizon { discount_factor } => {
                            (std::f64::consts::E.powf(-discount_factor * previous.t)
                                - std::f64::consts::E.powf(-discount_factor * current.t))
                                / discount_factor
                        }
                    };
''', '''                    let discount = weight(previous.t, current.t);
'''))
q("r4-mc-space", (RE, '''                let state: process::NetworkProcessState = variables_domain
                    .iter()
                    .fold((s, vec![]), |acc, x| {
                        let mut acc = acc;
                        let idx_s = acc.0 % x.len();
                        acc.1.push(x[idx_s].clone());
                        acc.0 = acc.0 / x.len();
                        acc
                    })
                    .1;
''', '''                let mut rest = s;
                let mut state: process::NetworkProcessState = Vec::with_capacity(variables_domain.len());
                for domain in &variables_domain {
                    state.push(domain[rest % domain.len()].clone());
                    rest /= domain.len();
                }
'''))
q("r4-nb-filter", (RE, '''                let mut max_val: f64 = 1.0;
                absolute_reward.iter().for_each(|(k2, v2)| {
                    let count_diff: usize = k1
                        .iter()
                        .zip(k2.iter())
                        .map(|(s1, s2)| if s1 == s2 { 0 } else { 1 })
                        .sum();
                    if count_diff < 2 {
                        max_val = max_val.max(v1 / v2);
                    }
                });
                (k1.clone(), max_val)''', '''                let max_val = absolute_reward
                    .iter()
                    .filter(|(k2, _)| k1.iter().zip(k2.iter()).filter(|(s1, s2)| s1 != s2).count() <= 1)
                    .fold(1.0f64, |best, (_, v2)| best.max(v1 / v2));
                (k1.clone(), max_val)'''))
q("r4-ct-opt", (CT, '''        match self.param {
            None => {
                self.param = Some(n);
                Ok(0)
            }
            Some(_) => {
                warn!("A CTMP do not support more than one node");
                Err(process::NetworkError::NodeInsertionError(
                    "CtmpProcess has only one node".to_string(),
                ))
            }
        }''', '''        if self.param.is_some() {
            warn!("A CTMP do not support more than one node");
            return Err(process::NetworkError::NodeInsertionError(
                "CtmpProcess has only one node".to_string(),
            ));
        }
        self.param.replace(n);
        Ok(0)'''))
q("r4-ct-num", (CT, '''        match self.param {
            None => 0,
            Some(_) => 1,
        }''', '''        self.get_node_indices().len()'''))
