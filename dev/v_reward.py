RF = "reward/reward_function.rs"; RE = "reward/reward_evaluation.rs"; TO = "tools.rs"
INST = '''        let instantaneous_reward: f64 = current_state
            .iter()
            .enumerate()
            .map(|(idx, x)| {
                let x = match x {
                    params::StateType::Discrete(x) => x,
                };
                self.instantaneous_reward[idx][*x]
            })
            .sum();
'''
TRANS = '''            let transition_reward = previous_state
                .iter()
                .zip(current_state.iter())
                .enumerate()
                .find_map(|(idx, (p, c))| -> Option<f64> {
                    let p = match p {
                        params::StateType::Discrete(p) => p,
                    };
                    let c = match c {
                        params::StateType::Discrete(c) => c,
                    };
                    if p != c {
                        Some(self.transition_reward[idx][[*p, *c]])
                    } else {
                        None
                    }
                })
                .unwrap_or(0.0);
'''
ANY = '''        if trajectories
            .iter()
            .any(|x| trajectories[0].get_events().shape()[1] != x.get_events().shape()[1])
        {
            panic!("All the trajectories mus represents the same number of variables");
        }
'''
NB = '''                let mut max_val: f64 = 1.0;
                absolute_reward.iter().for_each(|(k2, v2)| {
                    let count_diff: usize = k1
                        .iter()
                        .zip(k2.iter())
                        .map(|(s1, s2)| if s1 == s2 { 0 } else { 1 })
                        .sum();
                    if count_diff < 2 {
                        max_val = max_val.max(v1 / v2);
                    }
                });
                (k1.clone(), max_val)
'''
V = [
 ("rf-inst-loop", "quiet", "C25", [(RF, INST, '''        let mut instantaneous_reward: f64 = 0.0;
        for (idx, x) in current_state.iter().enumerate() {
            let params::StateType::Discrete(x) = x;
            instantaneous_reward += self.instantaneous_reward[idx][*x];
        }
''')]),
 ("rf-inst-fold", "quiet", "C25", [(RF, INST, '''        let instantaneous_reward: f64 = current_state.iter().zip(self.instantaneous_reward.iter())
            .fold(0.0, |acc, (x, t)| match x { params::StateType::Discrete(x) => acc + t[*x] });
''')]),
 ("rf-trans-loop", "quiet", "C25", [(RF, TRANS, '''            let mut transition_reward = 0.0;
            for idx in 0..current_state.len() {
                let params::StateType::Discrete(p) = previous_state[idx];
                let params::StateType::Discrete(c) = current_state[idx];
                if p != c {
                    transition_reward = self.transition_reward[idx][[p, c]];
                    break;
                }
            }
''')]),
 ("rf-trans-loop-nobreak", "quiet", "C25", [(RF, TRANS, '''            let mut transition_reward = 0.0;
            for idx in 0..current_state.len() {
                let params::StateType::Discrete(p) = previous_state[idx];
                let params::StateType::Discrete(c) = current_state[idx];
                if p != c {
                    transition_reward += self.transition_reward[idx][[p, c]];
                }
            }
''')]),
 ("rf-trans-position", "quiet", "C25", [(RF, TRANS, '''            let transition_reward = match previous_state.iter().zip(current_state.iter()).position(|(p, c)| p != c) {
                Some(idx) => {
                    let params::StateType::Discrete(p) = previous_state[idx];
                    let params::StateType::Discrete(c) = current_state[idx];
                    self.transition_reward[idx][[p, c]]
                }
                None => 0.0,
            };
''')]),
 ("rf-helper", "quiet", "C25", [(RF, INST, '''        let instantaneous_reward: f64 = self.inst(current_state);
'''), (RF, "impl FactoredRewardFunction {", '''impl FactoredRewardFunction {
    fn inst(&self, s: &process::NetworkProcessState) -> f64 {
        s.iter().enumerate().map(|(i, x)| match x { params::StateType::Discrete(x) => self.instantaneous_reward[i][*x] }).sum()
    }
''')]),
 ("rf-trans-swapped", "alarm", "C25", [(RF, "[[*p, *c]]", "[[*c, *p]]")]),
 ("rf-inst-prev", "alarm", "C25", [(RF, "self.instantaneous_reward[idx][*x]", "self.instantaneous_reward[0][*x]")]),
 ("rf-inst-skip", "alarm", "C25", [(RF, '''            .iter()
            .enumerate()
            .map(|(idx, x)| {''', '''            .iter()
            .enumerate()
            .take(64)
            .map(|(idx, x)| {''')]),
 ("rf-none-one", "alarm", "C25", [(RF, "transition_reward: 0.0,", "transition_reward: instantaneous_reward,")]),
 ("rf-init-swap", "alarm", "C25", [(RF, "Array2::zeros((size, size))", "Array2::zeros((size, 2))")]),
 ("rf-init-map", "quiet", "C25", [(RF, '''        let mut transition_reward: Vec<ndarray::Array2<f64>> = vec![];
        let mut instantaneous_reward: Vec<ndarray::Array1<f64>> = vec![];
        for i in p.get_node_indices() {
            //This works only for discrete nodes!
            let size: usize = p.get_node(i).get_reserved_space_as_parent();
            instantaneous_reward.push(ndarray::Array1::zeros(size));
            transition_reward.push(ndarray::Array2::zeros((size, size)));
        }
''', '''        let sizes: Vec<usize> = p.get_node_indices().map(|i| p.get_node(i).get_reserved_space_as_parent()).collect();
        let transition_reward: Vec<ndarray::Array2<f64>> = sizes.iter().map(|s| ndarray::Array2::zeros((*s, *s))).collect();
        let instantaneous_reward: Vec<ndarray::Array1<f64>> = sizes.iter().map(|s| ndarray::Array1::from_elem(*s, 0.0)).collect();
''')]),
 ("traj-assert", "quiet", "C29", [(TO, '''        if time.shape()[0] != events.shape()[0] {
            panic!("time.shape[0] must be equal to events.shape[0]");
        }
''', '''        assert_eq!(time.len(), events.nrows(), "time.shape[0] must be equal to events.shape[0]");
''')]),
 ("traj-lt", "alarm", "C29", [(TO, "time.shape()[0] != events.shape()[0]", "time.shape()[0] < events.shape()[0]")]),
 ("ds-windows", "quiet", "C29", [(TO, ANY, '''        for w in trajectories.windows(2) {
            if w[0].get_events().shape()[1] != w[1].get_events().shape()[1] {
                panic!("All the trajectories mus represents the same number of variables");
            }
        }
''')]),
 ("ds-all", "quiet", "C29", [(TO, ANY, '''        if let Some(first) = trajectories.first() {
            let n = first.events.ncols();
            assert!(trajectories.iter().all(|x| x.events.ncols() == n));
        }
''')]),
 ("ds-skip", "quiet", "C29", [(TO, ANY, '''        for t in trajectories.iter().skip(1) {
            if t.events.shape()[1] != trajectories[0].events.shape()[1] { panic!("x"); }
        }
''')]),
 ("ds-last-only", "alarm", "C29", [(TO, ANY, '''        if let Some(l) = trajectories.last() {
            if l.events.shape()[1] != trajectories[0].events.shape()[1] { panic!("x"); }
        }
''')]),
 ("ds-pub", "alarm", "C29", [(TO, "    trajectories: Vec<Trajectory>,\n}", "    pub trajectories: Vec<Trajectory>,\n}")]),
 ("ds-mut", "alarm", "C29", [(TO, "    pub fn get_trajectories(", "    pub fn get_trajectories_mut(&mut self) -> &mut Vec<Trajectory> {\n        &mut self.trajectories\n    }\n    pub fn get_trajectories(")]),
 ("nb-loop", "quiet", "C28", [(RE, NB, '''                let mut max_val: f64 = 1.0;
                for (k2, v2) in absolute_reward.iter() {
                    let mut count_diff = 0;
                    for i in 0..k1.len() {
                        if k1[i] != k2[i] { count_diff += 1; }
                    }
                    if count_diff >= 2 { continue; }
                    let q = v1 / v2;
                    if q > max_val { max_val = q; }
                }
                (k1.clone(), max_val)
''')]),
 ("nb-fold", "quiet", "C28", [(RE, NB, '''                let m = absolute_reward.iter().filter(|(k2, _)| k1.iter().zip(k2.iter()).filter(|(a, b)| a != b).count() <= 1)
                    .map(|(_, v2)| v1 / v2).fold(1.0, f64::max);
                (k1.clone(), m)
''')]),
 ("nb-le2", "alarm", "C28", [(RE, "if count_diff < 2", "if count_diff <= 2")]),
 ("nb-inv", "alarm", "C28", [(RE, "max_val.max(v1 / v2)", "max_val.max(v2 / v1)")]),
 ("nb-init", "alarm", "C28", [(RE, "let mut max_val: f64 = 1.0;", "let mut max_val: f64 = 0.0;")]),
]
