RE = "reward/reward_evaluation.rs"; TO = "tools.rs"
LOOP = '''            while previous.t < self.end_time {
                let current = sampler.next().unwrap();
                if current.t > self.end_time {
                    let r = reward_function.call(&previous.state, None);
                    let discount = match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => self.end_time - previous.t,
                        RewardCriteria::InfiniteHorizon { discount_factor } => {
                            (std::f64::consts::E.powf(-discount_factor * previous.t)
                                - std::f64::consts::E.powf(-discount_factor * self.end_time))
                                / discount_factor
                        }
                    };
                    ret += discount * r.instantaneous_reward;
                } else {
                    let r = reward_function.call(&current.state, Some(&previous.state));
                    let discount = match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => current.t - previous.t,
                        RewardCriteria::InfiniteHorizon { discount_factor } => {
                            (std::f64::consts::E.powf(-discount_factor * previous.t)
                                - std::f64::consts::E.powf(-discount_factor * current.t))
                                / discount_factor
                        }
                    };
                    // Between two transitions the process stays in `previous.state`.
                    ret += discount
                        * reward_function
                            .call(&previous.state, None)
                            .instantaneous_reward;
                    ret += match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => 1.0,
                        RewardCriteria::InfiniteHorizon { discount_factor } => {
                            std::f64::consts::E.powf(-discount_factor * current.t)
                        }
                    } * r.transition_reward;
                }
                previous = current;
            }
'''
LOOP2 = '''            while previous.t < self.end_time {
                let current = sampler.next().unwrap();
                let t_to = current.t.min(self.end_time);
                let w = match self.reward_criteria {
                    RewardCriteria::FiniteHorizon => t_to - previous.t,
                    RewardCriteria::InfiniteHorizon { discount_factor } => {
                        ((-discount_factor * previous.t).exp() - (-discount_factor * t_to).exp()) / discount_factor
                    }
                };
                ret += w * reward_function.call(&previous.state, None).instantaneous_reward;
                if current.t <= self.end_time {
                    let d = match self.reward_criteria {
                        RewardCriteria::FiniteHorizon => 1.0,
                        RewardCriteria::InfiniteHorizon { discount_factor } => (-discount_factor * current.t).exp(),
                    };
                    ret += d * reward_function.call(&current.state, Some(&previous.state)).transition_reward;
                }
                previous = current;
            }
'''
LOOP3 = LOOP.replace("previous.t", "prev_t").replace("&previous.state", "&prev_state").replace("previous = current;", "prev_t = current.t;\n                prev_state = current.state;")
STATS = '''            expected_value =
                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
'''
SPACE = '''                let state: process::NetworkProcessState = variables_domain
                    .iter()
                    .fold((s, vec![]), |acc, x| {
                        let mut acc = acc;
                        let idx_s = acc.0 % x.len();
                        acc.1.push(x[idx_s].clone());
                        acc.0 = acc.0 / x.len();
                        acc
                    })
                    .1;
'''
TRAJ = '''        while sample.t < t_end {
            time.push(sample.t);
            events.push(sample.state);
            sample = sampler.next().unwrap();
        }
'''
V = [
 ("mc-min", "quiet", "C26", [(RE, LOOP, LOOP2)]),
 ("mc-split-prev", "quiet", "C26", [(RE, "let mut previous = sampler.next().unwrap();", "let first = sampler.next().unwrap();\n            let mut prev_t = first.t;\n            let mut prev_state = first.state;"), (RE, LOOP, LOOP3)]),
 ("mc-mean-delta", "quiet", "C26", [(RE, STATS, "            expected_value += (ret - expected_value) / (float_i + 1.0);\n")]),
 ("mc-ge", "quiet", "C26", [(RE, "if current.t > self.end_time {", "if current.t >= self.end_time {")]),
 ("mc-i-ge-3", "quiet", "C26", [(RE, "if i > 2 {", "if i >= 3 {")]),
 ("mc-var-helper", "quiet", "C26", [(RE, '''                let var =
                    (float_i + 1.0) / float_i * (squared_expected_value - expected_value.powi(2));
''', '''                let n = float_i + 1.0;
                let var = (squared_expected_value - expected_value * expected_value) * n / (n - 1.0);
''')]),
 ("mc-reset-late", "quiet", "C26", [(RE, "            sampler.reset();\n            let mut ret", "            let mut ret"), (RE, "            // Evaluate the early stopping hypothesis test .\n", "            sampler.reset();\n")]),
 ("mc-no-reset", "alarm", "C26", [(RE, "            sampler.reset();\n            let mut ret", "            let mut ret")]),
 ("mc-mean-off", "alarm", "C26", [(RE, "expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);", "expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 2.0);")]),
 ("mc-state-cur", "alarm", "C26", [(RE, ".call(&previous.state, None)\n                            .instantaneous_reward;", ".call(&current.state, None)\n                            .instantaneous_reward;")]),
 ("mc-no-disc-trans", "alarm", "C26", [(RE, "std::f64::consts::E.powf(-discount_factor * current.t)\n                        }\n                    } * r", "std::f64::consts::E.powf(-discount_factor * previous.t)\n                        }\n                    } * r")]),
 ("mc-final-cur", "alarm", "C26", [(RE, "RewardCriteria::FiniteHorizon => self.end_time - previous.t,", "RewardCriteria::FiniteHorizon => current.t - previous.t,")]),
 ("mc-stop-1", "alarm", "C26", [(RE, "if i > 2 {", "if i > 1 {")]),
 ("mc-stop-one-sided", "alarm", "C26", [(RE, "- 2.0 * normal.cdf(", "- normal.cdf(")]),
 ("mc-seed", "alarm", "C26", [(RE, "ForwardSampler::new(network_process, self.seed.clone(), Some(state.clone()))", "ForwardSampler::new(network_process, None, Some(state.clone()))")]),
 ("mc-init-none", "alarm", "C26", [(RE, "ForwardSampler::new(network_process, self.seed.clone(), Some(state.clone()))", "ForwardSampler::new(network_process, self.seed.clone(), None)")]),
 ("mc-new-swap", "alarm", "C26", [(RE, "            max_err_stop,\n            alpha_stop,\n            end_time,\n            reward", "            max_err_stop: alpha_stop,\n            alpha_stop: max_err_stop,\n            end_time,\n            reward")]),
 ("sp-loop", "quiet", "C27", [(RE, SPACE, '''                let mut rest = s;
                let mut state: process::NetworkProcessState = Vec::with_capacity(variables_domain.len());
                for d in &variables_domain {
                    state.push(d[rest % d.len()].clone());
                    rest /= d.len();
                }
''')]),
 ("sp-rev", "quiet", "C27", [(RE, SPACE, '''                let mut rest = s;
                let mut state: process::NetworkProcessState = variables_domain.iter().map(|d| d[0].clone()).collect();
                for i in (0..variables_domain.len()).rev() {
                    let d = &variables_domain[i];
                    state[i] = d[rest % d.len()].clone();
                    rest /= d.len();
                }
''')]),
 ("sp-stride", "quiet", "C27", [(RE, SPACE, '''                let state: process::NetworkProcessState = (0..variables_domain.len()).map(|i| {
                    let stride: usize = variables_domain[..i].iter().map(|d| d.len()).product();
                    params::StateType::Discrete((s / stride) % variables_domain[i].len())
                }).collect();
''')]),
 ("sp-seq", "quiet", "C27", [(RE, "            .into_par_iter()\n", "            .into_iter()\n")]),
 ("sp-range1", "alarm", "C27", [(RE, "(0..n_states)\n", "(1..n_states)\n")]),
 ("sp-wrongdiv", "alarm", "C27", [(RE, "acc.0 = acc.0 / x.len();", "acc.0 = acc.0 / variables_domain[0].len();")]),
 ("sp-state0", "alarm", "C27", [(RE, "self.evaluate_state(network_process, reward_function, &state);\n                (state, r)", "self.evaluate_state(network_process, reward_function, &state);\n                let mut state = state; state.reverse();\n                (state, r)")]),
 ("tg-pair", "quiet", "C15", [(TO, TRAJ, '''        let mut pairs: Vec<(f64, process::NetworkProcessState)> = Vec::new();
        while sample.t < t_end {
            pairs.push((sample.t, sample.state));
            sample = sampler.next().unwrap();
        }
        for (t, e) in pairs { time.push(t); events.push(e); }
''')]),
 ("tg-helper", "quiet", "C15", [(TO, TRAJ, '''        while sample.t < t_end {
            sample = record(sample, &mut time, &mut events, &mut sampler);
        }
'''), (TO, "pub fn trajectory_generator<", '''fn record<T: process::NetworkProcess>(s: crate::sampling::Sample, time: &mut Vec<f64>, events: &mut Vec<process::NetworkProcessState>, sampler: &mut ForwardSampler<T>) -> crate::sampling::Sample {
    time.push(s.t);
    events.push(s.state);
    sampler.next().unwrap()
}
pub fn trajectory_generator<''')]),
 ("tg-array-fn", "quiet", "C15", [(TO, '''            Array2::from_shape_vec(
                (events.len(), events.last().unwrap().len()),
                events
                    .iter()
                    .flatten()
                    .map(|x| match x {
                        params::StateType::Discrete(x) => x.clone(),
                    })
                    .collect(),
            )
            .unwrap(),
''', '''            Array2::from_shape_fn((events.len(), events[0].len()), |(i, j)| match events[i][j] {
                params::StateType::Discrete(x) => x,
            }),
''')]),
 ("tg-le", "quiet", "C15", [(TO, "while sample.t < t_end {", "while sample.t <= t_end {")]),
 ("tg-time-twice", "alarm", "C15", [(TO, "        events.push(current_state);\n", "        events.push(current_state.clone());\n        time.push(t_end);\n        events.push(current_state);\n")]),
 ("tg-first", "alarm", "C15", [(TO, "events.last().unwrap().clone()", "events.first().unwrap().clone()")]),
 ("tg-last-sample", "alarm", "C15", [(TO, "let current_state = events.last().unwrap().clone();", "let current_state = sample.state.clone();")]),
 ("tg-noreset", "alarm", "C15", [(TO, "        sampler.reset();\n", "")]),
 ("tg-seed", "alarm", "C15", [(TO, "ForwardSampler::new(net, seed, None)", "ForwardSampler::new(net, seed.map(|x| x + 1), None)")]),
 ("tg-count", "alarm", "C15", [(TO, "for _ in 0..n_trajectories {", "for _ in 1..n_trajectories {")]),
 ("tg-half", "alarm", "C15", [(TO, "while sample.t < t_end {", "while sample.t < t_end / 2.0 {")]),
]
