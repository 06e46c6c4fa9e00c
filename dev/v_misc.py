V = []
BN = "process/ctbn.rs"
TP = "process/ctmp.rs"


def q(n, ids, *e): V.append((n, "quiet", ids, list(e)))
def a(n, ids, *e): V.append((n, "alarm", ids, list(e)))


ACC = '''                    amalgamated_cim[[0, idx_current_state, idx_next_state]] +=
                        p.get_cim().as_ref().unwrap()[[
                            self.get_param_index_network(idx_node, &current_state_statetype),
                            current_state[idx_node],
                            next_node_state,
                        ]];
'''
NXT = '''                    let mut next_state = current_state.clone();
                    next_state[idx_node] = next_node_state;

                    let next_state_statetype: NetworkProcessState =
                        next_state.iter().map(|x| StateType::Discrete(*x)).collect();
                    let idx_next_state = self.get_param_index_from_custom_parent_set(
                        &next_state_statetype,
                        &variables_set,
                    );
'''
FORN = "for next_node_state in 0..variables_domain[idx_node] {"
# quiet
q("am-hoist-u", "", (BN, "                // Add the transition intensities for each possible", "                let u = self.get_param_index_network(idx_node, &current_state_statetype);\n                // Add"), (BN, "self.get_param_index_network(idx_node, &current_state_statetype),", "u,"))
q("am-hoist-cim", "", (BN, "                // Add the transition intensities for each possible", "                let cim = p.get_cim().as_ref().unwrap();\n                // Add"), (BN, "p.get_cim().as_ref().unwrap()[[", "cim[["))
q("am-assign-state", "", (BN, NXT, '''                    let mut next_state_statetype = current_state_statetype.clone();
                    next_state_statetype[idx_node] = StateType::Discrete(next_node_state);
                    let idx_next_state = self.get_param_index_from_custom_parent_set(
                        &next_state_statetype,
                        &variables_set,
                    );
'''))
q("am-nodes-iter", "", (BN, '''            for idx_node in 0..self.nodes.len() {
                let p = match self.get_node(idx_node) {''', '''            for (idx_node, node) in self.nodes.iter().enumerate() {
                let p = match node {'''))
q("am-strides", "", (BN, "        for idx_current_state in 0..state_space {", '''        let mut strides: Vec<usize> = Vec::new();
        let mut acc = 1;
        for d in variables_domain.iter() {
            strides.push(acc);
            acc *= d;
        }
        for idx_current_state in 0..state_space {'''), (BN, NXT, '''                    let idx_next_state = idx_current_state + next_node_state * strides[idx_node]
                        - current_state[idx_node] * strides[idx_node];
                    let _ = &variables_set;
'''))
q("am-collect", "", (BN, "Array1::from_iter(self.nodes.iter().map(|x| x.get_reserved_space_as_parent()));", "self.nodes.iter().map(|x| x.get_reserved_space_as_parent()).collect::<Array1<usize>>();"))
q("am-nodeidx", "", (BN, "for idx_node in 0..self.nodes.len() {\n                let p", "for idx_node in self.get_node_indices() {\n                let p"))
q("am-tmp", "", (BN, ACC, '''                    let q = p.get_cim().as_ref().unwrap()[[
                        self.get_param_index_network(idx_node, &current_state_statetype),
                        current_state[idx_node],
                        next_node_state,
                    ]];
                    let old = amalgamated_cim[[0, idx_current_state, idx_next_state]];
                    amalgamated_cim[[0, idx_current_state, idx_next_state]] = old + q;
'''))
q("am-helper", "", (BN, NXT, '''                    let idx_next_state = self.next_index(&current_state, idx_node, next_node_state, &variables_set);
'''), (BN, "    /// Compute the state for each node given an index", '''    fn next_index(&self, current_state: &Array1<usize>, idx_node: usize, next_node_state: usize, variables_set: &BTreeSet<usize>) -> usize {
        let mut next_state = current_state.clone();
        next_state[idx_node] = next_node_state;
        let st: NetworkProcessState = next_state.iter().map(|x| StateType::Discrete(*x)).collect();
        self.get_param_index_from_custom_parent_set(&st, variables_set)
    }
    /// Compute the state for each node given an index'''))
q("am-unchecked", "", (BN, "amalgamated_param.set_cim(amalgamated_cim).unwrap();", "amalgamated_param.set_cim_unchecked(amalgamated_cim);"))
q("am-swaploops", "", (BN, "for idx_current_state in 0..state_space {", "for idx_current_state in (0..state_space).rev() {"))
q("am-offdiag", "", (BN, ACC, '''                    if next_node_state != current_state[idx_node] {
                        let q = p.get_cim().as_ref().unwrap()[[
                            self.get_param_index_network(idx_node, &current_state_statetype),
                            current_state[idx_node],
                            next_node_state,
                        ]];
                        amalgamated_cim[[0, idx_current_state, idx_next_state]] += q;
                        amalgamated_cim[[0, idx_current_state, idx_current_state]] -= q;
                    }
'''))
# alarms
a("am-assign", "C24", (BN, "amalgamated_cim[[0, idx_current_state, idx_next_state]] +=", "amalgamated_cim[[0, idx_current_state, idx_next_state]] ="))
a("am-transp", "C24", (BN, "amalgamated_cim[[0, idx_current_state, idx_next_state]] +=", "amalgamated_cim[[0, idx_next_state, idx_current_state]] +="))
a("am-nextconf", "C24", (BN, "self.get_param_index_network(idx_node, &current_state_statetype),", "self.get_param_index_network(idx_node, &next_state_statetype),"))
a("am-conf0", "C24", (BN, "self.get_param_index_network(idx_node, &current_state_statetype),", "0,"))
a("am-customconf", "C24", (BN, "self.get_param_index_network(idx_node, &current_state_statetype),", "self.get_param_index_from_custom_parent_set(&current_state_statetype, &self.get_children_set(idx_node)),"))
a("am-skipdiag", "C24", (BN, "                    let mut next_state = current_state.clone();", "                    if next_node_state == current_state[idx_node] && idx_node > 0 { continue; }\n                    let mut next_state = current_state.clone();"))
a("am-shortnodes", "C24", (BN, "for idx_node in 0..self.nodes.len() {", "for idx_node in 0..self.nodes.len().min(5) {"))
a("am-shortdom", "C24", (BN, FORN, "for next_node_state in 0..variables_domain[0] {"))
a("am-noclone", "C24", (BN, "let mut next_state = current_state.clone();", "let mut next_state = current_state.clone();\n                    if idx_node > 1 { next_state[0] = 0; }"))
a("am-decode2", "C04 C24", (BN, "            state = state / var;", "            state = state / variables_domain[0];"))
a("am-set", "C24", (BN, "let variables_set = BTreeSet::from_iter(self.get_node_indices());", "let variables_set = BTreeSet::from_iter(0..self.get_number_of_nodes().min(3));"))
a("am-sum", "C24", (BN, "let state_space = variables_domain.product();", "let state_space = variables_domain.sum();"))
PA, SA, TO, RE, SB, CB = "params.rs", "sampling.rs", "tools.rs", "reward/reward_evaluation.rs", "structure_learning/score_based_algorithm.rs", "structure_learning/constraint_based_algorithm.rs"
# ---- C30
q("ct-iflet", "", (TP, '''        match self.param {
            None => {
                self.param = Some(n);
                Ok(0)
            }
            Some(_) => {
                warn!("A CTMP do not support more than one node");
                Err(process::NetworkError::NodeInsertionError(
                    "CtmpProcess has only one node".to_string(),
                ))
            }
        }''', '''        if self.param.is_some() {
            warn!("A CTMP do not support more than one node");
            return Err(process::NetworkError::NodeInsertionError(
                "CtmpProcess has only one node".to_string(),
            ));
        }
        self.param = Some(n);
        Ok(0)'''))
q("ct-range", "", (TP, '''        match self.param {
            None => 0..0,
            Some(_) => 0..1,
        }''', "        0..self.get_number_of_nodes()"))
q("ct-count", "", (TP, '''        match self.param {
            None => 0,
            Some(_) => 1,
        }''', "        self.param.iter().count()"))
q("ct-assert", "", (TP, '''        if node_idx == 0 {
            self.param.as_ref().unwrap()
        } else {
            unimplemented!("CtmpProcess has only one node")
        }''', '''        assert!(node_idx == 0, "CtmpProcess has only one node");
        self.param.as_ref().unwrap()'''))
q("ct-msg", "", (TP, '"CtmpProcess has only one node".to_string()', 'String::from("only one node is allowed")'))
a("ct-replace", "C30", (TP, '                warn!("A CTMP do not support more than one node");', '                self.param = Some(n);'))
a("ct-index1", "C30", (TP, "                self.param = Some(n);\n                Ok(0)", "                self.param = Some(n);\n                Ok(1)"))
a("ct-accept", "C30", (TP, '''                Err(process::NetworkError::NodeInsertionError(
                    "CtmpProcess has only one node".to_string(),
                ))''', "                Ok(0)"))
a("ct-indices", "C30", (TP, "Some(_) => 0..1,", "Some(_) => 0..2,"))
a("ct-edge", "C30", (TP, '''        warn!("A CTMP cannot have edges");
        unimplemented!("CtmpProcess has only one node")''', '''        warn!("A CTMP cannot have edges");'''))
a("ct-anynode", "C30", (TP, '''        if node_idx == 0 {
            self.param.as_ref().unwrap()
        } else {
            unimplemented!("CtmpProcess has only one node")
        }''', "        let _ = node_idx;\n        self.param.as_ref().unwrap()"))
a("ct-selfparent", "C30", (TP, "                if node == 0 {\n                    BTreeSet::new()", "                if node == 0 {\n                    BTreeSet::from([0])"))
# ---- C31
a("er-kind", "C31", (PA, '''            return Err(ParamsError::ParametersNotInitialized(String::from(
                "CIM not initialized",
            )));''', '''            return Err(ParamsError::InvalidCIM(String::from(
                "CIM not initialized",
            )));'''))
a("er-kind2", "C31", (PA, '''            return Err(ParamsError::InvalidCIM(String::from(
                "The sum of each row must be 0",''', '''            return Err(ParamsError::UnsupportedMethod(String::from(
                "The sum of each row must be 0",'''))
a("er-drawpanic", "C31", (PA, '''                warn!("Cim not initialized for node {}", self.get_label());
                Err(ParamsError::ParametersNotInitialized(String::from(
                    "CIM not initialized",
                )))''', '''                panic!("Cim not initialized for node {}", self.get_label())'''))
a("er-setpanic", "C31", (PA, '                warn!("Validation cim faild for node {}", self.label);', '                assert!(self.domain.len() > 1, "single state");'))
q("er-helper", "", (PA, '''                warn!("Cim not initialized for node {}", self.get_label());
                Err(ParamsError::ParametersNotInitialized(String::from(
                    "CIM not initialized",
                )))''', '''                Err(self.missing())'''), (PA, "impl ParamsTrait for DiscreteStatesContinousTimeParams {", '''impl DiscreteStatesContinousTimeParams {
    fn missing(&self) -> ParamsError {
        warn!("Cim not initialized for node {}", self.label);
        ParamsError::ParametersNotInitialized(String::from("CIM not initialized"))
    }
}

impl ParamsTrait for DiscreteStatesContinousTimeParams {'''))
# ---- C08
RNG = '''        let rng: ChaCha8Rng = match seed {
            //If a seed is present use it to initialize the random generator.
            Some(seed) => SeedableRng::seed_from_u64(seed),
            //Otherwise create a new random generator using the method `from_entropy`
            None => SeedableRng::from_entropy(),
        };'''
q("rp-map", "", (SA, RNG, "        let rng: ChaCha8Rng = seed.map_or_else(SeedableRng::from_entropy, SeedableRng::seed_from_u64);"))
q("rp-helper", "", (SA, RNG, "        let rng = make_rng(seed);"), (SA, "impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {", '''fn fresh_rng() -> ChaCha8Rng {
    SeedableRng::from_entropy()
}

fn make_rng(seed: Option<u64>) -> ChaCha8Rng {
    if let Some(s) = seed {
        return SeedableRng::seed_from_u64(s);
    }
    fresh_rng()
}

impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {'''))
q("rp-draw0", "", (SA, RNG, "        let rng: ChaCha8Rng = SeedableRng::seed_from_u64(seed.unwrap_or_else(rand::random));"))
a("rp-zero", "C08", (SA, "Some(seed) => SeedableRng::seed_from_u64(seed),", "Some(seed) if seed != 0 => SeedableRng::seed_from_u64(seed),\n            Some(_) => SeedableRng::from_entropy(),"))
a("rp-mcnone", "C08", (RE, "ForwardSampler::new(network_process, self.seed.clone(), Some(state.clone()));", "ForwardSampler::new(network_process, if self.max_iterations > 100000 { None } else { self.seed.clone() }, Some(state.clone()));"))
a("rp-tgnone", "C08", (TO, "let mut sampler = ForwardSampler::new(net, seed, None);", "let mut sampler = ForwardSampler::new(net, if n_trajectories > 1000 { None } else { seed }, None);"))
a("rp-thread", "C08", (PA, "let urand: f64 = rng.gen_range(0.0..=1.0);", "let mut urand: f64 = rng.gen_range(0.0..=1.0);\n                if urand == 1.0 { urand = rand::thread_rng().gen(); }"))
a("rp-clock", "C08 C11", (SA, "        self.current_time = 0.0;\n", "        self.current_time = 0.0;\n        if self.net.get_number_of_nodes() > 64 { let _x = std::time::Instant::now(); }\n"))
a("rp-reseed", "C08", (SA, "    fn reset(&mut self) {\n", "    fn reset(&mut self) {\n        if self.current_time > 1e6 { self.rng = SeedableRng::from_entropy(); }\n"))
a("rp-hashsum", "C08", (RE, "let mut max_val: f64 = 1.0;", "let mut max_val: f64 = 1.0;\n                let _tot: f64 = absolute_reward.values().sum();\n                if _tot < -1e300 { max_val = _tot; }"))
a("rp-hashnext", "C08", (RE, "let mut max_val: f64 = 1.0;", "let mut max_val: f64 = 1.0;\n                if absolute_reward.len() > 1000 { max_val = *absolute_reward.values().last().unwrap(); }"))
a("rp-hashacc", "C08", (RE, "max_val = max_val.max(v1 / v2);", "max_val = if v1 / v2 > 1.0 { v1 / v2 } else { max_val };"))
a("rp-env", "C08 C11", (TO, "        net.initialize_adj_matrix();\n        let last", "        net.initialize_adj_matrix();\n        if std::env::var(\"CTBN_SKIP\").is_ok() { return; }\n        let last"))
q("rp-hashkeys", "", (RE, "absolute_reward.iter().for_each(|(k2, v2)| {", "absolute_reward.keys().for_each(|k2| {\n                    let v2 = &absolute_reward[k2];"))
q("rp-hashfor", "", (RE, '''                absolute_reward.iter().for_each(|(k2, v2)| {
                    let count_diff: usize = k1
                        .iter()
                        .zip(k2.iter())
                        .map(|(s1, s2)| if s1 == s2 { 0 } else { 1 })
                        .sum();
                    if count_diff < 2 {
                        max_val = max_val.max(v1 / v2);
                    }
                });''', '''                for (k2, v2) in &absolute_reward {
                    let count_diff: usize = k1
                        .iter()
                        .zip(k2.iter())
                        .map(|(s1, s2)| if s1 == s2 { 0 } else { 1 })
                        .sum();
                    if count_diff < 2 {
                        max_val = max_val.max(v1 / v2);
                    }
                }'''))
# ---- C09
COL = '''                let r = self.evaluate_state(network_process, reward_function, &state);
                (state, r)
            })
            .collect()
'''
q("sc-seq", "", (RE, "            .into_par_iter()\n", ""))
q("sc-minlen", "", (RE, "            .into_par_iter()\n", "            .into_par_iter()\n            .with_min_len(4)\n"), (RE, "use rayon::prelude::{IntoParallelIterator, ParallelIterator};", "use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};"))
q("sc-vec", "", (RE, COL, COL.replace(".collect()", ".collect::<Vec<(process::NetworkProcessState, f64)>>()\n            .into_iter()\n            .collect()")))
q("sc-collectvec", "", (SB, "let mut learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = vec![];", "let mut learned_parent_sets: Vec<(usize, BTreeSet<usize>)> = Vec::new();"))
a("sc-mutex", "C09", (RE, "        // Compute the expected reward for each possible", "        let last = std::sync::Mutex::new(0.0);\n        // Compute the expected reward for each possible"), (RE, "                (state, r)\n            })\n            .collect()", "                let mut l = last.lock().unwrap();\n                let r = if r.is_nan() { *l } else { r };\n                *l = r;\n                (state, r)\n            })\n            .collect()"))
a("sc-atomic", "C09", (RE, "        // Compute the expected reward for each possible", "        let budget = std::sync::atomic::AtomicUsize::new(0);\n        // Compute the expected reward for each possible"), (RE, "                (state, r)\n            })\n            .collect()", "                let k = budget.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                let r = if k > 1000000 { 0.0 } else { r };\n                (state, r)\n            })\n            .collect()"))
a("sc-thread", "C09", (RE, "                (state, r)\n            })\n            .collect()", "                let r = if rayon::current_thread_index() == Some(63) { 0.0 } else { r };\n                (state, r)\n            })\n            .collect()"))
a("sc-any", "C09", (SB, "        //Reset the adj matrix\n", "        let _first = net.get_node_indices().into_par_iter().find_any(|x| *x > 3);\n        //Reset the adj matrix\n"))
a("sc-sum", "C09", (RE, "        // Compute the expected reward for each possible", "        let _z: f64 = (0..n_states).into_par_iter().map(|s| s as f64 * 0.1).sum();\n        // Compute the expected reward for each possible"))
a("sc-mapinit", "C09", (RE, "            .map(|s| {\n                let state: process", "            .map_init(|| <rand_chacha::ChaCha8Rng as rand::SeedableRng>::seed_from_u64(7), |_rng, s| {\n                let state: process"))
a("sc-bridge", "C09", (SB, "learned_parent_sets.par_extend(net.get_node_indices().into_par_iter().map(|node| {", "learned_parent_sets.par_extend(net.get_node_indices().par_bridge().map(|node| {"), (SB, "use rayon::iter::{IntoParallelIterator, ParallelIterator};", "use rayon::iter::{ParallelBridge, ParallelIterator};"))
# ---- C10
a("lg-rng", "C10", (PA, '''                trace!(
                    "Generate random residence time. Node: {} - Time: {}",
                    self.get_label(),
                    ret
                );''', '''                trace!(
                    "Generate random residence time. Node: {} - Time: {}",
                    self.get_label(),
                    rng.gen::<f64>()
                );'''))
a("lg-branch", "C10", (PA, "        self.cim = Some(cim);\n        match", "        self.cim = Some(cim);\n        if !log::log_enabled!(log::Level::Warn) && self.domain.len() > 100 { return Ok(()); }\n        match"))
a("lg-level", "C10", (RE, "        for i in 0..self.max_iterations {", "        let max_it = if log::max_level() >= log::LevelFilter::Trace { self.max_iterations.min(1000) } else { self.max_iterations };\n        for i in 0..max_it {"))
a("lg-count", "C10", (SB, 'info!("Learning node {}", node);', 'let mut k = 0;\n            info!("Learning node {} {}", node, { k += 1; k });\n            if k > 5 { panic!(); }\n            let max_parent_set = max_parent_set + k;'))
a("lg-next", "C10", (RE, 'info!("Evaluating state {:?}", state);', ''), (RE, "        // Initialize the variable required to perform early", '        log::debug!("first {:?}", sampler.next().unwrap().t);\n        // Initialize the variable required to perform early'))
q("lg-guard", "", (RE, 'info!("Evaluating state {:?}", state);', 'if log::log_enabled!(log::Level::Info) { let txt = format!("{:?}", state); info!("Evaluating state {}", txt); }'))
q("lg-more", "", (SB, 'info!("Learning node {}", node);', 'info!("Learning node {} of {}", node, net.get_node_indices().map(|x| x + 1).max().unwrap_or(0));'))
q("lg-none", "", (SB, 'info!("Learning node {}", node);', ''))
# ---- C11
a("io-print", "C11", (PA, '                warn!("Validation cim faild for node {}", self.label);', '                println!("Validation cim faild for node {}", self.label);'))
a("io-dbg", "C11", (RE, "        let normal =", "        if self.max_iterations == 0 { dbg!(state); }\n        let normal ="))
a("io-static", "C11", (TO, "pub trait RandomGraphGenerator {", "static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\npub trait RandomGraphGenerator {"), (TO, "        net.initialize_adj_matrix();\n        let last", "        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        net.initialize_adj_matrix();\n        let last"))
a("io-cell", "C11", (RE, "    inner_reward: RE,\n}", "    inner_reward: RE,\n    hits: std::sync::Mutex<usize>,\n}"), (RE, "NeighborhoodRelativeReward { inner_reward }", "NeighborhoodRelativeReward { inner_reward, hits: Default::default() }"))
a("io-unsafe", "C11", (PA, "        self.domain.len()\n", "        unsafe { std::ptr::read(&self.domain.len()) }\n"))
a("io-file", "C11", (TO, "    Dataset::new(trajectories)\n", "    if n_trajectories > 100000 { let _ = std::fs::write(\"/tmp/ctbn.cache\", \"x\"); }\n    Dataset::new(trajectories)\n"))
a("io-exit", "C11", (TO, "    Dataset::new(trajectories)\n", "    if n_trajectories > 1000000 { std::process::exit(3); }\n    Dataset::new(trajectories)\n"))
a("io-tls", "C11", (TO, "pub trait RandomGraphGenerator {", "thread_local! { static CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0); }\npub trait RandomGraphGenerator {"), (TO, "        net.initialize_adj_matrix();\n        let last", "        CALLS.with(|c| c.set(c.get() + 1));\n        net.initialize_adj_matrix();\n        let last"))
