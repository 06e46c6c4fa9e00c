V = []
PA = "params.rs"
def q(n, *e): V.append((n, "quiet", "", list(e)))
def a(n, ids, *e): V.append((n, "alarm", ids, list(e)))
LOOP = '''                let mut cumulative_probability = 0.0;
                let mut next_state = state;
                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
                    if rate > &0.0 {
                        next_state = idx;
                        cumulative_probability += rate / lambda;
                        if cumulative_probability >= urand {
                            break;
                        }
                    }
                }
'''
RES = '''                let lambda = cim[[u, state, state]] * -1.0;
                let x: f64 = rng.gen_range(0.0..=1.0);
                let ret = -x.ln() / lambda;
'''
q("gs-while", (PA, LOOP, '''                let mut cumulative_probability = 0.0;
                let mut next_state = state;
                let mut idx = 0;
                while idx < cim.shape()[2] {
                    let rate = cim[[u, state, idx]];
                    if rate > 0.0 {
                        next_state = idx;
                        cumulative_probability += rate / lambda;
                        if cumulative_probability >= urand {
                            break;
                        }
                    }
                    idx += 1;
                }
'''))
q("gs-range", (PA, LOOP, '''                let mut cumulative_probability = 0.0;
                let mut next_state = state;
                for idx in 0..cim.shape()[2] {
                    let rate = cim[[u, state, idx]];
                    if !(rate > 0.0) {
                        continue;
                    }
                    next_state = idx;
                    cumulative_probability += rate / lambda;
                    if urand <= cumulative_probability {
                        break;
                    }
                }
'''))
q("gs-scale", (PA, LOOP, '''                let threshold = urand * lambda;
                let mut cumulative_rate = 0.0;
                let mut next_state = state;
                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
                    if *rate > 0.0 {
                        next_state = idx;
                        cumulative_rate += rate;
                        if cumulative_rate >= threshold {
                            break;
                        }
                    }
                }
'''))
q("gs-sub", (PA, LOOP, '''                let mut remaining = urand;
                let mut next_state = state;
                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
                    if *rate > 0.0 {
                        next_state = idx;
                        remaining -= rate / lambda;
                        if remaining <= 0.0 {
                            break;
                        }
                    }
                }
'''))
q("gs-done", (PA, LOOP, '''                let mut cumulative_probability = 0.0;
                let mut next_state = state;
                let mut done = false;
                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate() {
                    if !done && *rate > 0.0 {
                        next_state = idx;
                        cumulative_probability += rate / lambda;
                        done = cumulative_probability >= urand;
                    }
                }
'''))
q("gs-filter", (PA, LOOP, '''                let mut cumulative_probability = 0.0;
                let mut next_state = state;
                for (idx, rate) in cim.slice(s![u, state, ..]).iter().enumerate().filter(|(_, r)| **r > 0.0) {
                    next_state = idx;
                    cumulative_probability += rate / lambda;
                    if cumulative_probability >= urand {
                        break;
                    }
                }
'''))
q("gs-helper", (PA, LOOP, '''                let next_state = pick_state(cim.slice(s![u, state, ..]), state, lambda, urand);
'''), (PA, "impl ParamsTrait for DiscreteStatesContinousTimeParams {", '''fn pick_state(rates: ndarray::ArrayView1<f64>, state: usize, lambda: f64, urand: f64) -> usize {
    let mut cumulative_probability = 0.0;
    let mut next_state = state;
    for (idx, rate) in rates.iter().enumerate() {
        if rate > &0.0 {
            next_state = idx;
            cumulative_probability += rate / lambda;
            if cumulative_probability >= urand {
                return idx;
            }
        }
    }
    next_state
}

impl ParamsTrait for DiscreteStatesContinousTimeParams {'''))
q("gs-let", (PA, "                let urand: f64 = rng.gen_range(0.0..=1.0);", "                let lower = 0.0;\n                let urand: f64 = rng.gen_range(lower..=1.0);"))
q("rt-exp", (PA, RES, '''                let rate = -cim[[u, state, state]];
                let x: f64 = rng.gen_range(0.0..=1.0);
                let ret = x.ln() / -rate;
'''))
q("rt-order", (PA, RES, '''                let x: f64 = rng.gen_range(0.0..=1.0);
                let ret = x.ln() / cim[[u, state, state]];
'''))
q("rt-iflet", (PA, '''        match &self.cim {
            Option::Some(cim) => {
                let lambda = cim[[u, state, state]] * -1.0;
                let x: f64''', '''        match self.cim.as_ref() {
            Option::Some(cim) => {
                let lambda = cim[[u, state, state]] * -1.0;
                let x: f64'''))
q("un-bind", (PA, "StateType::Discrete(rng.gen_range(0..(self.domain.len())))", "{ let n = self.get_reserved_space_as_parent(); StateType::Discrete(rng.gen_range(0..n)) }"))
a("un-off", "C14", (PA, "rng.gen_range(0..(self.domain.len()))", "rng.gen_range(0..(self.domain.len() - 1))"))
a("un-one", "C14", (PA, "rng.gen_range(0..(self.domain.len()))", "rng.gen_range(1..=self.domain.len())"))
a("un-incl", "C14", (PA, "rng.gen_range(0..(self.domain.len()))", "rng.gen_range(0..=(self.domain.len()))"))
a("rt-mean", "C14", (PA, "let ret = -x.ln() / lambda;", "let ret = -x.ln() * lambda;"))
a("rt-1m", "C14", (PA, "let ret = -x.ln() / lambda;", "let ret = (1.0 - x) / lambda;"))
a("rt-u0", "C14", (PA, RES, RES.replace("cim[[u, state, state]]", "cim[[0, state, state]]")))
a("rt-log2", "C14", (PA, "let ret = -x.ln() / lambda;", "let ret = -x.log2() / lambda;"))
a("rt-half", "C14", (PA, "let x: f64 = rng.gen_range(0.0..=1.0);\n                let ret", "let x: f64 = rng.gen_range(0.0..=0.5);\n                let ret"))
a("rt-default", "C14", (PA, '''                warn!("Cim not initialized for node {}", self.get_label());
                Err(ParamsError::ParametersNotInitialized(String::from(
                    "CIM not initialized",
                )))
            }
        }
    }

    fn get_random_state(''', '''                warn!("Cim not initialized for node {}", self.get_label());
                Ok(f64::INFINITY)
            }
        }
    }

    fn get_random_state('''))
a("gs-nolam", "C14", (PA, "cumulative_probability += rate / lambda;", "cumulative_probability += rate;"))
a("gs-norate", "C14", (PA, LOOP, LOOP.replace("if rate > &0.0 {", "if idx != state {").replace("rate / lambda", "rate / lambda")))
a("gs-ge0", "C14", (PA, LOOP, LOOP.replace("if rate > &0.0 {", "if rate >= &0.0 {")))
a("gs-u0", "C14", (PA, LOOP, LOOP.replace("s![u, state, ..]", "s![0, state, ..]")))
a("gs-col", "C14", (PA, LOOP, LOOP.replace("s![u, state, ..]", "s![u, .., state]")))
a("gs-lastfirst", "C14", (PA, LOOP, LOOP.replace("                        next_state = idx;\n", "").replace("                            break;", "                            next_state = idx;\n                            break;").replace("let mut next_state = state;", "let mut next_state = 0;")))
a("gs-orig", "C14", (PA, LOOP, '''                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
                    (0, 0.0),
                    |mut acc, ele| {
                        if &acc.1 + ele < urand && ele > &0.0 {
                            acc.0 += 1;
                        }
                        if ele > &0.0 {
                            acc.1 += ele;
                        }
                        acc
                    },
                );

                let next_state = if next_state.0 < state {
                    next_state.0
                } else {
                    next_state.0 + 1
                };
'''))
a("gs-argmax", "C14", (PA, LOOP, LOOP.replace("if cumulative_probability >= urand {", "if cumulative_probability >= 0.5 {")))
TO = "tools.rs"
GG = '''        for parent in 0..last_node_idx {
            for child in 0..last_node_idx {
                if parent != child {
                    if self.rng.gen_bool(self.density) {
                        net.add_edge(parent, child);
                    }
                }
            }
        }
'''
q("gg-continue", (TO, GG, '''        for parent in 0..last_node_idx {
            for child in 0..last_node_idx {
                if parent == child {
                    continue;
                }
                if self.rng.gen_bool(self.density) {
                    net.add_edge(parent, child);
                }
            }
        }
'''))
q("gg-and", (TO, GG, '''        for parent in net.get_node_indices() {
            for child in net.get_node_indices() {
                if parent != child && self.rng.gen_bool(self.density) {
                    net.add_edge(parent, child);
                }
            }
        }
'''))
q("gg-filter", (TO, GG, '''        for parent in 0..last_node_idx {
            for child in (0..last_node_idx).filter(|c| *c != parent) {
                if self.rng.gen_bool(self.density) {
                    net.add_edge(parent, child);
                }
            }
        }
'''))
q("gg-chain", (TO, GG, '''        for parent in 0..last_node_idx {
            for child in (0..parent).chain(parent + 1..last_node_idx) {
                if self.rng.gen_bool(self.density) {
                    net.add_edge(parent, child);
                }
            }
        }
'''))
q("gg-collect", (TO, GG, '''        let mut arcs = Vec::new();
        for parent in 0..last_node_idx {
            for child in 0..last_node_idx {
                if parent != child && self.rng.gen_bool(self.density) {
                    arcs.push((parent, child));
                }
            }
        }
        for (parent, child) in arcs {
            net.add_edge(parent, child);
        }
'''))
q("gg-foreach", (TO, GG, '''        (0..last_node_idx).for_each(|parent| {
            (0..last_node_idx).for_each(|child| {
                if parent != child && self.rng.gen_bool(self.density) {
                    net.add_edge(parent, child);
                }
            })
        });
'''))
q("gg-while", (TO, GG, '''        let mut parent = 0;
        while parent < last_node_idx {
            let mut child = 0;
            while child < last_node_idx {
                if parent != child {
                    if self.rng.gen_bool(self.density) {
                        net.add_edge(parent, child);
                    }
                }
                child += 1;
            }
            parent += 1;
        }
'''))
q("gg-nodes", (TO, "let last_node_idx = net.get_node_indices().len();", "let last_node_idx = net.get_number_of_nodes();"))
q("gn-contains", (TO, "if density < 0.0 || density > 1.0 {", "if !(0.0..=1.0).contains(&density) {"))
q("gn-map", (TO, '''        let rng: ChaCha8Rng = match seed {
            Some(seed) => SeedableRng::seed_from_u64(seed),
            None => SeedableRng::from_entropy(),
        };
        UniformGraphGenerator { density, rng }''', '''        let rng = seed.map_or_else(ChaCha8Rng::from_entropy, ChaCha8Rng::seed_from_u64);
        UniformGraphGenerator { density, rng }'''))
q("gn-assert", (TO, '''        if density < 0.0 || density > 1.0 {
            panic!(
                "Density value must be between 1.0 and 0.0, got {}.",
                density
            );
        }
''', '''        assert!(density >= 0.0 && density <= 1.0, "Density value must be between 1.0 and 0.0, got {}.", density);
'''))
a("gg-upper", "C32", (TO, GG, GG.replace("for child in 0..last_node_idx", "for child in parent..last_node_idx")))
a("gg-short", "C32", (TO, GG, GG.replace("for child in 0..last_node_idx", "for child in 0..last_node_idx - 1")))
a("gg-skip0", "C32", (TO, GG, GG.replace("for parent in 0..last", "for parent in 1..last")))
a("gg-loops", "C32", (TO, GG, GG.replace("parent != child", "parent <= child")))
a("gg-lt", "C32", (TO, GG, GG.replace("parent != child", "parent < child")))
a("gg-noguard", "C32", (TO, GG, GG.replace("parent != child", "true")))
a("gg-dens", "C32", (TO, GG, GG.replace("gen_bool(self.density)", "gen_bool(1.0 - self.density)")))
a("gg-dens2", "C32", (TO, GG, GG.replace("gen_bool(self.density)", "gen_bool(self.density * 0.5)")))
a("gg-onedraw", "C32", (TO, GG, GG.replace("            for child in", "            let present = self.rng.gen_bool(self.density);\n            for child in").replace("if self.rng.gen_bool(self.density)", "if present")))
a("gg-noinit", "C32", (TO, "        net.initialize_adj_matrix();\n        let last_node_idx", "        let last_node_idx"))
a("gg-initlast", "C32", (TO, "        net.initialize_adj_matrix();\n        let last_node_idx", "        if net.get_number_of_nodes() > 1 { net.initialize_adj_matrix(); }\n        let last_node_idx"))
a("gn-hi", "C32", (TO, "density > 1.0", "density > 2.0"))
a("gn-lo", "C32", (TO, "density < 0.0", "density <= 0.0"))
a("gn-seed", "C32", (TO, '''            Some(seed) => SeedableRng::seed_from_u64(seed),
            None => SeedableRng::from_entropy(),
        };
        UniformGraphGenerator''', '''            Some(seed) => SeedableRng::seed_from_u64(seed & 0xffff_ffff),
            None => SeedableRng::from_entropy(),
        };
        UniformGraphGenerator'''))
a("gn-fix", "C32", (TO, '''            Some(seed) => SeedableRng::seed_from_u64(seed),
            None => SeedableRng::from_entropy(),
        };
        UniformGraphGenerator''', '''            Some(seed) => SeedableRng::seed_from_u64(seed),
            None => SeedableRng::seed_from_u64(0),
        };
        UniformGraphGenerator'''))
a("gn-clamp", "C32", (TO, "UniformGraphGenerator { density, rng }", "UniformGraphGenerator { density: density.min(0.9), rng }"))
CIMB = '''                    cim.axis_iter_mut(Axis(0)).for_each(|mut x| {
                        x.diag_mut().fill(0.0);
                        x.div_assign(&x.sum_axis(Axis(1)).insert_axis(Axis(1)));
                        let diag = Array1::<f64>::from_shape_fn(node_domain_cardinality, |_| {
                            self.rng.gen_range(self.interval.clone())
                        });
                        x.mul_assign(&diag.clone().insert_axis(Axis(1)));
                        // Recomputing the diagonal in order to reduce the issues caused by the
                        // loss of precision when validating the parameters.
                        let diag_sum = -x.sum_axis(Axis(1));
                        x.diag_mut().assign(&diag_sum)
                    });
'''
q("gp-for", (TO, CIMB, CIMB.replace("cim.axis_iter_mut(Axis(0)).for_each(|mut x| {", "for mut x in cim.axis_iter_mut(Axis(0)) {").replace("assign(&diag_sum)\n                    });", "assign(&diag_sum);\n                    }")))
q("gp-outer", (TO, CIMB, CIMB.replace("cim.axis_iter_mut(Axis(0)).for_each(|mut x| {", "for mut x in cim.outer_iter_mut() {").replace("assign(&diag_sum)\n                    });", "assign(&diag_sum);\n                    }")))
q("gp-keep", (TO, CIMB, CIMB.replace("x.mul_assign(&diag.clone().insert_axis(Axis(1)));", "x *= &diag.insert_axis(Axis(1));").replace("x.div_assign(&x.sum_axis(Axis(1)).insert_axis(Axis(1)));", "let total = x.sum_axis(Axis(1)).insert_axis(Axis(1));\n                        x /= &total;")))
q("gp-negdiag", (TO, CIMB, CIMB.replace('''                        // Recomputing the diagonal in order to reduce the issues caused by the
                        // loss of precision when validating the parameters.
                        let diag_sum = -x.sum_axis(Axis(1));
                        x.diag_mut().assign(&diag_sum)''', '''                        x.diag_mut().assign(&-&diag)''')))
q("gp-loops", (TO, CIMB, '''                    for u in 0..parent_set_state_space_cardinality {
                        for i in 0..node_domain_cardinality {
                            cim[[u, i, i]] = 0.0;
                        }
                        let totals: Vec<f64> = (0..node_domain_cardinality).map(|i| (0..node_domain_cardinality).map(|j| cim[[u, i, j]]).sum()).collect();
                        for i in 0..node_domain_cardinality {
                            let q: f64 = self.rng.gen_range(self.interval.clone());
                            let mut row = 0.0;
                            for j in 0..node_domain_cardinality {
                                if j != i {
                                    let v = cim[[u, i, j]] / totals[i] * q;
                                    cim[[u, i, j]] = v;
                                    row += v;
                                }
                            }
                            cim[[u, i, i]] = -row;
                        }
                    }
'''))
q("gp-fold", (TO, '''                .iter()
                .map(|x| net.get_node(*x).get_reserved_space_as_parent())
                .product();
            match &mut''', '''                .iter()
                .fold(1, |acc, x| acc * net.get_node(*x).get_reserved_space_as_parent());
            match &mut'''))
q("gp-some", (TO, "for node in net.get_node_indices() {\n            let parent_set_state", "let n = net.get_number_of_nodes();\n        for node in 0..n {\n            let parent_set_state"))
a("gp-noscale", "C33", (TO, CIMB, CIMB.replace("                        x.div_assign(&x.sum_axis(Axis(1)).insert_axis(Axis(1)));\n", "")))
a("gp-axis", "C33", (TO, CIMB, CIMB.replace("x.div_assign(&x.sum_axis(Axis(1)).insert_axis(Axis(1)))", "x.div_assign(&x.sum_axis(Axis(0)).insert_axis(Axis(1)))")))
a("gp-mulcol", "C33", (TO, CIMB, CIMB.replace("x.mul_assign(&diag.clone().insert_axis(Axis(1)))", "x.mul_assign(&diag.clone().insert_axis(Axis(0)))")))
a("gp-diag0", "C33", (TO, CIMB, CIMB.replace("let diag_sum = -x.sum_axis(Axis(1));", "let diag_sum = -x.sum_axis(Axis(0));")))
a("gp-onedraw", "C33", (TO, CIMB, CIMB.replace('''                        let diag = Array1::<f64>::from_shape_fn(node_domain_cardinality, |_| {
                            self.rng.gen_range(self.interval.clone())
                        });
''', '''                        let q: f64 = self.rng.gen_range(self.interval.clone());
                        let diag = Array1::<f64>::from_elem(node_domain_cardinality, q);
''')))
a("gp-nofill", "C33", (TO, CIMB, CIMB.replace("                        x.diag_mut().fill(0.0);\n", "")))
a("gp-pos", "C33", (TO, CIMB, CIMB.replace("let diag_sum = -x.sum_axis", "let diag_sum = x.sum_axis")))
a("gp-end", "C33", (TO, CIMB, CIMB.replace("gen_range(self.interval.clone())", "gen_range(0.0..self.interval.end)")))
a("gp-skiproot", "C33", (TO, "for node in net.get_node_indices() {\n            let parent_set_state", "for node in net.get_node_indices().skip(1) {\n            let parent_set_state"))
a("gp-sum", "C33", (TO, ".map(|x| net.get_node(*x).get_reserved_space_as_parent())\n                .product();", ".map(|x| net.get_node(*x).get_reserved_space_as_parent())\n                .sum();"))
a("gp-children", "C33", (TO, ".get_parent_set(node)\n                .iter()", ".get_children_set(node)\n                .iter()"))
a("gp-bound", "C33", (TO, "if interval.start < 0.0 || interval.end < 0.0 {", "if interval.start < 0.0 && interval.end < 0.0 {"))
a("gp-cond", "C33", (TO, "param.set_cim_unchecked(cim);", "if param.get_cim().is_none() { param.set_cim_unchecked(cim); }"))
a("gp-keepfirst", "C33", (TO, "cim.axis_iter_mut(Axis(0)).for_each(", "cim.axis_iter_mut(Axis(0)).take(4).for_each("))
