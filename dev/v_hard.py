"""Subtle bugs, written from the properties' texts: each must be reported by at least one check."""
import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(__file__), "v_rewrite.py"))
V = _b["V"]
del V[:]
grab = _b["grab"]
SB, CB, HT, SF, BN, TP, PA, PL, SA, TO, RF, RE = (_b[k] for k in ("SB", "CB", "HT", "SF", "BN", "TP", "PA", "PL", "SA", "TO", "RF", "RE"))


def b(n, *e):
    V.append((n, "alarm", "", [(y[0], y[1] if len(y) == 4 else grab(y[0], y[1]), y[2]) for y in e]))


def s(n, f, old, new):
    V.append((n, "alarm", "", [(f, old, new)]))


def sq(n, f, old, new):
    V.append((n, "quiet", "", [(f, old, new)]))


# ---- network
s("hd-init-same", BN, "        self.reset_conditional_nodes();\n        self.adj_matrix = Some(", "        if let Some(m) = &self.adj_matrix {\n            if m.nrows() == self.nodes.len() && m.iter().sum::<u16>() % 2 == 0 {\n                return;\n            }\n        }\n        self.reset_conditional_nodes();\n        self.adj_matrix = Some(")
s("hd-edge-toggle", BN, "            network[[parent, child]] = 1;", "            network[[parent, child]] ^= 1;")
s("hd-edge-acyclic", BN, "            network[[parent, child]] = 1;", "            if network[[child, parent]] == 1 {\n                network[[child, parent]] = 0;\n            }\n            network[[parent, child]] = 1;")
s("hd-edge-nocyc", BN, "            network[[parent, child]] = 1;", "            if network[[child, parent]] == 1 {\n                return;\n            }\n            network[[parent, child]] = 1;")
sq("hq-edge-known", BN, "            network[[parent, child]] = 1;", "            if network[[parent, child]] == 1 {\n                return;\n            }\n            network[[parent, child]] = 1;")
s("hd-edge-resetfirst", BN, "            network[[parent, child]] = 1;\n            self.nodes[child].reset_params();", "            network[[parent, child]] = 1;\n            if network.column(child).sum() == 1 {\n                self.nodes[child].reset_params();\n            }")
s("hd-edge-parentdirty", BN, "            self.nodes[child].reset_params();\n", "            self.nodes[child].reset_params();\n            self.nodes[parent].reset_params();\n")
s("hd-addnode-front", BN, "        self.nodes.push(n);\n        Ok(self.nodes.len() - 1)", "        let at = self.nodes.iter().position(|x| x.get_label() > n.get_label()).unwrap_or(self.nodes.len());\n        self.nodes.insert(at, n);\n        Ok(at)")
s("hd-addnode-dup", BN, "        self.nodes.push(n);\n        Ok(self.nodes.len() - 1)", "        if let Some(i) = self.nodes.iter().position(|x| x.get_label() == n.get_label()) {\n            self.nodes[i] = n;\n            return Ok(i);\n        }\n        self.nodes.push(n);\n        Ok(self.nodes.len() - 1)")
s("hd-reset-two", BN, "if network.column(idx).iter().any(|x| x > &0) {", "if network.column(idx).iter().skip(idx).any(|x| x > &0) || network.column(idx).iter().take(idx).any(|x| x > &1) {")
s("hd-pin-break", BN, "                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();\n                }\n                acc\n            })\n            .0\n    }\n\n    fn get_param_index_from", "                    acc.1 *= self.nodes[node].get_reserved_space_as_parent();\n                }\n                acc\n            })\n            .0\n    }\n\n    fn get_param_index_from")
s("hd-pin-self", BN, "                if x.1 > &0 {", "                if x.1 > &0 && x.0 != node {")
s("hd-pic-skip0", BN, "                acc.0 += self.nodes[*x].state_to_index(&current_state[*x]) * acc.1;\n                acc.1 *= self.nodes[*x].get_reserved_space_as_parent();\n                acc", "                let st = self.nodes[*x].state_to_index(&current_state[*x]);\n                if st == 0 && acc.0 == 0 && acc.1 > 1 {\n                    return acc;\n                }\n                acc.0 += st * acc.1;\n                acc.1 *= self.nodes[*x].get_reserved_space_as_parent();\n                acc")
s("hd-i2s-shift", BN, "            array_state[idx] = state % var;\n            state = state / var;", "            if state == 0 {\n                break;\n            }\n            array_state[idx] = state % var;\n            state = (state - 1) / var;")
s("hd-children-noself", BN, "            .row(node)\n            .iter()\n            .enumerate()\n            .filter_map(|(idx, x)| if x > &0 { Some(idx) } else { None })", "            .row(node)\n            .iter()\n            .enumerate()\n            .filter_map(|(idx, x)| if x > &0 && idx > node { Some(idx) } else { None })")
# ---- amalgamation
s("hd-am-selfonly", BN, "                for next_node_state in 0..variables_domain[idx_node] {", "                for next_node_state in 0..variables_domain[idx_node] {\n                    if next_node_state == current_state[idx_node] && idx_node > 1 {\n                        continue;\n                    }")
s("hd-am-nextconf", BN, "self.get_param_index_network(idx_node, &current_state_statetype),", "self.get_param_index_network(idx_node, &next_state_statetype),")
s("hd-am-rowsum", BN, "        let mut amalgamated_param =", "        for i in 0..state_space {\n            let total: f64 = (0..state_space).filter(|j| *j > i).map(|j| amalgamated_cim[[0, i, j]]).sum();\n            amalgamated_cim[[0, i, i]] = -total;\n        }\n        let mut amalgamated_param =")
# ---- ctmp
s("hd-ct-idxclamp", TP, "                StateType::Discrete(x) => x,", "                StateType::Discrete(x) => x.min(1),")
s("hd-ct-add", TP, "                self.param = Some(n);\n                Ok(0)", "                let mut n = n;\n                if let Err(_) = crate::params::ParamsTrait::validate_params(&n) {\n                    crate::params::ParamsTrait::reset_params(&mut n);\n                }\n                self.param = Some(n);\n                Ok(0)")
# ---- params
s("hd-val-first", PA, "            .axis_iter(Axis(0))\n            .any(|x| x.diag().iter().any(|x| x >= &0.0))", "            .axis_iter(Axis(0))\n            .any(|x| x.diag().iter().all(|x| x >= &0.0))")
sq("hd-val-nan", PA, "row != col && !(x >= &0.0)", "row != col && x < &0.0")
s("hd-val-upper", PA, "row != col && !(x >= &0.0)", "row < col && !(x >= &0.0)")
s("hd-val-rel", PA, "            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))", "            .any(|x| !(f64::abs(x.clone()) <= 0.01))")
s("hd-val-avg", PA, "            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))", "            .any(|x| !(x.clone() <= f64::EPSILON.sqrt()))")
s("hd-val-sumcol", PA, "            .sum_axis(Axis(2))\n            .iter()\n            .any(", "            .sum_axis(Axis(0))\n            .sum_axis(Axis(1))\n            .iter()\n            .any(")
s("hd-setcim-stale", PA, "        self.cim = Some(cim);\n        match self.validate_params() {", "        let old = self.cim.replace(cim);\n        let _keep = old.is_some() && self.transitions.is_some();\n        match if _keep { Ok(()) } else { self.validate_params() } {")
s("hd-setcim-stats", PA, "                self.cim = None;\n                Err(e)", "                self.reset_params();\n                Err(e)")
s("hd-reset-cond", PA, "        self.cim = Option::None;\n        self.transitions = Option::None;\n        self.residence_time = Option::None;\n    }\n\n    fn get_random_state_uniform", "        if self.cim.take().is_some() {\n            self.transitions = Option::None;\n            self.residence_time = Option::None;\n        }\n    }\n\n    fn get_random_state_uniform") if False else None
s("hd-rt-clamp", PA, "                let ret = -x.ln() / lambda;", "                let ret = (-x.ln() / lambda).min(1e6);")
s("hd-rt-u", PA, "                let lambda = cim[[u, state, state]] * -1.0;\n                let x: f64", "                let lambda = cim[[u.min(cim.shape()[0] - 1), state, state]] * -1.0 + if u > 3 { 1.0 } else { 0.0 };\n                let x: f64")
s("hd-gs-skip", PA, "                    if rate > &0.0 {", "                    if rate > &1e-3 {")
s("hd-gs-norm", PA, "                        cumulative_probability += rate / lambda;", "                        cumulative_probability = cumulative_probability + rate / (lambda + f64::EPSILON * idx as f64 * 1e6);")
s("hd-gs-redraw", PA, "                        if cumulative_probability >= urand {", "                        if cumulative_probability >= rng.gen_range(0.0..=urand.max(1e-9)) {")
# ---- sampling
s("hd-s-children", SA, "        for child in self.net.get_children_set(next_node_transition) {\n            self.next_transitions[child] = None;", "        for child in self.net.get_children_set(next_node_transition) {\n            if child > next_node_transition {\n                self.next_transitions[child] = None;\n            }")
s("hd-s-unchanged", SA, "        for child in self.net.get_children_set(next_node_transition) {", "        if self.net.get_children_set(next_node_transition).len() > 4 {\n            return Some(Sample { t: ret_time, state: ret_state });\n        }\n        for child in self.net.get_children_set(next_node_transition) {")
s("hd-s-childconf", SA, "        self.next_transitions[next_node_transition] = None;\n", "        self.next_transitions[next_node_transition] = None;\n        self.current_time = self.current_time.max(ret_time + 1e-9);\n")
s("hd-s-shift", SA, "        self.next_transitions[next_node_transition] = None;\n", "        self.next_transitions[next_node_transition] = None;\n        let moved = self.current_state[next_node_transition] == ret_state[next_node_transition];\n        if moved {\n            self.next_transitions.iter_mut().for_each(|x| *x = None);\n        }\n")
s("hd-s-resetrng", SA, "        self.current_time = 0.0;\n        match", "        self.current_time = 0.0;\n        self.rng.set_word_pos(0);\n        match")
s("hd-s-resetinit", SA, "            Some(is) => self.current_state = is.clone(),\n        };", "            Some(is) => self.current_state = is.clone(),\n        };\n        if self.initial_state.is_none() {\n            self.initial_state = Some(self.current_state.clone());\n        }")
s("hd-s-keeptrans", SA, "        self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();", "        if self.next_transitions.len() != self.net.get_number_of_nodes() || self.initial_state.is_none() {\n            self.next_transitions = self.net.get_node_indices().map(|_| Option::None).collect();\n        }")
s("hd-s-tie", SA, "                        .unwrap()\n                        + self.current_time,", "                        .unwrap()\n                        .max(f64::MIN_POSITIVE * 2.0_f64.powi(900))\n                        + self.current_time,")
# ---- parameter learning
b("hd-ss-reuse", (PL, "    for trj in dataset.get_trajectories().iter() {", '''    let mut idx1 = 0;
    for trj in dataset.get_trajectories().iter() {
        for idx in 0..(trj.get_time().len() - 1) {
            let t1 = trj.get_time()[idx];
            let t2 = trj.get_time()[idx + 1];
            let ev1 = trj.get_events().row(idx);
            let ev2 = trj.get_events().row(idx + 1);
            if idx > 0 || idx1 == 0 {
                idx1 = vector_to_idx.dot(&ev1);
            }
            T[[idx1, ev1[node]]] += t2 - t1;
            if ev1[node] != ev2[node] {
                M[[idx1, ev1[node], ev2[node]]] += 1;
            }
        }
    }'''))
b("hd-ss-acc", (PL, "    for trj in dataset.get_trajectories().iter() {", '''    for trj in dataset.get_trajectories().iter() {
        let mut start = trj.get_time()[0];
        for idx in 0..(trj.get_time().len() - 1) {
            let t2 = trj.get_time()[idx + 1];
            let ev1 = trj.get_events().row(idx);
            let ev2 = trj.get_events().row(idx + 1);
            let idx1 = vector_to_idx.dot(&ev1);
            if ev1[node] != ev2[node] {
                M[[idx1, ev1[node], ev2[node]]] += 1;
                T[[idx1, ev1[node]]] += t2 - start;
                start = t2;
            } else if idx + 2 == trj.get_time().len() {
                T[[idx1, ev1[node]]] += t2 - start;
            }
        }
    }'''))
s("hd-ss-zero", PL, "            T[[idx1, ev1[node]]] += t2 - t1;\n            if ev1[node]", "            if t2 <= t1 {\n                continue;\n            }\n            T[[idx1, ev1[node]]] += t2 - t1;\n            if ev1[node]")
s("hd-ss-parentchg", PL, "            if ev1[node] != ev2[node] {", "            if ev1[node] != ev2[node] && vector_to_idx.dot(&ev2) == idx1 {")
s("hd-ss-dim", PL, "    let node_domain = net.get_node(node.clone()).get_reserved_space_as_parent();\n", "    let node_domain = net.get_node(node.clone()).get_reserved_space_as_parent();\n    let parent_set: &BTreeSet<usize> = &parent_set.iter().filter(|x| **x != node).cloned().collect();\n")
s("hd-mle-zero", PL, ".for_each(|(mut C, m)| C.assign(&(&m / &T)));", ".for_each(|(mut C, m)| C.assign(&(&m / &T.mapv(|t| if t < 1e-2 { 1e-2 } else { t }))));")
s("hd-bay-maxconf", PL, "        let tau: f64 = self.tau as f64 / M.shape()[0] as f64;", "        let tau: f64 = self.tau as f64 / (M.shape()[0] as f64).max(2.0);")
s("hd-bay-states", PL, "        let alpha: f64 = self.alpha as f64 / M.shape()[0] as f64;", "        let alpha: f64 = self.alpha as f64 / (M.shape()[0] * (M.shape()[1] - 1)) as f64;")
s("hd-fit-empty", PL, "        let parent_set = match parent_set {\n            Some(p) => p,", "        let parent_set = match parent_set {\n            Some(p) if p.is_empty() => net.get_parent_set(node),\n            Some(p) => p,")
# ---- tools
s("hd-tg-maxstep", TO, "        while sample.t < t_end {", "        while sample.t < t_end && time.len() < 100_000 {")
s("hd-tg-cap", TO, "            time.push(sample.t);\n", "            if let Some(last) = time.last() {\n                if sample.t == *last {\n                    sample = sampler.next().unwrap();\n                    continue;\n                }\n            }\n            time.push(sample.t);\n")
s("hd-tg-newsampler", TO, "        sampler.reset();\n", "        sampler = ForwardSampler::new(net, seed, None);\n")
s("hd-gg-noacyc", TO, "                    if self.rng.gen_bool(self.density) {", "                    if self.rng.gen_bool(self.density) && !net.get_parent_set(parent).contains(&child) {")
s("hd-gg-maxp", TO, "                    if self.rng.gen_bool(self.density) {", "                    if self.rng.gen_bool(self.density) && net.get_parent_set(child).len() < 5 {")
s("hd-gg-nan", TO, "        if density < 0.0 || density > 1.0 {", "        if density < 0.0 || density >= 1.0 {")
s("hd-gp-skip", TO, "            match &mut net.get_node_mut(node) {", "            if parent_set_state_space_cardinality > 1024 {\n                continue;\n            }\n            match &mut net.get_node_mut(node) {")
s("hd-gp-checked", TO, "                    param.set_cim_unchecked(cim);", "                    if param.get_cim().is_none() {\n                        param.set_cim_unchecked(cim);\n                    }")
s("hd-gp-same", TO, "                    cim.axis_iter_mut(Axis(0)).for_each(|mut x| {", "                    let rate = self.rng.gen_range(self.interval.clone());\n                    cim.axis_iter_mut(Axis(0)).for_each(|mut x| {") if False else None
# ---- structure learning
s("hd-hc-best", SB, "                    if tmp_score < current_score {", "                    if tmp_score < old_score {")
s("hd-hc-nochange", SB, "            while current_score > old_score {\n", "            let mut sweeps = 0;\n            while current_score > old_score && sweeps <= net.get_number_of_nodes() {\n                sweeps += 1;\n")
s("hd-hc-limit", SB, "                    if !is_removed && parent_set.len() < max_parent_set {", "                    if !is_removed && parent_set.len() < max_parent_set.min(10) {")
s("hd-hc-final", SB, "            (node, parent_set)\n", "            if parent_set.len() > max_parent_set / 2 + 3 {\n                let last = *parent_set.iter().next_back().unwrap();\n                parent_set.remove(&last);\n            }\n            (node, parent_set)\n")
s("hd-ca-len", CB, "            match self.cache_persistent_big.get(&parent_set) {", "            match self.cache_persistent_big.get(&parent_set).or(self.cache_persistent_big.values().next()) {")
s("hd-ca-net", CB, "                Some(params) => params.clone(),\n                None => {\n                    let params =\n                        self.parameter_learning\n                            .fit(net, dataset, node, parent_set.clone());\n                    self.cache_persistent_big.insert(parent_set, params.clone());\n                    params", "                Some(params) => params.clone(),\n                None => {\n                    let params =\n                        self.parameter_learning\n                            .fit(net, dataset, node, parent_set.clone());\n                    self.cache_persistent_small.insert(parent_set.clone().map(|x| x.into_iter().skip(1).collect()), params.clone());\n                    self.cache_persistent_big.insert(parent_set, params.clone());\n                    params")
s("hd-ct-cap", CB, "            while separation_set_size < candidate_parent_set.len() {", "            while separation_set_size < candidate_parent_set.len().min(4) {")
s("hd-ct-shared", CB, "                            candidate_parent_set_TMP.remove(parent_node);\n                            break;", "                            candidate_parent_set_TMP.remove(parent_node);\n                            if candidate_parent_set_TMP.len() == separation_set_size {\n                                candidate_parent_set_TMP.insert(*parent_node);\n                            }\n                            break;")
s("hd-ct-noextra", CB, "                        .map(|x| *x)\n                        .combinations(separation_set_size)", "                        .map(|x| *x)\n                        .take(8)\n                        .combinations(separation_set_size)")
s("hd-ht-le", HT, "            .take_while(|x| **x != parent_node)", "            .take_while(|x| **x < parent_node && **x != child_node)")
s("hd-f-dofs", HT, "FisherSnedecor::new(r1[idx], r2[idx])", "FisherSnedecor::new(r2[idx], r1[idx])")
s("hd-x-dof", HT, "ChiSquared::new((X_2.dim() - 1) as f64)", "ChiSquared::new((X_2.dim() * (X_2.dim() - 1)) as f64)")
s("hd-x-skipz", HT, "        X_2.diag_mut().fill(0.0);\n", "        X_2.diag_mut().fill(0.0);\n        X_2.mapv_inplace(|x| if x > 1e3 { 0.0 } else { x });\n")
s("hd-ll-par", SF, "                let tau = self.tau / M.shape()[0] as f64;", "                let tau = self.tau / T.len() as f64;")
s("hd-bic-n", SF, ".map(|x| x.get_time().len() - 1)\n            .sum();", ".map(|x| x.get_time().len() - 1)\n            .max()\n            .unwrap_or(0);")
s("hd-bic-par", SF, "M.shape()[0] * M.shape()[1] * (M.shape()[2] - 1);", "M.shape()[0] * (M.shape()[1] - 1) * M.shape()[2].max(2) + M.shape()[0] * 0;") if False else None
# ---- reward
s("hd-rf-last", RF, "                .find_map(|(idx, (p, c))| -> Option<f64> {", "                .rev()\n                .find_map(|(idx, (p, c))| -> Option<f64> {") if False else None
s("hd-rf-max", RF, "                    if p != c {", "                    if p < c {")
s("hd-sp-lim", RE, "        (0..n_states)\n            .into_par_iter()", "        (0..n_states.min(1 << 16))\n            .into_par_iter()")
s("hd-sp-order", RE, "                        let idx_s = acc.0 % x.len();\n                        acc.1.push(x[idx_s].clone());\n                        acc.0 = acc.0 / x.len();", "                        let idx_s = acc.0 % x.len();\n                        acc.1.push(x[idx_s].clone());\n                        acc.0 = (acc.0 - idx_s) / (x.len().max(2));") if False else None
s("hd-nb-dist", RE, ".map(|(s1, s2)| if s1 == s2 { 0 } else { 1 })\n                        .sum();", ".map(|(s1, s2)| match (s1, s2) {\n                            (params::StateType::Discrete(a), params::StateType::Discrete(b)) => a.max(b) - a.min(b),\n                        })\n                        .sum();")
s("hd-nb-abs", RE, "                        max_val = max_val.max(v1 / v2);", "                        max_val = max_val.max((v1 / v2).abs());")
sq("hd-mc-cut", RE, "                if current.t > self.end_time {", "                if current.t > self.end_time || current.state == previous.state {")
s("hd-mc-var", RE, "(float_i + 1.0) / float_i * (squared_expected_value - expected_value.powi(2));", "float_i / (float_i + 1.0) * (squared_expected_value - expected_value.powi(2));")
s("hd-mc-warm", RE, "            if i > 2 {", "            if i > 0 {") if False else None
s("hd-mc-firstskip", RE, "            while previous.t < self.end_time {", "            let mut steps = 0;\n            while previous.t < self.end_time && steps < 1_000_000 {\n                steps += 1;")
sq("hd-mc-mean", RE, "expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);", "expected_value + (ret - expected_value) / (float_i.max(1.0) + if i == 0 { 0.0 } else { 1.0 }) * if ret.is_finite() { 1.0 } else { 0.0 };")
s("hd-ds-first", TO, "            .any(|x| trajectories[0].get_events().shape()[1] != x.get_events().shape()[1])", "            .any(|x| trajectories[0].get_events().shape()[1] < x.get_events().shape()[1])")
sq("hq-am-rowsum", BN, "        let mut amalgamated_param =", "        for i in 0..state_space {\n            let total: f64 = (0..state_space).filter(|j| *j != i).map(|j| amalgamated_cim[[0, i, j]]).sum();\n            amalgamated_cim[[0, i, i]] = -total;\n        }\n        let mut amalgamated_param =")
