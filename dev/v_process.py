CB = "process/ctbn.rs"; PA = "params.rs"; CM = "process/ctmp.rs"
RESET = '''        if let Some(network) = &self.adj_matrix {
            for (idx, node) in self.nodes.iter_mut().enumerate() {
                if network.column(idx).iter().any(|x| x > &0) {
                    node.reset_params();
                }
            }
        }'''
INIT = '''        self.reset_conditional_nodes();
        self.adj_matrix = Some(Array2::<u16>::zeros(
            (self.nodes.len(), self.nodes.len()).f(),
        ));'''
ADDN = '''        n.reset_params();
        self.reset_conditional_nodes();
        self.adj_matrix = Option::None;
        self.nodes.push(n);
        Ok(self.nodes.len() - 1)'''
ADDE = '''        if let None = self.adj_matrix {
            self.initialize_adj_matrix();
        }

        if let Some(network) = &mut self.adj_matrix {
            network[[parent, child]] = 1;
            self.nodes[child].reset_params();
        }'''
PIN = '''        self.adj_matrix
            .as_ref()
            .unwrap()
            .column(node)
            .iter()
            .enumerate()
            .fold((0, 1), |mut acc, x| {
                if x.1 > &0 {
                    acc.0 += self.nodes[x.0].state_to_index(&current_state[x.0]) * acc.1;
                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();
                }
                acc
            })
            .0'''
PIC = '''        parent_set
            .iter()
            .fold((0, 1), |mut acc, x| {
                acc.0 += self.nodes[*x].state_to_index(&current_state[*x]) * acc.1;
                acc.1 *= self.nodes[*x].get_reserved_space_as_parent();
                acc
            })
            .0'''
GPS = '''        self.adj_matrix
            .as_ref()
            .unwrap()
            .column(node)
            .iter()
            .enumerate()
            .filter_map(|(idx, x)| if x > &0 { Some(idx) } else { None })
            .collect()'''
I2S = '''        let mut state = state;
        let mut array_state = Array1::zeros(variables_domain.shape()[0]);
        for (idx, var) in variables_domain.indexed_iter() {
            array_state[idx] = state % var;
            state = state / var;
        }

        return array_state;'''
SETCIM = '''        self.cim = Some(cim);
        match self.validate_params() {
            Ok(()) => Ok(()),
            Err(e) => {
                warn!("Validation cim faild for node {}", self.label);
                self.cim = None;
                Err(e)
            }
        }'''
RP = '''        self.cim = Option::None;
        self.transitions = Option::None;
        self.residence_time = Option::None;
    }

    fn get_random_state_uniform'''
DIAG = '''        if cim
            .axis_iter(Axis(0))
            .any(|x| x.diag().iter().any(|x| x >= &0.0))
        {'''
OFF = '''        if cim
            .indexed_iter()
            .any(|((_, row, col), x)| row != col && !(x >= &0.0))
        {'''
SUM = '''        if cim
            .sum_axis(Axis(2))
            .iter()
            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))
        {'''
SHAPE = "if cim.shape()[1] != domain_size || cim.shape()[2] != domain_size {"
NONE_ = '''        if let None = self.cim {
            warn!("Cim not initialized for node {}", self.get_label());
            return Err(ParamsError::ParametersNotInitialized(String::from(
                "CIM not initialized",
            )));
        }
        let cim = self.cim.as_ref().unwrap();'''
V = [
 ("reset-index-loop", "quiet", "", [(CB, RESET, '''        if let Some(network) = &self.adj_matrix {
            for idx in 0..self.nodes.len() {
                let mut has_parent = false;
                for p in 0..network.shape()[0] {
                    if network[[p, idx]] > 0 {
                        has_parent = true;
                    }
                }
                if has_parent {
                    self.nodes[idx].reset_params();
                }
            }
        }''')]),
 ("reset-index-break", "quiet", "", [(CB, RESET, '''        if let Some(network) = &self.adj_matrix {
            for idx in 0..self.nodes.len() {
                for p in 0..network.nrows() {
                    if network[[p, idx]] != 0 {
                        self.nodes[idx].reset_params();
                        break;
                    }
                }
            }
        }''')]),
 ("reset-filter-foreach", "quiet", "", [(CB, RESET, '''        if let Some(network) = self.adj_matrix.as_ref() {
            self.nodes
                .iter_mut()
                .enumerate()
                .filter(|(idx, _)| network.column(*idx).iter().any(|&x| x > 0))
                .for_each(|(_, node)| node.reset_params());
        }''')]),
 ("reset-all-neg", "quiet", "", [(CB, RESET, '''        let network = match &self.adj_matrix {
            Some(n) => n,
            None => return,
        };
        for (idx, node) in self.nodes.iter_mut().enumerate() {
            if network.column(idx).iter().all(|x| *x == 0) {
                continue;
            }
            node.reset_params();
        }''')]),
 ("reset-sum", "quiet", "", [(CB, RESET, '''        if let Some(network) = &self.adj_matrix {
            for (node, col) in self.nodes.iter_mut().zip(network.columns()) {
                if col.iter().any(|x| x > &0) {
                    node.reset_params();
                }
            }
        }''')]),
 ("reset-row", "alarm", "C01", [(CB, "network.column(idx).iter().any(|x| x > &0) {\n                    node", "network.row(idx).iter().any(|x| x > &0) {\n                    node")]),
 ("reset-gt1", "alarm", "C01", [(CB, "network.column(idx).iter().any(|x| x > &0) {\n                    node", "network.column(idx).iter().skip(1).any(|x| x > &0) {\n                    node")]),
 ("reset-skip1", "alarm", "C01", [(CB, "self.nodes.iter_mut().enumerate() {", "self.nodes.iter_mut().enumerate().skip(1) {")]),
 ("reset-all", "alarm", "C01", [(CB, "network.column(idx).iter().any(|x| x > &0) {\n                    node", "network.column(idx).iter().all(|x| x > &0) {\n                    node")]),
 ("init-n", "quiet", "", [(CB, INIT, '''        self.reset_conditional_nodes();
        let n = self.get_number_of_nodes();
        self.adj_matrix = Some(Array2::<u16>::zeros((n, n)));''')]),
 ("init-fromelem", "quiet", "", [(CB, INIT, '''        let n = self.nodes.len();
        self.reset_conditional_nodes();
        let empty: Array2<u16> = Array2::from_elem((n, n), 0);
        self.adj_matrix.replace(empty);''')]),
 ("init-noreset", "alarm", "C01", [(CB, INIT, '''        self.adj_matrix = Some(Array2::<u16>::zeros(
            (self.nodes.len(), self.nodes.len()).f(),
        ));''')]),
 ("init-order", "alarm", "C01", [(CB, INIT, '''        self.adj_matrix = Some(Array2::<u16>::zeros(
            (self.nodes.len(), self.nodes.len()).f(),
        ));
        self.reset_conditional_nodes();''')]),
 ("addn-order", "quiet", "", [(CB, ADDN, '''        self.reset_conditional_nodes();
        self.adj_matrix = None;
        let idx = self.nodes.len();
        n.reset_params();
        self.nodes.push(n);
        Ok(idx)''')]),
 ("addn-take", "quiet", "", [(CB, ADDN, '''        self.reset_conditional_nodes();
        let _ = self.adj_matrix.take();
        self.nodes.push(n);
        let last = self.nodes.len() - 1;
        self.nodes[last].reset_params();
        Ok(last)''')]),
 ("addn-initlen", "alarm", "C01 C02", [(CB, "        n.reset_params();\n        self.reset_conditional_nodes();\n        self.adj_matrix = Option::None;", "        self.reset_conditional_nodes();\n        self.adj_matrix = Option::None;"),(CB,"mut n: Params","n: Params")]),
 ("addn-keepadj", "alarm", "C01 C02", [(CB, "        self.adj_matrix = Option::None;\n", "")]),
 ("addn-order-bad", "alarm", "C01", [(CB, ADDN, '''        n.reset_params();
        self.adj_matrix = Option::None;
        self.reset_conditional_nodes();
        self.nodes.push(n);
        Ok(self.nodes.len() - 1)''')]),
 ("adde-isnone", "quiet", "", [(CB, ADDE, '''        if self.adj_matrix.is_none() {
            self.initialize_adj_matrix();
        }
        let network = self.adj_matrix.as_mut().unwrap();
        network[(parent, child)] = 1;
        self.nodes[child].reset_params();''')]),
 ("adde-order", "quiet", "", [(CB, ADDE, '''        if self.adj_matrix.is_none() {
            self.initialize_adj_matrix();
        }
        self.get_node_mut(child).reset_params();
        if let Some(network) = self.adj_matrix.as_mut() {
            if let Some(cell) = network.get_mut((parent, child)) { *cell = 1; } else { panic!("out of bounds"); }
        }''')]),
 ("adde-helper", "quiet", "", [(CB, ADDE, '''        self.ensure_structure();
        if let Some(network) = &mut self.adj_matrix {
            network[[parent, child]] = 1;
        }
        self.nodes[child].reset_params();'''), (CB, "    /// Get the Adjacency Matrix.", '''    fn ensure_structure(&mut self) {
        match self.adj_matrix {
            Some(_) => (),
            None => process::NetworkProcess::initialize_adj_matrix(self),
        }
    }
    /// Get the Adjacency Matrix.''')]),
 ("adde-onlynew", "alarm", "C01", [(CB, "            network[[parent, child]] = 1;\n            self.nodes[child].reset_params();", "            network[[parent, child]] = 1;\n            self.nodes[parent].reset_params();")]),
 ("adde-cond", "alarm", "C01", [(CB, "            self.nodes[child].reset_params();", "            if parent != 0 { self.nodes[child].reset_params(); }")]),
 ("adde-transposed", "alarm", "C02", [(CB, "network[[parent, child]] = 1;", "network[[child, parent]] = 1;")]),
 ("adde-sym", "alarm", "C02", [(CB, "network[[parent, child]] = 1;", "network[[parent, child]] = 1; network[[child, parent]] = 0;")]),
 ("adde-value2", "quiet", "", [(CB, "network[[parent, child]] = 1;", "network[[parent, child]] = 2;")]),
 ("pin-loop", "quiet", "", [(CB, PIN, '''        let network = self.adj_matrix.as_ref().unwrap();
        let mut index = 0;
        let mut radix = 1;
        for p in 0..self.nodes.len() {
            if network[[p, node]] > 0 {
                index += radix * self.nodes[p].state_to_index(&current_state[p]);
                radix *= self.nodes[p].get_reserved_space_as_parent();
            }
        }
        index''')]),
 ("pin-filter", "quiet", "", [(CB, PIN, '''        let mut acc = (0, 1);
        for (idx, _) in self.adj_matrix.as_ref().unwrap().column(node).iter().enumerate().filter(|(_, x)| **x > 0) {
            let p = &self.nodes[idx];
            acc = (acc.0 + p.state_to_index(&current_state[idx]) * acc.1, acc.1 * p.get_reserved_space_as_parent());
        }
        acc.0''')]),
 ("pin-viaset", "quiet", "", [(CB, PIN, '''        self.get_param_index_from_custom_parent_set(current_state, &self.get_parent_set(node))''')]),
 ("pin-zip", "quiet", "", [(CB, PIN, '''        let col = self.adj_matrix.as_ref().unwrap().column(node);
        let (index, _) = col.iter().zip(self.nodes.iter()).zip(current_state.iter()).fold(
            (0usize, 1usize),
            |(index, radix), ((arc, n), st)| {
                if *arc == 0 {
                    (index, radix)
                } else {
                    (index + n.state_to_index(st) * radix, radix * n.get_reserved_space_as_parent())
                }
            },
        );
        index''')]),
 ("pin-rev", "alarm", "C03", [(CB, "            .enumerate()\n            .fold((0, 1), |mut acc, x| {\n                if x.1", "            .enumerate().rev()\n            .fold((0, 1), |mut acc, x| {\n                if x.1")]),
 ("pin-radix", "alarm", "C03", [(CB, "                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();", "                    acc.1 *= self.nodes[node].get_reserved_space_as_parent();")]),
 ("pin-order", "alarm", "C03", [(CB, '''                    acc.0 += self.nodes[x.0].state_to_index(&current_state[x.0]) * acc.1;
                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();
''', '''                    acc.1 *= self.nodes[x.0].get_reserved_space_as_parent();
                    acc.0 += self.nodes[x.0].state_to_index(&current_state[x.0]) * acc.1;
''')]),
 ("pic-loop", "quiet", "", [(CB, PIC, '''        let mut index = 0;
        let mut radix = 1;
        for &p in parent_set {
            let n = self.get_node(p);
            index += radix * n.state_to_index(&current_state[p]);
            radix *= n.get_reserved_space_as_parent();
        }
        index''')]),
 ("pic-horner", "quiet", "", [(CB, PIC, '''        parent_set.iter().rev().fold(0, |acc, &x| {
            acc * self.nodes[x].get_reserved_space_as_parent() + self.nodes[x].state_to_index(&current_state[x])
        })''')]),
 ("pic-whileiter", "quiet", "", [(CB, PIC, '''        let (mut index, mut radix) = (0, 1);
        let mut it = parent_set.iter();
        while let Some(x) = it.next() {
            index += self.nodes[*x].state_to_index(&current_state[*x]) * radix;
            radix *= self.nodes[*x].get_reserved_space_as_parent();
        }
        index''')]),
 ("pic-pow2", "alarm", "C03", [(CB, "                acc.1 *= self.nodes[*x].get_reserved_space_as_parent();\n                acc\n            })", "                acc.1 *= 2;\n                acc\n            })")]),
 ("gps-loop", "quiet", "", [(CB, GPS, '''        let network = self.adj_matrix.as_ref().unwrap();
        let mut parents = BTreeSet::new();
        for idx in 0..network.nrows() {
            if network[[idx, node]] > 0 {
                parents.insert(idx);
            }
        }
        parents''')]),
 ("gps-filter", "quiet", "", [(CB, GPS, '''        self.get_node_indices()
            .filter(|idx| self.adj_matrix.as_ref().unwrap()[[*idx, node]] != 0)
            .collect()''')]),
 ("gps-indexed", "quiet", "", [(CB, GPS, '''        let network = self.adj_matrix.as_ref().expect("structure");
        network.column(node).indexed_iter().filter(|(_, x)| **x > 0).map(|(i, _)| i).collect::<BTreeSet<usize>>()''')]),
 ("gps-viachildren", "quiet", "", [(CB, GPS, '''        self.get_node_indices()
            .filter(|p| self.get_children_set(*p).contains(&node))
            .collect()''')]),
 ("gps-row", "alarm", "C02", [(CB, ".column(node)\n            .iter()\n            .enumerate()\n            .filter_map", ".row(node)\n            .iter()\n            .enumerate()\n            .filter_map")]),
 ("gps-noself", "alarm", "C02", [(CB, "if x > &0 { Some(idx) } else { None })", "if x > &0 && idx <= node { Some(idx) } else { None })")]),
 ("i2s-map", "quiet", "", [(CB, I2S, '''        let mut rest = state;
        variables_domain.map(|card| {
            let digit = rest % card;
            rest /= card;
            digit
        })''')]),
 ("i2s-vec", "quiet", "", [(CB, I2S, '''        let mut rest = state;
        let mut digits = Vec::with_capacity(variables_domain.len());
        for card in variables_domain.iter() {
            digits.push(rest % card);
            rest /= card;
        }
        Array1::from_vec(digits)''')]),
 ("i2s-weight", "quiet", "", [(CB, I2S, '''        let mut weight = 1;
        let mut array_state = Array1::zeros(variables_domain.len());
        for idx in 0..variables_domain.len() {
            array_state[idx] = (state / weight) % variables_domain[idx];
            weight *= variables_domain[idx];
        }
        array_state''')]),
 ("i2s-sub", "quiet", "", [(CB, I2S, '''        let mut state = state;
        let mut array_state = Array1::zeros(variables_domain.shape()[0]);
        for (idx, var) in variables_domain.iter().enumerate() {
            let quotient = state / *var;
            array_state[idx] = state - quotient * *var;
            state = quotient;
        }
        array_state''')]),
 ("i2s-first", "alarm", "C04", [(CB, "            state = state / var;", "            state = state / variables_domain[0];")]),
 ("setcim-question", "quiet", "", [(PA, SETCIM, '''        self.cim = Some(cim);
        if let Err(e) = self.validate_params() {
            self.cim = None;
            return Err(e);
        }
        Ok(())''')]),
 ("setcim-result", "quiet", "", [(PA, SETCIM, '''        self.set_cim_unchecked(cim);
        let result = self.validate_params();
        if result.is_err() {
            self.cim.take();
        }
        result''')]),
 ("setcim-maperr", "quiet", "", [(PA, SETCIM, '''        self.cim = Some(cim);
        let outcome = self.validate_params();
        match outcome {
            Err(_) => self.cim = None,
            Ok(_) => (),
        };
        outcome''')]),
 ("setcim-restore", "alarm", "C06", [(PA, SETCIM, '''        let old = self.cim.replace(cim);
        match self.validate_params() {
            Ok(()) => Ok(()),
            Err(e) => {
                self.cim = old;
                Err(e)
            }
        }''')]),
 ("setcim-keep", "alarm", "C06", [(PA, "                self.cim = None;\n                Err(e)", "                Err(e)")]),
 ("rp-take", "quiet", "", [(PA, RP, '''        self.cim.take();
        self.transitions.take();
        self.residence_time.take();
    }

    fn get_random_state_uniform''')]),
 ("rp-partial", "alarm", "C01", [(PA, RP, '''        self.cim = Option::None;
        self.transitions = Option::None;
    }

    fn get_random_state_uniform''')]),
 ("val-match", "quiet", "", [(PA, NONE_, '''        let cim = match &self.cim {
            Some(cim) => cim,
            None => return Err(ParamsError::ParametersNotInitialized(String::from("CIM not initialized"))),
        };''')]),
 ("val-letelse", "quiet", "", [(PA, NONE_, '''        let Some(cim) = self.cim.as_ref() else {
            return Err(ParamsError::ParametersNotInitialized(String::from("CIM not initialized")));
        };''')]),
 ("val-okor", "quiet", "", [(PA, NONE_, '''        let cim = self.cim.as_ref().ok_or_else(|| ParamsError::ParametersNotInitialized(String::from("CIM not initialized")))?;''')]),
 ("val-shape-dim", "quiet", "", [(PA, SHAPE, "let (_, rows, cols) = cim.dim();\n        if !(rows == domain_size && cols == domain_size) {")]),
 ("val-shape-lenof", "quiet", "", [(PA, SHAPE, "if cim.len_of(Axis(1)) != domain_size || cim.len_of(Axis(2)) != domain_size {")]),
 ("val-diag-loop", "quiet", "", [(PA, DIAG, '''        let mut bad = false;
        for u in 0..cim.shape()[0] {
            for x in 0..domain_size {
                if cim[[u, x, x]] >= 0.0 {
                    bad = true;
                }
            }
        }
        if bad {''')]),
 ("val-diag-outer", "quiet", "", [(PA, DIAG, '''        if cim.outer_iter().any(|m| (0..domain_size).any(|i| m[[i, i]] >= 0.0)) {''')]),
 ("val-diag-all", "quiet", "", [(PA, DIAG, '''        if !cim.axis_iter(Axis(0)).all(|m| m.diag().iter().all(|x| *x < 0.0)) {''')]),
 ("val-off-all", "quiet", "", [(PA, OFF, '''        if !cim.indexed_iter().all(|((_, row, col), x)| row == col || *x >= 0.0) {''')]),
 ("val-off-loop", "quiet", "", [(PA, OFF, '''        let n_conf = cim.shape()[0];
        if (0..n_conf).any(|u| (0..domain_size).any(|r| (0..domain_size).any(|c| r != c && !(cim[[u, r, c]] >= 0.0)))) {''')]),
 ("val-off-nan", "quiet", "", [(PA, OFF, '''        if cim
            .indexed_iter()
            .any(|((_, row, col), x)| row != col && (x.is_nan() || *x < 0.0))
        {''')]),
 ("val-sum-rows", "quiet", "", [(PA, SUM, '''        let tolerance = f64::EPSILON.sqrt();
        if !cim
            .sum_axis(Axis(2))
            .iter()
            .all(|x| x.abs() <= tolerance)
        {''')]),
 ("val-sum-lanes", "quiet", "", [(PA, SUM, '''        if cim
            .lanes(Axis(2))
            .into_iter()
            .any(|row| !(row.sum().abs() <= f64::EPSILON.sqrt()))
        {''')]),
 ("val-sum-swap", "quiet", "", [(PA, SUM, '''        let sums = cim.sum_axis(Axis(2));
        if sums.iter().any(|x| !(-f64::EPSILON.sqrt() <= *x && *x <= f64::EPSILON.sqrt())) {''')]),
 ("val-helper", "quiet", "", [(PA, DIAG, "        if has_bad_diagonal(cim) {"), (PA, "impl ParamsTrait for DiscreteStatesContinousTimeParams {", '''fn has_bad_diagonal(cim: &Array3<f64>) -> bool {
    for block in cim.axis_iter(Axis(0)) {
        for value in block.diag() {
            if *value >= 0.0 {
                return true;
            }
        }
    }
    false
}

impl ParamsTrait for DiscreteStatesContinousTimeParams {''')]),
 ("val-sum-axis1", "alarm", "C07", [(PA, ".sum_axis(Axis(2))", ".sum_axis(Axis(1))")]),
 ("val-sum-signed", "alarm", "C07", [(PA, "!(f64::abs(x.clone()) <= f64::EPSILON.sqrt())", "!(x.clone() <= f64::EPSILON.sqrt())")]),
 ("val-sum-total", "alarm", "C07", [(PA, ".sum_axis(Axis(2))", ".sum_axis(Axis(2)).sum_axis(Axis(1))")]),
 ("val-diag-gt", "alarm", "C07", [(PA, "any(|x| x >= &0.0))", "any(|x| x > &0.0))")]),
 ("val-diag-axis1", "alarm", "C07", [(PA, ".axis_iter(Axis(0))\n            .any(|x| x.diag()", ".axis_iter(Axis(0)).take(1)\n            .any(|x| x.diag()")]),
 ("val-off-lower", "alarm", "C07", [(PA, "row != col && !(x", "row > col && !(x")]),
 ("val-off-nanok", "alarm", "C07", [(PA, "row != col && !(x >= &0.0)", "row != col && x < &0.0"), (PA, "!(f64::abs(x.clone()) <= f64::EPSILON.sqrt())", "f64::abs(x.clone()) > f64::EPSILON.sqrt()")]),
 ("val-shape-and", "alarm", "C07", [(PA, "!= domain_size || cim", "!= domain_size && cim")]),
]
