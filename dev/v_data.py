V = []
BN = "process/ctbn.rs"
PA = "params.rs"
TO = "tools.rs"
SA = "sampling.rs"
RF = "reward/reward_function.rs"
SB = "structure_learning/score_based_algorithm.rs"
CB = "structure_learning/constraint_based_algorithm.rs"
HT = "structure_learning/hypothesis_test.rs"
PL = "parameter_learning.rs"


def q(n, ids, *e): V.append((n, "quiet", ids, list(e)))
def a(n, ids, *e): V.append((n, "alarm", ids, list(e)))


# C38
a("da-settrans", "C38", (PA, "        self.transitions = Some(transitions);", "        self.transitions = Some(transitions);\n        if self.domain.len() > 4 { self.residence_time = None; }"))
a("da-setres", "C38", (PA, "        self.residence_time = Some(residence_time);", "        if self.residence_time.is_none() { self.residence_time = Some(residence_time); }"))
a("da-setcim", "C38", (PA, "        debug!(\"Setting cim (unchecked) for node {}\", self.label);\n        self.cim = Some(cim);", "        debug!(\"Setting cim (unchecked) for node {}\", self.label);\n        self.cim = Some(cim);\n        self.transitions = None;"))
a("da-reset", "C38", (PA, "        self.residence_time = Option::None;\n    }", "        if self.transitions.is_some() { self.residence_time = Option::None; }\n    }"))
a("da-resetlabel", "C38", (PA, "        self.residence_time = Option::None;\n    }", "        self.residence_time = Option::None;\n        if self.domain.is_empty() { self.label = String::new(); }\n    }"))
a("da-newcim", "C38", (PA, "            cim: Option::None,", "            cim: if domain.len() == 1 { Some(Array3::zeros((1, 1, 1))) } else { None },"), (PA, "        DiscreteStatesContinousTimeParams {\n            label,\n            domain,", "        let domain = domain;\n        DiscreteStatesContinousTimeParams {\n            label,\n            domain: domain.clone(),"))
a("da-card", "C38", (PA, "    fn get_reserved_space_as_parent(&self) -> usize {\n        self.domain.len()", "    fn get_reserved_space_as_parent(&self) -> usize {\n        self.domain.len().max(2)"))
a("da-getnode", "C38", (BN, "    fn get_node(&self, node_idx: usize) -> &Params {\n        &self.nodes[node_idx]", "    fn get_node(&self, node_idx: usize) -> &Params {\n        &self.nodes[node_idx % self.nodes.len().min(64)]"))
a("da-getnodemut", "C38", (BN, "        &mut self.nodes[node_idx]", "        let i = if node_idx > 64 { node_idx - 1 } else { node_idx };\n        &mut self.nodes[i]"))
a("da-indices", "C38", (BN, "        0..self.nodes.len()", "        0..self.nodes.len().min(65535)"))
a("da-addlabel", "C38", (BN, "        n.reset_params();\n", "        n.reset_params();\n        if self.nodes.len() == 7 { n = self.nodes[0].clone(); }\n"))
a("da-hc", "C38", (SB, "            score_function,\n            max_parent_set,", "            score_function,\n            max_parent_set: max_parent_set.filter(|x| *x > 0),"))
a("da-alpha", "C38", (HT, "    pub fn new(alpha: f64) -> F {\n        F { alpha }", "    pub fn new(alpha: f64) -> F {\n        F { alpha: alpha.min(0.5) }"))
a("da-sti", "C38", (PA, "            StateType::Discrete(val) => val.clone() as usize,", "            StateType::Discrete(val) => (val.clone() as usize).min(self.domain.len() - 1),"))
q("da-some", "", (PA, "        self.transitions = Some(transitions);", "        let _ = self.transitions.replace(transitions);"))
q("da-take", "", (PA, "        self.cim = Option::None;\n        self.transitions = Option::None;\n        self.residence_time = Option::None;", "        let _ = self.cim.take();\n        let _ = self.transitions.take();\n        self.residence_time = Default::default();"))
q("da-self", "", (PA, "        DiscreteStatesContinousTimeParams {\n            label,\n            domain,", "        Self {\n            label,\n            domain,"))
q("da-getopt", "", (BN, "    fn get_node(&self, node_idx: usize) -> &Params {\n        &self.nodes[node_idx]", "    fn get_node(&self, node_idx: usize) -> &Params {\n        self.nodes.get(node_idx).expect(\"no such node\")"))
q("da-getmut", "", (BN, "        &mut self.nodes[node_idx]", "        self.nodes.get_mut(node_idx).unwrap()"))
q("da-range", "", (BN, "        0..self.nodes.len()", "        std::ops::Range { start: 0, end: self.get_number_of_nodes() }"))
# C37
a("ms-sampler", "C37", (SA, "    fn reset(&mut self) {\n", "    fn reset(&mut self) {\n        assert!(self.initial_state.is_some() || self.current_time >= 0.0);\n        assert!(self.net.get_number_of_nodes() < 1000);\n"))
a("ms-next", "C37", (SA, "    fn next(&mut self) -> Option<Self::Item> {\n", "    fn next(&mut self) -> Option<Self::Item> {\n        if self.current_time > 1e6 { panic!(\"too long\"); }\n"))
a("ms-card", "C37", (PA, "    fn get_reserved_space_as_parent(&self) -> usize {\n", "    fn get_reserved_space_as_parent(&self) -> usize {\n        assert!(self.domain.len() < 256, \"too many states\");\n"))
a("ms-call", "C37", (RF, "        let instantaneous_reward: f64", "        assert!(current_state.len() != 1);\n        let instantaneous_reward: f64"))
a("ms-edge", "C37", (BN, "        if let None = self.adj_matrix {\n            self.initialize_adj_matrix();\n        }", "        if let None = self.adj_matrix {\n            self.initialize_adj_matrix();\n        }\n        if self.nodes.len() > 100 { unimplemented!(\"large networks\"); }"))
a("ms-bayes", "C37", (PL, "        let mut CIM: Array3<f64> = Array::zeros((M.shape()[0], M.shape()[1], M.shape()[2]));", "        assert!(M.shape()[0] < 4096);\n        let mut CIM: Array3<f64> = Array::zeros((M.shape()[0], M.shape()[1], M.shape()[2]));"))
q("ms-debugassert", "", (BN, "        &mut self.nodes[node_idx]", "        debug_assert!(node_idx < self.nodes.len());\n        &mut self.nodes[node_idx]"))
q("ms-expect", "", (BN, "    fn get_node(&self, node_idx: usize) -> &Params {\n        &self.nodes[node_idx]", "    fn get_node(&self, node_idx: usize) -> &Params {\n        match self.nodes.get(node_idx) { Some(x) => x, None => panic!(\"no node {}\", node_idx) }"))
q("ms-adjpanic", "", (BN, "    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {\n", "    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {\n        if self.adj_matrix.is_none() { panic!(\"adjacency matrix not initialized\"); }\n"))
