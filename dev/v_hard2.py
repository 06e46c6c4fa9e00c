"""random streams, and further hard-to-hit changes"""
V = []
SA = "sampling.rs"


def b(n, *eds):
    V.append((n, "alarm", "", list(eds)))


def q(n, *eds):
    V.append((n, "quiet", "", list(eds)))


def e(f, o, n):
    return (f, o, n)


# draws made from a copy of the generator repeat
b("rc-next-copy", (SA, '''        for (idx, val) in self.next_transitions.iter_mut().enumerate() {''', '''        let mut rng = self.rng.clone();
        for (idx, val) in self.next_transitions.iter_mut().enumerate() {'''), (SA, '''                            &mut self.rng,
                        )
                        .unwrap()
                        + self.current_time,''', '''                            &mut rng,
                        )
                        .unwrap()
                        + self.current_time,'''))
b("rc-next-state-copy", (SA, '''                    .get_param_index_network(next_node_transition, &self.current_state),
                &mut self.rng,''', '''                    .get_param_index_network(next_node_transition, &self.current_state),
                &mut self.rng.clone(),'''))
q("rc-next-borrow", (SA, '''        for (idx, val) in self.next_transitions.iter_mut().enumerate() {''', '''        let rng = &mut self.rng;
        for (idx, val) in self.next_transitions.iter_mut().enumerate() {'''), (SA, '''                            &mut self.rng,
                        )
                        .unwrap()
                        + self.current_time,''', '''                            &mut *rng,
                        )
                        .unwrap()
                        + self.current_time,'''))
b("rc-new-fixedstream", (SA, '''            Some(seed) => SeedableRng::seed_from_u64(seed),''', '''            Some(seed) => {
                let mut r = ChaCha8Rng::seed_from_u64(seed);
                r.set_stream(seed);
                r
            }'''))

q("rc-copy-back", (SA, '''        for (idx, val) in self.next_transitions.iter_mut().enumerate() {''', '''        let mut rng = self.rng.clone();
        for (idx, val) in self.next_transitions.iter_mut().enumerate() {'''), (SA, '''                            &mut self.rng,
                        )
                        .unwrap()
                        + self.current_time,''', '''                            &mut rng,
                        )
                        .unwrap()
                        + self.current_time,'''), (SA, '''        //The next node to transition will be''', '''        self.rng = rng;
        //The next node to transition will be'''))
TO = "tools.rs"
b("rc-graph-copy", (TO, "        if let StructureGen", "        let x = 1;")) if False else None
b("rc-graph-copy", (TO, "                    if self.rng.gen_bool(self.density) {", "                    if self.rng.clone().gen_bool(self.density) {"))
b("rc-params-copy", (TO, "                        |_| self.rng.gen(),", "                        |_| self.rng.clone().gen(),"))
b("rc-params-copy2", (TO, "                            self.rng.gen_range(self.interval.clone())", "                            self.rng.clone().gen_range(self.interval.clone())"))
