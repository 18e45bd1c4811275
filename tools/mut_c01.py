P=['C01']
A='engine/src/algo/'
def b(name,path,old,new,kind='bug'): return (name,P,kind,[(A+path,old,new)])
Q='customizable_contraction_hierarchy/query.rs'
M=[
b('dij-reset','dijkstra/generic_dijkstra.rs','        self.distances.reset();\n',''),
b('dij-queue','dijkstra/generic_dijkstra.rs','        self.queue.clear();\n',''),
b('topo-reset','dijkstra/gen_topo_dijkstra.rs','        self.distances.reset();\n',''),
b('cch-tail-reset',Q,'''                    self.walked_nodes += 1;
                    fw_walk.next();
                    fw_walk.reset_distance(fw_node);
                }
                (None,''','''                    self.walked_nodes += 1;
                    fw_walk.next();
                }
                (None,'''),
('cch-break-early2',P,'bug',[(A+Q,'                (Some(fw_node), None) => {\n                    self.walked_nodes += 1;\n                    fw_walk.next();\n                    fw_walk.reset_distance(fw_node);\n                }\n                (None, Some(bw_node)) => {\n                    self.walked_nodes += 1;\n                    bw_walk.next();\n                    bw_walk.reset_distance(bw_node);\n                }\n                (None, None) => break,','                _ => break,')]),
b('cch-skip-reset',Q,'                    fw_walk.reset_distance(node);\n                    bw_walk.reset_distance(node);\n','                    fw_walk.reset_distance(node);\n                    if dist < INFINITY { bw_walk.reset_distance(node); }\n'),
b('cch-wrong-node',Q,'bw_walk.reset_distance(bw_node);','bw_walk.reset_distance(from);'),
b('cchpot-noreset','ch_potentials.rs','        self.potentials.reset();\n',''),
b('cchpot-stack','ch_potentials.rs','        self.path_unpacked.clear();\n',''),
b('bucket-clear','ch_potentials.rs','        self.pot_final.clear();\n',''),
b('bucket-record','ch_potentials.rs','            to_clear.push(node);\n',''),
b('bucket-record-cond','ch_potentials.rs','            to_clear.push(node);\n','            if !dijkstra_data.distances[node as usize].is_empty() { to_clear.push(node); }\n'),
b('bucket-take','ch_potentials.rs','                self.incoming_pruning[node as usize].clear();\n',''),
b('rphast-undo','rphast.rs','            self.restricted_ids[node as usize] = InRangeOption::NONE;\n',''),
b('rphast-trunc','rphast.rs','        self.restricted_head.clear();\n',''),
b('rphast-refill','rphast.rs','''            *dist = INFINITY;
        }
        let mut ops = DefaultOps();''','''            *dist = std::cmp::max(*dist, 0);
        }
        let mut ops = DefaultOps();'''),
b('catchup-lb','catchup.rs','        self.lower_bounds_to_target.reset();\n',''),
b('catchup-rel','catchup.rs','        self.relevant_upward.clear();\n',''),
b('minmax','td_astar.rs','        self.fw_distances.reset();\n',''),
b('mm-metrics','td_astar.rs','        self.current_metrics.clear();\n',''),
b('recyc','td_astar.rs','if self.query != Some((source, target, departure)) {','if self.query.map(|(s, t, _)| (s, t)) != Some((source, target)) {'),
b('sampling','time_dependent_sampling.rs','        self.active_edges.reset();\n',''),
b('nn-drain','customizable_contraction_hierarchy/query/nearest_neighbor.rs','            fw_walk.reset_distance(node);\n',''),
b('dnn-clear','dijkstra/query/nearest_neighbor.rs','        self.targets.clear();\n',''),
# behaviour preserving
b('ok-swap','dijkstra/generic_dijkstra.rs','        self.queue.clear();\n        self.distances.reset();\n','        self.distances.reset();\n        self.queue.clear();\n','ok'),
('ok-helper',P,'ok',[(A+Q,'''    fn distance(&mut self, from: NodeId, to: NodeId) -> Option<Weight> {
        self.walked_nodes = 0;
''','''    fn advance<G: LinkIterable<(NodeIdT, Weight, EdgeIdT)>>(walk: &mut EliminationTreeWalk<G, Vec<Weight>, Vec<(NodeId, EdgeId)>>, node: NodeId) {
        walk.next();
        walk.reset_distance(node);
    }

    fn distance(&mut self, from: NodeId, to: NodeId) -> Option<Weight> {
        self.walked_nodes = 0;
'''),(A+Q,'''                    fw_walk.next();
                    fw_walk.reset_distance(fw_node);
                }
                (Some(fw_node), Some(bw_node)) if fw_node > bw_node => {''','''                    Self::advance(&mut fw_walk, fw_node);
                }
                (Some(fw_node), Some(bw_node)) if fw_node > bw_node => {''')]),
b('ok-rphast-fill','rphast.rs','''        for dist in self.restricted_distances[0..selection.restricted_nodes.len()].iter_mut() {
            *dist = INFINITY;
        }''','''        self.restricted_distances[..selection.restricted_nodes.len()].fill(INFINITY);''','ok'),
b('ok-rphast-idx','rphast.rs','''        for dist in self.restricted_distances[0..selection.restricted_nodes.len()].iter_mut() {
            *dist = INFINITY;
        }''','''        for i in 0..selection.restricted_nodes.len() {
            self.restricted_distances[i] = INFINITY;
        }''','ok'),
b('ok-rphast-while','rphast.rs','''        for node in self.restricted_nodes.drain(..) {
            self.restricted_ids[node as usize] = InRangeOption::NONE;
        }''','''        for i in 0..self.restricted_nodes.len() {
            let node = self.restricted_nodes[i];
            self.restricted_ids[node as usize] = InRangeOption::NONE;
        }
        self.restricted_nodes.clear();''','ok'),
b('ok-rphast-pop','rphast.rs','''        for node in self.restricted_nodes.drain(..) {
            self.restricted_ids[node as usize] = InRangeOption::NONE;
        }''','''        while let Some(node) = self.restricted_nodes.pop() {
            self.restricted_ids[node as usize] = InRangeOption::NONE;
        }''','ok'),
b('ok-bucket-take','ch_potentials.rs','''        for node in self.to_clear.drain(..) {
            self.potentials[node as usize] = None;
        }''','''        for &node in &self.to_clear {
            self.potentials[node as usize] = None;
        }
        self.to_clear.clear();''','ok'),
b('ok-loop-if',Q,'''        loop {
            match (fw_walk.peek(), bw_walk.peek()) {
                (Some(fw_node), Some(bw_node)) if fw_node < bw_node => {''','''        loop {
            let heads = (fw_walk.peek(), bw_walk.peek());
            match heads {
                (Some(fw_node), Some(bw_node)) if bw_node > fw_node => {''','ok'),
('ok-recyc',P,'ok',[(A+'td_astar.rs','''        if self.query != Some((source, target, departure)) {
            self.potential.init(source, target, departure);
            self.query = Some((source, target, departure));
        }''','''        let query = Some((source, target, departure));
        if self.query == query {
            return;
        }
        self.query = query;
        self.potential.init(source, target, departure);''')]),
]
