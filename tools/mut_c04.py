P=['C04']
A='engine/src/algo/'
CHP=A+'ch_potentials.rs'; AS=A+'a_star.rs'; CQ=A+'customizable_contraction_hierarchy/query.rs'; Q=A+'ch_potentials/query.rs'; TQ=A+'ch_potentials/td_query.rs'; R=A+'rphast.rs'; CU=A+'catchup.rs'
NN=A+'customizable_contraction_hierarchy/query/nearest_neighbor.rs'; CH=A+'contraction_hierarchy/query.rs'; PE=A+'ch_potentials/penalty.rs'; MOD=A+'mod.rs'; TA=A+'td_astar.rs'
def b(name,*eds,kind='bug',path=None): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,*eds,path=None): return b(name,*eds,kind='ok',path=path)
M=[
b('cchpot-init',('self.init_with_cch_rank(self.cch.node_order().rank(target))','self.init_with_cch_rank(target)'),path=CHP),
b('cchpot-pot-node',('self.potential_with_cch_rank(self.cch.node_order().rank(node))','self.potential_with_cch_rank(self.cch.node_order().node(node))'),path=CHP),
b('chpot-init',('DijkstraInit::from(self.order.rank(target))','DijkstraInit::from(target)'),path=CHP),
b('chpot-pot',('''    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        let node = self.order.rank(node);
        let dist = if let Some(pot) = self.potentials[node as usize].value() {
            pot
        } else {
            self.stack.push(node);

            while let Some(&node) = self.stack.last() {
                if self''','''    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        let dist = if let Some(pot) = self.potentials[node as usize].value() {
            pot
        } else {
            self.stack.push(self.order.rank(node));

            while let Some(&node) = self.stack.last() {
                if self'''),path=CHP),
b('perm-prune',('.prune_backward(NodeIdT(self.order.node(head))','.prune_backward(NodeIdT(head)'),path=AS),
b('perm-init-rank',('self.potential.init(self.order.node(source), self.order.node(target))','self.potential.init(self.order.node(source), target)'),path=AS),
b('perm-raw',('self.potential.backward_potential_raw(self.order.node(node))','self.potential.backward_potential_raw(self.order.rank(node))'),path=AS),
b('cch-to',('        let to = self.customized.cch().node_order().rank(to);\n\n        let fw_graph','        let fw_graph'),path=CQ),
b('rphast-sel',('let node = self.order.rank(node);\n            self.selection_stack.push(node);','self.selection_stack.push(node);'),path=R),
b('rphast-dist',('self.0.restricted_distances[self.1.restricted_ids[self.1.order.rank(node) as usize]','self.0.restricted_distances[self.1.restricted_ids[node as usize]'),path=R),
b('rphast-q',('DijkstraInit::from(selection.order.rank(node))','DijkstraInit::from(node)'),path=R),
b('rphast-sse',('nodes.iter().map(|&node| selection.order.rank(node))','nodes.iter().copied()'),path=R),
b('nn-sel',('targets.iter().map(|&node| self.customized.cch().node_order().rank(node))','targets.iter().copied()'),path=NN),
b('nn-src',('let source = self.customized.cch().node_order().rank(source);',''),path=NN),
b('ch-to',('        let to = self.order.rank(to);\n\n        // init','        // init'),path=CH),
b('ch-path-node',('            *node = self.order.node(*node);','            *node = self.order.rank(*node);'),path=CH),
b('ch-path-skip',('        for node in &mut path {\n            *node','        for node in path.iter_mut().skip(1) {\n            *node'),path=CH),
b('topo-path',('''        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }

        path
    }

    fn edge_path''','''        path
    }

    fn edge_path'''),path=Q),
b('topo-path-cond',('''        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }

        path
    }

    fn edge_path''','''        if path.len() > 2 {
        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }
        }

        path
    }

    fn edge_path'''),path=Q),
b('topo-edge-perm',('''    fn edge_path(&self, mut query: impl GenQuery<Weight>) -> Vec<Ops::PredecessorLink> {
        query.permutate(&self.virtual_topocore.order);''','''    fn edge_path(&self, query: impl GenQuery<Weight>) -> Vec<Ops::PredecessorLink> {'''),path=Q),
b('topo-perm-cond',('''        query.permutate(&self.virtual_topocore.order);

        if !BCC_CORE {
            let order = &self.virtual_topocore.order;''','''        if BCC_CORE {
            query.permutate(&self.virtual_topocore.order);
        }

        if !BCC_CORE {
            let order = &self.virtual_topocore.order;'''),path=Q),
b('td-perm-twice',('''        query.permutate(&self.virtual_topocore.order);
        let mut path''','''        query.permutate(&self.virtual_topocore.order);
        query.permutate(&self.virtual_topocore.order);
        let mut path'''),path=TQ),
b('pred',('''        if (predecessor as usize) < self.virtual_topocore.order.len() {
            self.virtual_topocore.order.node(predecessor)
        } else {
            predecessor
        }''','''        predecessor'''),path=Q),
b('tent',('let rank = self.virtual_topocore.order.rank(node);\n        self.core_search.dijkstra_data.distances[rank as usize]','self.core_search.dijkstra_data.distances[node as usize]'),path=Q),
b('tent-node',('let rank = self.virtual_topocore.order.rank(node);\n        self.core_search.dijkstra_data.distances[rank as usize]','let rank = self.virtual_topocore.order.node(node);\n        self.core_search.dijkstra_data.distances[rank as usize]'),path=TQ),
b('query-perm',('self.to = order.rank(self.to);','self.to = order.node(self.to);'),path=MOD),
k('ok-query-perm',('self.to = order.rank(self.to);','let t = order.rank(self.to);\n        self.to = t;'),path=MOD),
k('ok-path-map',('''        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }

        path
    }

    fn edge_path''','''        let order = &self.virtual_topocore.order;
        path.iter_mut().for_each(|node| *node = order.node(*node));
        path
    }

    fn edge_path'''),path=Q),
k('ok-path-collect',('''        let mut path = self.core_search.dijkstra_data.node_path(query.from(), query.to());

        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }

        path
''','''        let path = self.core_search.dijkstra_data.node_path(query.from(), query.to());
        path.into_iter().map(|rank| self.virtual_topocore.order.node(rank)).collect()
'''),path=Q),
k('ok-path-idx',('''        for node in &mut path {
            *node = self.virtual_topocore.order.node(*node);
        }

        path
    }

    fn edge_path''','''        for i in 0..path.len() {
            path[i] = self.virtual_topocore.order.node(path[i]);
        }

        path
    }

    fn edge_path'''),path=Q),
k('ok-ranks',('let node = self.order.rank(node);\n            self.selection_stack.push(node);','let rank = self.order.ranks()[node as usize];\n            self.selection_stack.push(rank);'),path=R),
k('ok-cch-from',('''        let from = self.customized.cch().node_order().rank(from);
        let to = self.customized.cch().node_order().rank(to);

        let fw_graph''','''        let order = self.customized.cch().node_order();
        let (from, to) = (order.rank(from), order.rank(to));

        let fw_graph'''),path=CQ),
k('ok-nn',('targets.iter().map(|&node| self.customized.cch().node_order().rank(node))','targets.iter().copied().map(|node| { let order = self.customized.cch().node_order(); order.rank(node) })'),path=NN),
k('ok-perm-prune',('''        self.potential
            .prune_forward(NodeIdT(self.order.node(head)), fw_dist_head''','''        let external = self.order.node(head);
        self.potential
            .prune_forward(NodeIdT(external), fw_dist_head'''),path=AS),
k('ok-chpot-init',('''        let mut ops = DefaultOps();
        for _ in DijkstraRun::query(&self.backward, &mut self.dijkstra_data, &mut ops, DijkstraInit::from(self.order.rank(target))) {}
    }

    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        let node = self.order.rank(node);''','''        let mut ops = DefaultOps();
        let target = self.order.rank(target);
        let mut run = DijkstraRun::query(&self.backward, &mut self.dijkstra_data, &mut ops, DijkstraInit::from(target));
        while run.next().is_some() {}
    }

    fn potential(&mut self, external: NodeId) -> Option<Weight> {
        let node = self.order.rank(external);'''),path=CHP),
k('ok-perm-alt',('''        query.permutate(&self.virtual_topocore.order);

        if !BCC_CORE {
            let order = &self.virtual_topocore.order;''','''        let order = &self.virtual_topocore.order;
        query.permutate(order);

        if !BCC_CORE {
            let order = &self.virtual_topocore.order;'''),path=Q),
]
