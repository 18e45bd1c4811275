P=['C11']
A='engine/src/algo/'
DJ=A+'dijkstra.rs'; Q=A+'ch_potentials/query.rs'; BD=A+'dijkstra/query/bidirectional_dijkstra.rs'; CH=A+'contraction_hierarchy/query.rs'
CCH=A+'customizable_contraction_hierarchy/query.rs'; FL=A+'dijkstra/query/floating_td_dijkstra.rs'; MOD=A+'mod.rs'; TDS=A+'time_dependent_sampling.rs'; TD=A+'dijkstra/query/td_dijkstra.rs'; DQ=A+'dijkstra/query/dijkstra.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
M=[
b('no-reverse',DJ,('        path.reverse();\n\n        path\n    }\n\n    pub fn edge_path','        path\n    }\n\n    pub fn edge_path')),
b('edge-no-reverse',DJ,('            cur = self.predecessors[cur as usize].0;\n        }\n\n        path.reverse();\n','            cur = self.predecessors[cur as usize].0;\n        }\n')),
b('edge-after-step',DJ,('''            path.push(self.predecessors[cur as usize].1);
            cur = self.predecessors[cur as usize].0;''','''            cur = self.predecessors[cur as usize].0;
            path.push(self.predecessors[cur as usize].1);''')),
b('stop-early',DJ,('''        while *path.last().unwrap() != from {
            let next = self.predecessors[*path.last().unwrap() as usize].0;''','''        while *path.last().unwrap() != from {
            let next = self.predecessors[*path.last().unwrap() as usize].0;
            if next == from {
                break;
            }''')),
b('start-from-from',DJ,('let mut path = vec![to];','let mut path = vec![from];')),
b('bidir-edge-cur',Q,('        path.reverse();\n        cur = self.runner.meeting_node;','        path.reverse();\n        cur = query.from();')),
b('bidir-edge-no-reset',Q,('        path.reverse();\n        cur = self.runner.meeting_node;','        path.reverse();')),
b('bidir-edge-bw-ids',Q,('''            path.push(EdgeIdT(
                self.backward_to_forward_edge_ids[self.runner.backward_dijkstra_data.predecessors[cur as usize].1 .0 as usize],
            ));''','''            path.push(self.runner.backward_dijkstra_data.predecessors[cur as usize].1);''')),
b('bidir-edge-fw-mapped',Q,('''            path.push(self.runner.forward_dijkstra_data.predecessors[cur as usize].1);''','''            path.push(EdgeIdT(self.backward_to_forward_edge_ids[self.runner.forward_dijkstra_data.predecessors[cur as usize].1 .0 as usize]));''')),
b('bidir-edge-wrong-map',Q,('self.backward_to_forward_edge_ids[self.runner.backward','self.forward_to_backward_edge_ids[self.runner.backward')),
b('bidir-late-reverse',Q,('''        path.reverse();

        while *path.last().unwrap() != query.to() {
            let next = self.backward_dijkstra_data.predecessors[*path.last().unwrap() as usize].0;
            path.push(next);
        }

        path
    }
}

pub struct MultiT''','''        while *path.last().unwrap() != query.to() {
            let next = self.backward_dijkstra_data.predecessors[*path.last().unwrap() as usize].0;
            path.push(next);
        }

        path.reverse();

        path
    }
}

pub struct MultiT''')),
b('bidir-meeting-twice',BD,('        path.reverse();\n','        path.reverse();\n        path.push(self.meeting_node);\n')),
b('bidir-fw-twice',BD,('let next = self.backward_data.predecessors','let next = self.forward_data.predecessors')),
b('ch-start',CH,('let mut path = vec![from];','let mut path = vec![self.meeting_node];')),
b('ch-order',CH,('''                        unpack_stack.push((middle, head));
                        unpack_stack.push((tail, middle));''','''                        unpack_stack.push((tail, middle));
                        unpack_stack.push((middle, head));''')),
b('ch-tail',CH,('None => path.push(head),','None => path.push(tail),')),
b('ch-arc-rev',CH,('vec![(arc[0], arc[1])]','vec![(arc[1], arc[0])]')),
b('ch-no-reverse',CH,('        ch_path.reverse();\n','')),
b('cch-inverted-self',CCH,('self.bw_parents[parent as usize] = (node, edge);','self.bw_parents[node as usize] = (parent, edge);')),
b('cch-inverted-next-edge',CCH,('self.bw_parents[parent as usize] = (node, edge);','self.bw_parents[parent as usize] = (node, self.fw_parents[parent as usize].1);')),
b('cch-path-meeting',CCH,('let mut path = vec![from];','let mut path = vec![self.meeting_node];')),
b('cch-invert-stop',CCH,('while node != from {','while node != to {')),
b('fl-time-shift',FL,('let t = self.data.distances[next as usize];','let t = self.data.distances[path.last().unwrap().0 as usize];')),
b('fl-time-depart',FL,('let t = self.data.distances[next as usize];','let t = query.departure;')),
b('fl-start-time',FL,('self.data.distances[query.to as usize])];','self.data.distances[query.from as usize])];')),
b('mod-always-some',MOD,('''        if self.distance.is_some() {
            Some(self.path_server.reconstruct_node_path())''','''        if self.distance.is_none() {
            Some(self.path_server.reconstruct_node_path())''')),
b('mod-found-always',MOD,('''        if self.distance.is_some() {
            Some(ConnectedQueryResult(self))
        } else {
            None
        }''','''        Some(ConnectedQueryResult(self))''')),
b('count-nodes',BD,('vec![(); self.reconstruct_node_path().len() - 1]','vec![(); self.reconstruct_node_path().len()]')),
b('ch-inf-some',CH,('            INFINITY => None,\n            dist => Some(dist),','            0 => None,\n            dist => Some(dist),')),
b('bd-inf',BD,('''            INFINITY => None,''','''            0 => None,''')),
b('kept-swapped',TDS,('PathServerWrapper(self, query))','PathServerWrapper(self, TDQuery { from: query.to, to: query.from, departure: query.departure }))')),
b('tds-swap',TDS,('self.dijkstra_data.node_path(query.from, query.to)','self.dijkstra_data.node_path(query.to, query.from)')),
b('tds-edge-swap',TDS,('self.0.dijkstra_data.edge_path(self.1.from, self.1.to)','self.0.dijkstra_data.edge_path(self.1.to, self.1.from)')),
b('dq-swap',DQ,('self.dijkstra.edge_path(query.from(), query.to())','self.dijkstra.edge_path(query.to(), query.from())')),
k('ok-cursor',DJ,('''        let mut path = vec![to];

        while *path.last().unwrap() != from {
            let next = self.predecessors[*path.last().unwrap() as usize].0;
            path.push(next);
        }
''','''        let mut cur = to;
        let mut path = vec![cur];

        while cur != from {
            cur = self.predecessors[cur as usize].0;
            path.push(cur);
        }
''')),
k('ok-loop-break',DJ,('''        while cur != from {
            path.push(self.predecessors[cur as usize].1);
            cur = self.predecessors[cur as usize].0;
        }
''','''        loop {
            if cur == from {
                break;
            }
            let (parent, link) = self.predecessors[cur as usize];
            path.push(link);
            cur = parent;
        }
''')),
k('ok-helper',BD,('''        while *path.last().unwrap() != query.from {
            let next = self.forward_data.predecessors[*path.last().unwrap() as usize].0;
            path.push(next);
        }
''','''        Self::follow(&mut path, &self.forward_data.predecessors, query.from);
'''),('''    fn node_path(&self, query: Query) -> Vec<NodeId> {''','''    fn follow<X>(path: &mut Vec<NodeId>, parents: &[(NodeId, X)], end: NodeId) {
        while *path.last().unwrap() != end {
            let next = parents[*path.last().unwrap() as usize].0;
            path.push(next);
        }
    }

    fn node_path(&self, query: Query) -> Vec<NodeId> {''')),
k('ok-match',MOD,('''        if self.distance.is_some() {
            Some(self.path_server.reconstruct_node_path())
        } else {
            None
        }''','''        self.distance?;
        Some(self.path_server.reconstruct_node_path())''')),
k('ok-map',MOD,('''        if self.distance.is_some() {
            Some(self.path_server.reconstruct_edge_path())
        } else {
            None
        }''','''        match self.distance {
            Some(_) => Some(self.path_server.reconstruct_edge_path()),
            None => None,
        }''')),
k('ok-then',MOD,('''        if self.distance.is_some() {
            Some(ConnectedQueryResult(self))
        } else {
            None
        }''','''        if self.distance.is_none() {
            return None;
        }
        Some(ConnectedQueryResult(self))''')),
k('ok-inf-if',CH,('''        match tentative_distance {
            INFINITY => None,
            dist => Some(dist),
        }''','''        if tentative_distance < INFINITY {
            Some(tentative_distance)
        } else {
            None
        }''')),
k('ok-fl',FL,('''            let next = self.data.predecessors[path.last().unwrap().0 as usize].0;
            let t = self.data.distances[next as usize];
            path.push((next, t));''','''            let (cur, _) = *path.last().unwrap();
            let (next, ()) = self.data.predecessors[cur as usize];
            path.push((next, self.data.distances[next as usize]));''')),
k('ok-cch-tmp',CCH,('''        while node != from {
            let (parent, edge) = self.fw_parents[node as usize];
            self.bw_parents[parent as usize] = (node, edge);
            node = parent;
        }''','''        while node != from {
            let step = self.fw_parents[node as usize];
            let child = node;
            node = step.0;
            self.bw_parents[node as usize] = (child, step.1);
        }''')),
k('ok-arc-count',BD,('vec![(); self.reconstruct_node_path().len() - 1]','{\n            let nodes = self.reconstruct_node_path();\n            vec![(); nodes.len() - 1]\n        }')),
]
