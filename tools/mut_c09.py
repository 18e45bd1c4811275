P=['C09']
A='engine/src/algo/'
CU=A+'customizable_contraction_hierarchy/customization.rs'; CM=A+'customizable_contraction_hierarchy/mod.rs'; CQ=A+'customizable_contraction_hierarchy/query.rs'
CH=A+'contraction_hierarchy/mod.rs'; HQ=A+'contraction_hierarchy/query.rs'; CP=A+'ch_potentials.rs'; AL=A+'alt.rs'; DI=A+'customizable_contraction_hierarchy/customization/directed.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
M=[
b('cu-prep-swap',CU,('downward_weights.par_iter_mut().zip(cch.backward_cch_edge_to_orig_arc().par_iter());','downward_weights.par_iter_mut().zip(cch.forward_cch_edge_to_orig_arc().par_iter());')),
b('cu-basic-wrong-down',CU,('let triang_weight = upward_weight + first_down_weight;','let triang_weight = upward_weight + first_up_weight;')),
b('cu-basic-unpack-swap',CU,('downward_unpack.1 = node_incoming_weights[node as usize].2;','downward_unpack.1 = node_outgoing_weights[node as usize].2;')),
b('cu-basic-writeback-swap',CU,('*downward_weight = node_incoming_weights[node as usize].0;','*downward_weight = node_outgoing_weights[node as usize].0;')),
b('cu-basic-init-swap',CU,('node_outgoing_weights[node as usize] = (up_weight,','node_outgoing_weights[node as usize] = (down_weight,')),
b('cu-perfect-wrong-dir',CU,('(*upward.add(other_edge_id as usize)) + (*downward.add(shortcut_edge_id as usize));','(*upward.add(other_edge_id as usize)) + (*upward.add(shortcut_edge_id as usize));')),
b('cu-perfect-flag-wrong',CU,('*down_mod.add(edge_id as usize) = true;','*up_mod.add(edge_id as usize) = true;')),
b('cu-perfect-flag-always',CU,('''                                    *up_mod.add(edge_id as usize) = true;
                                }''','''                                }
                                *up_mod.add(edge_id as usize) = true;''')),
b('cu-perfect-return-swap',CU,('    (upward_modified, downward_modified)\n','    (downward_modified, upward_modified)\n')),
b('cu-rebuild-args',CU,('rebuild_customized_perfect(customized, &upward_modified, &downward_modified)','rebuild_customized_perfect(customized, &downward_modified, &upward_modified)')),
b('cu-rebuild-map',CU,('''                *down = InRangeOption::new(down.value().map(|idx| backward_id_mapping[idx as usize] as EdgeId));
                *up''','''                *down = InRangeOption::new(down.value().map(|idx| forward_id_mapping[idx as usize] as EdgeId));
                *up''')),
b('cu-rebuild-weight',CU,('local_bw_weight[bw_edge_count] = link.weight;','local_bw_weight[fw_edge_count] = link.weight;')),
b('cu-rebuild-split',CU,('forward_mapping.split_at_mut(num_cch_fw_edges_in_batch as usize)','forward_mapping.split_at_mut(num_cch_bw_edges_in_batch as usize)')),
b('cu-mapping-part',CM,('original_graph.edge_indices(order.node(neighbor), order.node(node))','original_graph.edge_indices(order.node(node), order.node(neighbor))')),
b('cm-unpack-wrong',CM,('        let (down, up) = self.down_unpacking[edge as usize];','        let (up, down) = self.down_unpacking[edge as usize];')),
b('cm-unpack-dir',CM,('''    fn unpack_incoming(&self, EdgeIdT(edge): EdgeIdT) -> Option<(EdgeIdT, EdgeIdT, NodeIdT)> {
        let (down, up) = self.down_unpacking[edge as usize];''','''    fn unpack_incoming(&self, EdgeIdT(edge): EdgeIdT) -> Option<(EdgeIdT, EdgeIdT, NodeIdT)> {
        let (down, up) = self.up_unpacking[edge as usize];''')),
b('cm-unpack-tail',CM,('NodeIdT(self.backward_tail()[down as usize])','NodeIdT(self.forward_tail()[down as usize])')),
b('cm-graph-swap',CM,('FirstOutGraph::new(self.cch.backward_first_out(), self.cch.backward_head(), &self.downward)','FirstOutGraph::new(self.cch.backward_first_out(), self.cch.backward_head(), &self.upward)')),
b('cm-tail',CM,('''    fn backward_tail(&self) -> &[NodeId] {
        &self.backward_tail
    }
    fn unpack''','''    fn backward_tail(&self) -> &[NodeId] {
        &self.forward_tail
    }
    fn unpack''')),
b('cm-unpack-arc-swap',CM,('let mut current_iter = backward_inverted.link_iter(from).peekable();\n    let mut other_iter = forward_inverted.link_iter(to)','let mut current_iter = backward_inverted.link_iter(to).peekable();\n    let mut other_iter = forward_inverted.link_iter(from)')),
b('cm-unpack-arc-le',CM,('downward[edge_from_first_id as usize] + upward[edge_from_second_id as usize] == weight','downward[edge_from_first_id as usize] + upward[edge_from_second_id as usize] >= weight')),
b('cq-unpack-swap-parts',CQ,('parents[current as usize] = (middle, down);\n                parents[middle as usize] = (pred, up);','parents[current as usize] = (middle, up);\n                parents[middle as usize] = (pred, down);')),
b('cq-unpack-cmp',CQ,('let unpacked = if pred > current {','let unpacked = if pred < current {')),
b('ch-insert-swap',CH,('let in_result = self.nodes[(to - self.id_offset) as usize].insert_or_decrease_incoming(from, weight, over);','let in_result = self.nodes[(from - self.id_offset) as usize].insert_or_decrease_incoming(to, weight, over);')),
b('ch-weight-only-in',CH,('subgraph.insert_or_decrease(from, to, from_wght + to_wght, middle_node_id);','subgraph.insert_or_decrease(from, to, from_wght.max(to_wght), middle_node_id);')),
b('ch-witness-weight',CH,('subgraph.shortcut_required(from, to, from_wght + to_wght, data);','subgraph.shortcut_required(from, to, to_wght + to_wght, data);')),
b('ch-witness-le',CH,('Some(length) if length < shortcut_weight => false','Some(length) if length < shortcut_weight + 1000 => false')),
b('ch-witness-swapped-ends',CH,('server.distance_with_cap(from - self.id_offset, to - self.id_offset, shortcut_weight','server.distance_with_cap(to - self.id_offset, from - self.id_offset, shortcut_weight')),
b('ch-keeps-removed-out',CH,('            self.nodes[(to - self.id_offset) as usize].remove_incmoing(self.id_offset - 1);','            if to > self.id_offset { self.nodes[(to - self.id_offset) as usize].remove_incmoing(self.id_offset - 1); }')),
b('ch-skip-light',CH,('                    if shortcut_required {','                    if shortcut_required && from_wght + to_wght < 1_000_000 {')),
b('hq-stack-order',HQ,('unpack_stack.push((middle, head));\n                        unpack_stack.push((tail, middle));','unpack_stack.push((tail, middle));\n                        unpack_stack.push((middle, head));')),
b('hq-low-high',HQ,('(&self.backward, backward_middle_nodes, head, tail)','(&self.backward, forward_middle_nodes, head, tail)')),
b('al-one-swap',AL,('            landmark_forward_distances: &self.landmark_backward_distances,\n            landmark_backward_distances: &self.landmark_forward_distances,','            landmark_forward_distances: &self.landmark_backward_distances,\n            landmark_backward_distances: &self.landmark_backward_distances,')),
b('cp-one-swap',CP,('            backward_cch_graph: self.customized.forward_graph(),','            backward_cch_graph: self.customized.backward_graph(),')),
# behaviour kept
k('ok-sum-order',CU,('let triang_weight = upward_weight + first_down_weight;','let triang_weight = first_down_weight + upward_weight;')),
k('ok-perfect-helper',CU,('''                                let relax_weight = (*downward.add(edge_id as usize)) + (*downward.add(shortcut_edge_id as usize));
                                let edge_weight = downward.add(other_edge_id as usize);
                                if relax_weight < *edge_weight {
                                    *edge_weight = relax_weight;
                                    *down_mod.add(other_edge_id as usize) = true;
                                }''','''                                let first_part = *downward.add(shortcut_edge_id as usize);
                                let relax_weight = first_part + (*downward.add(edge_id as usize));
                                let edge_weight = downward.add(other_edge_id as usize);
                                if *edge_weight > relax_weight {
                                    *down_mod.add(other_edge_id as usize) = true;
                                    *edge_weight = relax_weight;
                                }''')),
k('ok-prep-loop',CU,('''                *up_weight = min(metric.link(up_arc).weight, *up_weight);''','''                let weight = metric.link(up_arc).weight;
                if weight < *up_weight {
                    *up_weight = weight;
                }''')),
k('ok-unpack-match',CM,('''        let (down, up) = self.up_unpacking[edge as usize];
        down.value()
            .map(|down| (EdgeIdT(down), EdgeIdT(up.value().unwrap()), NodeIdT(self.backward_tail()[down as usize])))''','''        let parts = &self.up_unpacking[edge as usize];
        match parts.0.value() {
            Some(first) => {
                let second = parts.1.value().unwrap();
                let middle = self.backward_tail()[first as usize];
                Some((EdgeIdT(first), EdgeIdT(second), NodeIdT(middle)))
            }
            None => None,
        }''')),
k('ok-unpack-arc',CM,('''                if downward[edge_from_first_id as usize] + upward[edge_from_second_id as usize] == weight {
                    return Some((lower_from_first, downward[edge_from_first_id as usize], upward[edge_from_second_id as usize]));''','''                let down = downward[edge_from_first_id as usize];
                let up = upward[edge_from_second_id as usize];
                if weight == up + down {
                    return Some((lower_from_second, down, up));''')),
k('ok-unpack-path',CQ,('''            let unpacked = if pred > current {
                customzied.unpack_outgoing(EdgeIdT(edge))
            } else {
                customzied.unpack_incoming(EdgeIdT(edge))
            };''','''            let unpacked = if pred < current {
                customzied.unpack_incoming(EdgeIdT(edge))
            } else {
                customzied.unpack_outgoing(EdgeIdT(edge))
            };'''),('''                parents[current as usize] = (middle, down);
                parents[middle as usize] = (pred, up);''','''                parents[middle as usize] = (pred, up);
                parents[current as usize] = (middle, down);''')),
k('ok-ch-sum',CH,('''                    let (shortcut_required, new_data) = subgraph.shortcut_required(from, to, from_wght + to_wght, data);''','''                    let length = to_wght + from_wght;
                    let (shortcut_required, new_data) = subgraph.shortcut_required(from, to, length, data);'''),('subgraph.insert_or_decrease(from, to, from_wght + to_wght, middle_node_id);','subgraph.insert_or_decrease(from, to, length, middle_node_id);')),
k('ok-ch-continue',CH,('''                    if shortcut_required {
                        let middle_node_id = subgraph.id_offset - 1;
                        // insert shortcut
                        subgraph.insert_or_decrease(from, to, from_wght + to_wght, middle_node_id);
                    }''','''                    if !shortcut_required {
                        continue;
                    }
                    let middle_node_id = subgraph.id_offset - 1;
                    subgraph.insert_or_decrease(from, to, from_wght + to_wght, middle_node_id);''')),
k('ok-hq-vars',HQ,('''        let (graph, middle_nodes, low, high) = if tail < head {
            (&self.forward, forward_middle_nodes, tail, head)
        } else {
            (&self.backward, backward_middle_nodes, head, tail)
        };''','''        let (graph, middle_nodes, low, high) = if head < tail {
            (&self.backward, backward_middle_nodes, head, tail)
        } else {
            (&self.forward, forward_middle_nodes, tail, head)
        };''')),
k('ok-rebuild-idx',CU,('let (local_bw_tail, rest_bw_tail) = backward_tail.split_at_mut(edges_of_each_thread[i + 1].1 - num_bw_edges_before);','let num_bw_edges = edges_of_each_thread[i + 1].1 - num_bw_edges_before;\n                    let (local_bw_tail, rest_bw_tail) = backward_tail.split_at_mut(num_bw_edges);')),
]
