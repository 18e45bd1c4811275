P=['C07']
A='engine/src/algo/'
GD=A+'dijkstra/generic_dijkstra.rs'; TD=A+'dijkstra/gen_topo_dijkstra.rs'; DJ=A+'dijkstra.rs'; CH=A+'contraction_hierarchy/query.rs'; CC=A+'customizable_contraction_hierarchy/query.rs'
ET=A+'customizable_contraction_hierarchy/query/stepped_elimination_tree.rs'; BD=A+'dijkstra/query/bidirectional_dijkstra.rs'; CP=A+'ch_potentials.rs'; CU=A+'catchup.rs'; CQ=A+'ch_potentials/query.rs'; TA=A+'traffic_aware.rs'
FT=A+'dijkstra/query/floating_td_dijkstra.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
PR='self.predecessors[link.head() as usize] = (node, self.ops.predecessor_link(&link));'
M=[
b('gd-pred-in-callback',GD,('                        '+PR+'\n',''),("                        if improve_callback(link.head(), next_distance) {","                        if improve_callback(link.head(), next_distance) {\n                            "+PR)),
b('gd-pred-in-push',GD,('                        '+PR+'\n',''),("                                    self.num_queue_pushs += 1;\n                                    self.queue.push(next);","                                    self.num_queue_pushs += 1;\n                                    self.queue.push(next);\n                                    "+PR)),
b('gd-pred-before-merge',GD,('                        '+PR+'\n',''),("                    if self.ops.merge(&mut self.distances[link.head() as usize], linked) {","                    "+PR+"\n                    if self.ops.merge(&mut self.distances[link.head() as usize], linked) {")),
b('gd-pred-swap',GD,(PR,'self.predecessors[node as usize] = (link.head(), self.ops.predecessor_link(&link));')),
b('gd-pred-first-only',GD,(PR,'if self.predecessors[link.head() as usize].0 == link.head() || !self.queue.contains_index(link.head() as usize) { '+PR+' }')),
b('gd-no-decrease',GD,('''                                if self.queue.contains_index(next.as_index()) {
                                    self.queue.decrease_key(next);
                                } else {''','''                                if !self.queue.contains_index(next.as_index()) {''')),
b('gd-key-of-tail',GD,("let next_distance = &self.distances[link.head() as usize];","let next_distance = &self.distances[node as usize];")),
b('gd-link-other-label',GD,(".link(self.graph, self.predecessors, NodeIdT(node), &self.distances[node as usize], &link);",".link(self.graph, self.predecessors, NodeIdT(node), &self.distances[link.head() as usize], &link);")),
b('gd-mc-pred-missing',GD,('''                    if let Some(improved) = self.ops.merge(&mut self.distances[link.head() as usize], linked) {
                        self.predecessors[link.head() as usize] = (node, self.ops.predecessor_link(&link));''','''                    if let Some(improved) = self.ops.merge(&mut self.distances[link.head() as usize], linked) {
                        if self.queue.contains_index(link.head() as usize) { self.predecessors[link.head() as usize] = (node, self.ops.predecessor_link(&link)); }''')),
b('merge-le',DJ,('if linked < *label {','if linked <= *label {')),
b('merge-false',DJ,('            *label = linked;\n            return true;','            *label = linked;\n            return *label != INFINITY - 1;')),
b('merge-nostore',FT,('            *label = linked;\n            return true;','            if linked.fuzzy_lt(*label) { *label = linked; }\n            return true;')),
b('merge-ta',TA,('        if linked < *label {\n            *label = linked;\n            return true;\n        }\n        false','        if linked < *label {\n            *label = linked;\n        }\n        linked <= *label')),
b('td-pred-late',TD,('                        self.predecessors[next_node as usize] = prev_node;\n\n                        if let Some(next_edge) = next_edge {','                        if let Some(next_edge) = next_edge {'),("                        } else if endpoint {","                        } else if endpoint {\n                            self.predecessors[next_node as usize] = prev_node;")),
b('td-chain-wrong-tail',TD,("prev_node: (next_node, self.ops.predecessor_link(&next_edge)),","prev_node: (prev_node.0, self.ops.predecessor_link(&next_edge)),")),
b('td-deg3-tail',TD,("prev_node: (deg_three_node, self.ops.predecessor_link(&edge)),","prev_node: (node, self.ops.predecessor_link(&edge)),")),
b('td-deg3-label',TD,("&self.distances[deg_three_node as usize],","&self.distances[node as usize],")),
b('td-deg3-store',TD,("deg_three = Some((next_node, edge));","deg_three = Some((prev_node.0, edge));")),
b('et-store-swap',ET,("self.predecessors.store(head as usize, node, edge_idx);","self.predecessors.store(node as usize, head, edge_idx);")),
b('et-le',ET,("if next_dist < self.distances[head as usize] {","if next_dist <= self.distances[head as usize] {")),
b('et-store-cond',ET,("                    self.predecessors.store(head as usize, node, edge_idx);\n                }","                }\n                if next_dist == self.distances[head as usize] {\n                    self.predecessors.store(head as usize, node, edge_idx);\n                }")),
b('et-impl',ET,("= (parent_node, parent_edge","= (node_idx as NodeId, parent_edge")),
b('ch-meet-node',CH,('''                    if distance + backward_dijkstra.tentative_distance(node) < tentative_distance {
                        tentative_distance = distance + backward_dijkstra.tentative_distance(node);
                        self.meeting_node = node;
                    }
''','''                    if distance + backward_dijkstra.tentative_distance(node) < tentative_distance {
                        tentative_distance = distance + backward_dijkstra.tentative_distance(node);
                        if node != to {
                            self.meeting_node = node;
                        }
                    }
''')),
b('ch-meet-le2',CH,('''                    if distance + backward_dijkstra.tentative_distance(node) < tentative_distance {
                        tentative_distance = distance + backward_dijkstra.tentative_distance(node);
                        self.meeting_node = node;
                    }
''','''                    if distance + backward_dijkstra.tentative_distance(node) <= tentative_distance {
                        self.meeting_node = node;
                    }
                    tentative_distance = tentative_distance.min(distance + backward_dijkstra.tentative_distance(node));
''')),
b('ch-sum-progress',CH,("tentative_distance = distance + backward_dijkstra.tentative_distance(node);","tentative_distance = distance + backward_progress;")),
b('cch-meet-outside',CC,('''                        tentative_distance = dist;
                        self.meeting_node = node;
                    }''','''                        tentative_distance = dist;
                    }
                    if dist < INFINITY {
                        self.meeting_node = node;
                    }''')),
b('cch-fwfw',CC,("let dist = fw_walk.tentative_distance(node) + bw_walk.tentative_distance(node);","let dist = fw_walk.tentative_distance(node) + fw_walk.tentative_distance(node);")),
b('bd-meet-to',BD,("                            *meeting_node = to;\n","                            *meeting_node = from;\n")),
b('bd-meet-none',BD,("                            *meeting_node = to;\n","")),
b('bd-meet-head',BD,('''                                tentative_distance = dist + backward_dijkstra.tentative_distance(head);
                                *meeting_node = head;''','''                                if dist < tentative_distance { *meeting_node = head; }
                                tentative_distance = dist + backward_dijkstra.tentative_distance(head);''')),
b('cq-final-meet',CQ,('''                *meeting_node = query.to();
                tentative_distance = *forward_dijkstra.tentative_distance(query.to());''','''                tentative_distance = *forward_dijkstra.tentative_distance(query.to());''')),
b('cp-parent-init',CP,('''                if relaxed < dist {
                    self.backward_parents[node as usize] = (head, edge_idx);
                    dist = relaxed;
                }''','''                if relaxed < dist {
                    dist = relaxed;
                }
                if relaxed == dist {
                    self.backward_parents[node as usize] = (head, edge_idx);
                }''')),
b('cp-le',CP,("                if relaxed < dist {\n                    self.backward_parents","                if relaxed <= dist {\n                    self.backward_parents")),
b('cu-parent-moved',CU,('''                        self.parents[next.node as usize] = (node, evaled_edge_id);
                        if self.closest_node_priority_queue.contains_index(next.as_index()) {
                            self.closest_node_priority_queue.decrease_key(next);
                        } else {
''','''                        if self.closest_node_priority_queue.contains_index(next.as_index()) {
                            self.closest_node_priority_queue.decrease_key(next);
                        } else {
                            self.parents[next.node as usize] = (node, evaled_edge_id);
''')),
b('cu-target',CU,("self.parents[next.node as usize] = (node, evaled_edge_id);","self.parents[target as usize] = (node, evaled_edge_id);")),
k('gd-reorder',GD,('''                        self.predecessors[link.head() as usize] = (node, self.ops.predecessor_link(&link));
                        let next_distance = &self.distances[link.head() as usize];
''','''                        let head = link.head();
                        let pl = self.ops.predecessor_link(&link);
                        self.predecessors[head as usize] = (node, pl);
                        let next_distance = &self.distances[head as usize];
''')),
k('gd-split',GD,(PR,'self.predecessors[link.head() as usize].0 = node;\n                        self.predecessors[link.head() as usize].1 = self.ops.predecessor_link(&link);')),
k('gd-not-merged-continue',GD,('''                    if self.ops.merge(&mut self.distances[link.head() as usize], linked) {
                        self.predecessors''','''                    let improved = self.ops.merge(&mut self.distances[link.head() as usize], linked);
                    if !improved {
                        continue;
                    }
                    {
                        self.predecessors''')),
k('gd-queue-first',GD,('''                                if self.queue.contains_index(next.as_index()) {
                                    self.queue.decrease_key(next);
                                } else {
                                    self.num_queue_pushs += 1;
                                    self.queue.push(next);
                                }''','''                                if !self.queue.contains_index(next.as_index()) {
                                    self.num_queue_pushs += 1;
                                    self.queue.push(next);
                                } else {
                                    self.queue.decrease_key(next);
                                }''')),
k('merge-ret-bool',DJ,('''        if linked < *label {
            *label = linked;
            return true;
        }
        false''','''        let better = *label > linked;
        if better {
            *label = linked;
        }
        better''')),
k('merge-ge',DJ,('''        if linked < *label {
            *label = linked;
            return true;
        }
        false''','''        if linked >= *label {
            return false;
        }
        *label = linked;
        true''')),
k('merge-else',DJ,('''        if linked < *label {
            *label = linked;
            return true;
        }
        false''','''        if linked < *label {
            *label = linked;
            true
        } else {
            false
        }''')),
k('et-reorder',ET,('''                    self.distances[head as usize] = next_dist;
                    self.predecessors.store(head as usize, node, edge_idx);''','''                    self.predecessors.store(head as usize, node, edge_idx);
                    self.distances[head as usize] = next_dist;''')),
k('et-continue',ET,('''                if next_dist < self.distances[head as usize] {
                    // Relaxation, we have now found a better way
                    self.distances[head as usize] = next_dist;
                    self.predecessors.store(head as usize, node, edge_idx);
                }''','''                if next_dist >= self.distances[head as usize] {
                    continue;
                }
                self.distances[head as usize] = next_dist;
                self.predecessors.store(head as usize, node, edge_idx);''')),
k('ch-through',CH,('''                    if distance + backward_dijkstra.tentative_distance(node) < tentative_distance {
                        tentative_distance = distance + backward_dijkstra.tentative_distance(node);
                        self.meeting_node = node;
                    }''','''                    let through = distance + backward_dijkstra.tentative_distance(node);
                    if tentative_distance > through {
                        self.meeting_node = node;
                        tentative_distance = through;
                    }''')),
k('ch-helper',CH,('''                    if distance + backward_dijkstra.tentative_distance(node) < tentative_distance {
                        tentative_distance = distance + backward_dijkstra.tentative_distance(node);
                        self.meeting_node = node;
                    }''','''                    meet(distance + backward_dijkstra.tentative_distance(node), node, &mut tentative_distance, &mut self.meeting_node);'''),
  ('    // Follows the parent pointers of both','    // helper below\n    // Follows the parent pointers of both'),
  ('pub struct Server','fn meet(d: Weight, node: NodeId, best: &mut Weight, meeting: &mut NodeId) {\n    if d < *best {\n        *best = d;\n        *meeting = node;\n    }\n}\n\npub struct Server')),
k('cch-tuple',CC,('''                        tentative_distance = dist;
                        self.meeting_node = node;''','''                        self.meeting_node = node;
                        tentative_distance = dist;''')),
k('cp-match',CP,('''                if relaxed < dist {
                    self.backward_parents[node as usize] = (head, edge_idx);
                    dist = relaxed;
                }''','''                if dist > relaxed {
                    dist = relaxed;
                    self.backward_parents[node as usize] = (head, edge_idx);
                }''')),
k('cp-loopvar',CP,('''            let mut dist = self.backward_distances[node as usize];

            for (NodeIdT(head), weight''','''            let mut dist = self.backward_distances[node as usize];
            debug_assert!(dist <= INFINITY);
            for (NodeIdT(head), weight''')),
k('bd-early',BD,('''                            if dist + backward_dijkstra.tentative_distance(head) < tentative_distance {
                                tentative_distance = dist + backward_dijkstra.tentative_distance(head);
                                *meeting_node = head;
                            }
                            true''','''                            let total = dist + backward_dijkstra.tentative_distance(head);
                            if total >= tentative_distance {
                                return true;
                            }
                            tentative_distance = total;
                            *meeting_node = head;
                            true''')),
]
