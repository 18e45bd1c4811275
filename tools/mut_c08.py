P=['C08']
A='engine/src/algo/'
DQ=A+'dijkstra/query/dijkstra.rs'; BD=A+'dijkstra/query/bidirectional_dijkstra.rs'; CH=A+'contraction_hierarchy/query.rs'; CC=A+'customizable_contraction_hierarchy/query.rs'
AS=A+'a_star.rs'; CQ=A+'ch_potentials/query.rs'; TQ=A+'ch_potentials/td_query.rs'; CU=A+'catchup.rs'; NN=A+'dijkstra/query/nearest_neighbor.rs'; BN=A+'customizable_contraction_hierarchy/query/nearest_neighbor.rs'
FT=A+'dijkstra/query/floating_td_dijkstra.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
M=[
b('dq-improve-stop',DQ,('            if node == to {\n                result','            if node == to || *dijkstra.tentative_distance(to) < INFINITY {\n                result')),
b('dq-step-cap',DQ,('            num_queue_pops += 1;\n            if node == to','            num_queue_pops += 1;\n            if num_queue_pops > 1_000_000 { break; }\n            if node == to')),
b('bd-early-first-meeting',BD,('''            match tentative_distance {
                INFINITY => None,''','''            match tentative_distance {
                INFINITY => None,'''),('            while !(dir_chooser.may_stop()','            while tentative_distance == INFINITY && !(dir_chooser.may_stop()')),
b('bd-target-swapped',BD,('                        if node == to {','                        if node == from || node == to {')),
b('bd-stop-bound-other',BD,('''                    min(tentative_distance, maximum_distance),
                ))''','''                    min(tentative_distance, maximum_distance) / 2,
                ))''')),
b('bd-stop-swapped-queues',BD,('''                    forward_dijkstra.queue().peek().map(|q| q.key),
                    backward_dijkstra.queue().peek().map(|q| q.key),
                    min(''','''                    backward_dijkstra.queue().peek().map(|q| q.key),
                    forward_dijkstra.queue().peek().map(|q| q.key),
                    min(''')),
b('bd-or-stop',BD,('''            while !(dir_chooser.may_stop()
                && potential''','''            while !(tentative_distance < maximum_distance
                || potential''')),
b('bd-prune-wrong-queue',BD,('backward_dijkstra.queue().peek().map(|q| q.key).unwrap_or(INFINITY),','forward_dijkstra.queue().peek().map(|q| q.key).unwrap_or(INFINITY),')),
b('bd-prune-sum-dist',BD,('''                                NodeIdT(head),
                                dist,
                                backward''','''                                NodeIdT(head),
                                dist + backward_dijkstra.tentative_distance(head),
                                backward''')),
b('ch-and',CH,('tentative_distance > forward_progress || tentative_distance > backward_progress','tentative_distance > forward_progress && tentative_distance > backward_progress')),
b('ch-or-done',CH,('!(forward_done && backward_done)','!(forward_done || backward_done)')),
b('ch-sum',CH,('(tentative_distance > forward_progress || tentative_distance > backward_progress)','tentative_distance > forward_progress + backward_progress')),
b('ch-target-swapped',CH,('                    if node == to {\n                        forward_done = true;','                    if node == to {\n                        backward_done = true;\n                        forward_done = true;')),
b('ch-done-on-meet',CH,('                        self.meeting_node = node;\n','                        self.meeting_node = node;\n                        forward_done = true;\n')),
b('ch-both-done-when-one-empty',CH,('''                } else {
                    forward_done = true;
                }''','''                } else {
                    break;
                }''')),
b('cc-skip-gt',CC,('if fw_walk.tentative_distance(node) < tentative_distance {','if fw_walk.tentative_distance(node) + bw_walk.tentative_distance(node) < tentative_distance {')),
b('cc-skip-otherside',CC,('if bw_walk.tentative_distance(node) < tentative_distance {','if fw_walk.tentative_distance(node) < tentative_distance {')),
b('cc-skip-inverted',CC,('if fw_walk.tentative_distance(node) < tentative_distance {','if fw_walk.tentative_distance(node) < INFINITY && tentative_distance == INFINITY {')),
b('as-zero-max',AS,('(Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist,','(Some(fw_min_queue), Some(bw_min_queue)) => 2 * std::cmp::max(fw_min_queue, bw_min_queue) >= stop_dist,')),
b('as-zero-le',AS,('fw_min_queue + bw_min_queue >= stop_dist,','fw_min_queue + bw_min_queue <= stop_dist,')),
b('as-avg-no-mu',AS,('fw_min_queue + bw_min_queue >= stop_dist + self.mu_add','fw_min_queue + bw_min_queue + self.mu_add >= stop_dist')),
b('as-avg-sub-mu',AS,('fw_min_queue + bw_min_queue >= stop_dist + self.mu_add','fw_min_queue + bw_min_queue >= stop_dist - self.mu_add')),
k('as-sym-inf',AS,('(stop_dist == INFINITY && (','(stop_dist < INFINITY && (')),
b('as-sym-fw-false',AS,('fw_min_queue.map(|key| key >= stop_dist).unwrap_or(true)','fw_min_queue.map(|key| key <= stop_dist).unwrap_or(true)')),
b('as-sym-inf-true',AS,("            || (stop_dist == INFINITY && (fw_min_queue.is_none() || bw_min_queue.is_none()))","            || stop_dist == INFINITY && fw_min_queue != bw_min_queue")),
b('as-prune-fw-pot',AS,('if fw_dist_head + self.forward_potential_raw(head).unwrap_or(INFINITY) >= max_dist','if fw_dist_head + self.backward_potential_raw(head).unwrap_or(INFINITY) >= max_dist')),
b('as-prune-shifted-pot',AS,('if fw_dist_head + self.forward_potential_raw(head).unwrap_or(INFINITY) >= max_dist','if fw_dist_head + self.forward_potential(head).unwrap_or(INFINITY) >= max_dist')),
b('as-prune-remaining',AS,('reverse_min_queue.saturating_sub(self.backward_potential(head).unwrap_or(INFINITY));','reverse_min_queue.saturating_sub(self.forward_potential(head).unwrap_or(INFINITY));')),
b('as-prune-noremain',AS,('let remaining_by_queue = reverse_min_queue.saturating_sub(self.backward_potential(head).unwrap_or(INFINITY));','let remaining_by_queue = reverse_min_queue;')),
b('as-prune-both',AS,('if fw_dist_head + remaining_by_queue >= max_dist','if fw_dist_head + remaining_by_queue + self.forward_potential_raw(head).unwrap_or(0) >= max_dist')),
b('as-perm-swap',AS,('.prune_backward(NodeIdT(self.order.node(head)), bw_dist_head, reverse_min_queue, max_dist)','.prune_forward(NodeIdT(self.order.node(head)), bw_dist_head, reverse_min_queue, max_dist)')),
b('as-perm-args',AS,('self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)','self.potential.stop(bw_min_queue, fw_min_queue, stop_dist)')),
b('cq-drop-pot',CQ,('.map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)','.map(|e| e.key + into_core_pot >= *comp_search.tentative_distance(into_core))')),
b('cq-false-to-true',CQ,('.map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot || e.key > cap)','.map(|e| *dijkstra.tentative_distance(query.to()) < INFINITY || e.key > cap)')),
b('cq-capgt',CQ,('|| e.key > cap)','|| e.key + target_pot > cap)')),
b('cq-next-node',CQ,('.map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot || e.key > cap)','.map(|e| e.key >= *dijkstra.tentative_distance(e.node) + target_pot || e.key > cap)')),
b('cq-bidir-from-to',CQ,('if node == query.to() {','if node == query.from() {')),
b('tq-last',TQ,('.map(|e| e.key >= *comp_search.tentative_distance(query.to()))','.map(|e| e.key <= *comp_search.tentative_distance(query.to()))')),
b('cu-skip-lower',CU,('if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1','if self.forward.node_data(self.forward.peek_next().unwrap()).upper_bound > tentative_distance.1')),
b('cu-skip-against-lower',CU,('if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1','if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.0')),
b('nn-half',NN,('len() >= k','len() >= k / 2')),
b('ft-break',FT,('if node == query.to {','if node == query.to || dijkstra.tentative_distance(node) > &100000 {')),
# ---- behaviour preserving
k('dq-match',DQ,('''            if node == to {
                result = Some(*dijkstra.tentative_distance(node));
                break;
            }''','''            let done = node == to;
            if done {
                result = Some(*dijkstra.tentative_distance(to));
            }
            if done {
                break;
            }''')),
k('bd-stop-fn',BD,('''                    min(tentative_distance, maximum_distance),
                ))''','''                    if tentative_distance < maximum_distance { tentative_distance } else { maximum_distance },
                ))''')),
k('bd-loop',BD,('''            while !(dir_chooser.may_stop()
                && potential.get_mut().stop(
                    forward_dijkstra.queue().peek().map(|q| q.key),
                    backward_dijkstra.queue().peek().map(|q| q.key),
                    min(tentative_distance, maximum_distance),
                ))
            {''','''            loop {
                let fw_key = forward_dijkstra.queue().peek().map(|q| q.key);
                let bw_key = backward_dijkstra.queue().peek().map(|q| q.key);
                let bound = min(tentative_distance, maximum_distance);
                let stop = dir_chooser.may_stop() && potential.get_mut().stop(fw_key, bw_key, bound);
                if stop {
                    break;
                }''')),
k('ch-demorgan',CH,('while (tentative_distance > forward_progress || tentative_distance > backward_progress) && !(forward_done && backward_done) {','while !(forward_progress >= tentative_distance && backward_progress >= tentative_distance) && (!forward_done || !backward_done) {')),
k('ch-min',CH,('(tentative_distance > forward_progress || tentative_distance > backward_progress)','tentative_distance > std::cmp::min(forward_progress, backward_progress)')),
k('ch-break',CH,('while (tentative_distance > forward_progress || tentative_distance > backward_progress) && !(forward_done && backward_done) {','''loop {
            let fw_over = forward_done || forward_progress >= tentative_distance;
            let bw_over = backward_done || backward_progress >= tentative_distance;
            if fw_over && bw_over && (forward_done == backward_done || forward_progress >= tentative_distance && backward_progress >= tentative_distance) {
                break;
            }''')),
k('cc-le',CC,('''                    if fw_walk.tentative_distance(node) < tentative_distance {
                        fw_walk.next();
                    } else {
                        fw_walk.skip_next();
                    }''','''                    let fw_dist = fw_walk.tentative_distance(node);
                    if fw_dist >= tentative_distance {
                        fw_walk.skip_next();
                    } else {
                        fw_walk.next();
                    }''')),
k('as-zero-iflet',AS,('''        match (fw_min_queue, bw_min_queue) {
            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist,
            _ => true,
        }''','''        if let (Some(fw), Some(bw)) = (fw_min_queue, bw_min_queue) {
            let progress = bw + fw;
            return stop_dist <= progress;
        }
        true''')),
k('as-prune-let',AS,('''            if fw_dist_head + self.forward_potential_raw(head).unwrap_or(INFINITY) >= max_dist {
                return true;
            }''','''            let remaining = match self.forward_potential_raw(head) {
                Some(pot) => pot,
                None => INFINITY,
            };
            if max_dist <= remaining + fw_dist_head {
                return true;
            }''')),
k('as-sym-isnone',AS,('fw_min_queue.map(|key| key >= stop_dist).unwrap_or(true)','match fw_min_queue { Some(key) => key >= stop_dist, None => true }')),
k('as-sym-map-or',AS,('fw_min_queue.map(|key| key >= stop_dist).unwrap_or(true)','fw_min_queue.map_or(true, |key| key >= stop_dist)')),
k('cq-iflet',CQ,('''            if comp_search
                .queue()
                .peek()
                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
                .unwrap_or(true)
            {
                break;
            }''','''            let core_key = *comp_search.tentative_distance(into_core) + into_core_pot;
            match comp_search.queue().peek() {
                Some(e) if e.key < core_key => {}
                _ => break,
            }''')),
k('cq-helper',CQ,('''            if dijkstra
                .queue()
                .peek()
                .map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot || e.key > cap)
                // .map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot)
                .unwrap_or(false)
            {
                break;
            }''','''            if let Some(min_key) = dijkstra.queue().peek().map(|e| e.key) {
                let target_dist = *dijkstra.tentative_distance(query.to());
                if target_dist + target_pot <= min_key || cap < min_key {
                    break;
                }
            }''')),
k('cu-skip-let',CU,('if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {','let next = self.backward.peek_next().unwrap();\n                if tentative_distance.1 < self.backward.node_data(next).lower_bound {')),
]
