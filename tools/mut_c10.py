P=['C10']
A='engine/src/algo/customizable_contraction_hierarchy/'
PA=A+'customization/parallelization.rs'; CU=A+'customization.rs'; DI=A+'customization/directed.rs'; FT=A+'customization/ftd.rs'; SD=A+'separator_decomposition.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
M=[
b('no-advance',PA,('                    sub_offset += sub.num_nodes;\n','                    sub_offset += sub.nodes.len();\n')),
b('split-dir',PA,('self.cch.backward_first_out()[sub_offset + sub.num_nodes] as usize - sub_backward','self.cch.forward_first_out()[sub_offset + sub.num_nodes] as usize - sub_backward')),
b('split-off-dir',PA,('self.cch.backward_first_out()[sub_offset + sub.num_nodes] as usize - sub_backward','self.cch.backward_first_out()[sub_offset + sub.num_nodes] as usize - sub_forward')),
b('aux-split-dir',PA,('''(move || sub_aux_down)().split_at_mut(self.cch.backward_first_out()[sub_offset + sub.num_nodes] as usize - sub_backward_edge_offset)''','''(move || sub_aux_down)().split_at_mut(self.cch.forward_first_out()[sub_offset + sub.num_nodes] as usize - sub_forward_edge_offset)''')),
b('offset-len-dir',PA,('sub_backward_edge_offset += this_sub_down.len();','sub_backward_edge_offset += this_sub_up.len();')),
b('sep-inside-range',PA,('                sub_offset..offset + sep_tree.num_nodes,','                sub_offset + 1..offset + sep_tree.num_nodes,')),
b('sep-range-short',PA,('                sub_offset..offset + sep_tree.num_nodes,','                sub_offset..sub_offset + sep_tree.children.len(),')),
b('sep-range-all',PA,('                sub_offset..offset + sep_tree.num_nodes,','                offset..offset + sep_tree.num_nodes,')),
b('sep-off-swap',PA,('''                sub_offset..offset + sep_tree.num_nodes,
                forward_edge_offset,
                backward_edge_offset,''','''                sub_offset..offset + sep_tree.num_nodes,
                backward_edge_offset,
                forward_edge_offset,''')),
b('cell-range',PA,('                offset..offset + sep_tree.num_nodes,\n                forward','                offset..offset + sep_tree.num_nodes - sep_tree.nodes.len(),\n                forward')),
b('spawn-wrong-offset',PA,('s.spawn(move |_| self.customize_tree(sub, sub_offset, this','s.spawn(move |_| self.customize_tree(sub, offset, this')),
b('spawn-rest',PA,('''                    sub_aux_up = rest_aux_up;
                    sub_aux_down = rest_aux_down;''','''                    sub_aux_up = rest_aux_down;
                    sub_aux_down = rest_aux_up;''')),
b('skip-empty-child',PA,('''                    if sub.num_nodes < n / (32 * rayon::current_num_threads()) {
                        self.cust''','''                    if sub.num_nodes < 2 {
                    } else if sub.num_nodes < n / (32 * rayon::current_num_threads()) {
                        self.cust''')),
b('swap-aux',PA,('this_sub_up, this_sub_down, this_aux_up, this_aux_down));','this_sub_up, this_sub_down, this_aux_down, this_aux_up));')),
b('sep-in-scope',PA,('''            });

            // once all subcells are processed, process the separator itself
            self.customize_separator.exec(
                sub_offset..offset + sep_tree.num_nodes,
                forward_edge_offset,
                backward_edge_offset,
                upward,
                downward,
                up_aux,
                down_aux,
            )''','''            });
            for x in sub_offset..offset + sep_tree.num_nodes { if x % 1024 != 1023 {
            self.customize_separator.exec(
                x..x+1,
                forward_edge_offset,
                backward_edge_offset,
                upward,
                downward,
                up_aux,
                down_aux,
            )}}''')),
b('install-offset',PA,('self.customize_tree(self.cch.separators(), 0, upward','self.customize_tree(&self.cch.separators().children[0], 0, upward')),
b('install-swap',PA,('self.cch.separators(), 0, upward, downward, up_aux, down_aux)','self.cch.separators(), 0, downward, upward, up_aux, down_aux)')),
b('entry-seq-short',PA,('.exec(0..self.cch.forward_first_out().len() - 1, 0, 0,','.exec(0..self.cch.separators().nodes.len(), 0, 0,')),
b('p-sep-late',PA,('''            self.customize_separator.exec(end_next..offset, upward, downward, up_aux, down_aux);
            let upward = PtrWrapper(upward);''','''            let sep = end_next..offset;
            let upward = PtrWrapper(upward);'''),('''                    end_next -= sub.num_nodes;
                }
            });
''','''                    end_next -= sub.num_nodes;
                }
            });
            self.customize_separator.exec(sep, upward.0, downward.0, up_aux.0, down_aux.0);
''')),
b('p-children-order',PA,('in sep_tree.children.iter().rev() {','in sep_tree.children.iter() {')),
b('p-end-first',PA,('                        self.customize_tree(sub, end_next, upward.0','                        self.customize_tree(sub, offset, upward.0')),
b('p-end-dec',PA,('end_next -= sub.num_nodes;','end_next -= sub.nodes.len();')),
b('p-cell-range',PA,('.exec(offset - sep_tree.num_nodes..offset, upward','.exec(offset - sep_tree.nodes.len()..offset, upward')),
b('p-sep-range',PA,('self.customize_separator.exec(end_next..offset, upward','self.customize_separator.exec(end_next..offset - 1, upward')),
b('p-swap-aux',PA,('upward.0, downward.0, up_aux.0, down_aux.0)','upward.0, downward.0, down_aux.0, up_aux.0)')),
b('p-root',PA,('''                                self.cch.num_cch_nodes(),
                                upward.as_mut_ptr(),''','''                                self.cch.num_cch_nodes() - 1,
                                upward.as_mut_ptr(),''')),
b('v-basic-removed',PA,('''        if !cfg!(feature = "cch-disable-par") {
            cch.separators().validate_for_parallelization();
        }
''','')),
b('v-basic-inv',PA,('if !cfg!(feature = "cch-disable-par") {\n            cch.','if cfg!(feature = "cch-disable-par") {\n            cch.')),
b('v-perfect-inv',PA,('if !cfg!(feature = "cch-disable-par") {\n            separators.','if cfg!(feature = "cch-disable-par") {\n            separators.')),
b('v-no-recursion',SD,('''        for child in &self.children {
            child.validate_for_parallelization();
        }''','')),
b('v-one-level',SD,('''        for child in &self.children {
            child.validate_for_parallelization();
        }''','''        for child in self.children.iter().take(1) {
            child.validate_for_parallelization();
        }''')),
b('v-no-consecutive',SD,('''        assert!(
            matches!(&self.nodes, SeparatorNodes::Consecutive(_)),
            "Disconnected ID Ranges in nested dissection separator"
        );''','')),
b('v-debug-assert',SD,('''        assert!(
            matches!(&self.nodes, SeparatorNodes::Consecutive(_)),''','''        debug_assert!(
            matches!(&self.nodes, SeparatorNodes::Consecutive(_)),''')),
b('v-start-advance',SD,('            child_range_start += child.num_nodes as u32;\n','            child_range_start += child.nodes.len() as u32;\n')),
b('v-start-init',SD,('.unwrap_or(self.num_nodes as u32 - 1) + 1 - self.num_nodes as u32;','.unwrap_or(self.num_nodes as u32 - 1) + 1 - self.nodes.len() as u32;')),
b('v-child-start',SD,('child.nodes.highest_ranked_node().unwrap() + 1 - child.num_nodes as u32,','child.nodes.highest_ranked_node().unwrap() + 1 - child.nodes.len() as u32,')),
b('t-num-nodes',SD,('let num_nodes = nodes.len() + children','let num_nodes = 1 + children')),
b('t-num-nodes2',SD,('let num_nodes = nodes.len() + children.iter().map(|child| child.num_nodes)','let num_nodes = nodes.len() + children.iter().map(|child| child.nodes.len())')),
b('s-push-gap',SD,('if range.start > 0 && node == range.start - 1 {','if range.start > 0 && node < range.start {')),
b('c-no-minus',CU,('                        low_up_edges.end -= offset;','                        low_up_edges.end -= offset.min(1);')),
b('c-first-down',CU,('downward_weights[first_edge_id as usize - offset];','downward_weights[first_edge_id as usize];')),
b('c-part-relative',CU,('let low_up_edges_orig = low_up_edges.clone();\n                        low_up_edges.start -= offset;','low_up_edges.start -= offset;'),('                        low_up_edges.end -= offset;','                        low_up_edges.end -= offset; let low_up_edges_orig = low_up_edges.clone();')),
b('c-part-first-rel',CU,('*relax = (triang_weight, InRangeOption::some(first_edge_id), InRangeOption::some(second_edge_id as EdgeId))','*relax = (triang_weight, InRangeOption::some(first_edge_id - offset as u32), InRangeOption::some(second_edge_id as EdgeId))')),
b('p-no-rev',CU,('for current_node in nodes.rev() {','for current_node in nodes {')),
b('c-nodes-rev',CU,('                for current_node in nodes {','                for current_node in nodes.rev() {')),
b('p-foreign-store',CU,('*up_mod.add(other_edge_id as usize) = true;','*up_mod.add(shortcut_edge_id as usize) = true;')),
b('d-off-dir',DI,('first_down_weight = downward_weights[first_edge_id as usize - downward_offset];','first_down_weight = downward_weights[first_edge_id as usize - upward_offset];')),
b('d-off-dir2',DI,('                        low_up_edges.start -= downward_offset;\n                        low_up_edges.end -= downward_offset;','                        low_up_edges.start -= upward_offset;\n                        low_up_edges.end -= upward_offset;')),
b('d-edges-dir',DI,('backward_edges.end -= downward_offset;','backward_edges.end -= upward_offset;')),
b('f-first-down',FT,('downward_weights[first_edge_id as usize - offset];','downward_weights[first_edge_id as usize];')),
b('f-clear',FT,('downward[edge_id as usize - edge_offset].clear_plf();','downward[edge_id as usize].clear_plf();')),
b('r-no-resize',CU,('            first_node_of_chunk.resize(k + 1, n);\n','            first_node_of_chunk.push(n);\n')),
b('r-no-zero',CU,('            first_node_of_chunk[0] = 0;\n','')),
b('r-last',CU,('first_node_of_chunk.resize(k + 1, n);','first_node_of_chunk.resize(k + 1, n - 1);')),
# behaviour kept
k('ok-old-offset',PA,('                    sub_forward_edge_offset += this_sub_up.len();\n','                    let child_start = sub_offset;\n                    sub_offset += sub.num_nodes;\n                    sub_forward_edge_offset += this_sub_up.len();\n'),('self.customize_tree(sub, sub_offset, this_sub_up, this_sub_down, this_aux_up, this_aux_down);','self.customize_tree(sub, child_start, this_sub_up, this_sub_down, this_aux_up, this_aux_down);'),('s.spawn(move |_| self.customize_tree(sub, sub_offset, this','s.spawn(move |_| self.customize_tree(sub, child_start, this'),('                    sub_offset += sub.num_nodes;\n                    sub_upward','                    sub_upward')),
k('ok-end',PA,('                for sub in &sep_tree.children {\n','                for sub in &sep_tree.children {\n                    let sub_end = sub_offset + sub.num_nodes;\n'),('self.cch.forward_first_out()[sub_offset + sub.num_nodes] as usize','self.cch.forward_first_out()[sub_end] as usize'),('self.cch.backward_first_out()[sub_offset + sub.num_nodes] as usize','self.cch.backward_first_out()[sub_end] as usize'),('                    sub_offset += sub.num_nodes;\n','                    sub_offset = sub_end;\n')),
k('ok-direct-first-out',PA,('                    sub_forward_edge_offset += this_sub_up.len();','                    sub_forward_edge_offset = self.cch.forward_first_out()[sub_offset + sub.num_nodes] as usize;')),
k('ok-helper-small',PA,('        if sep_tree.num_nodes < n / (32 * rayon::current_num_threads()) {\n            // if the current cell is small enough (load balancing parameters) run','        let small = |num: usize| num < n / (32 * rayon::current_num_threads());\n        if small(sep_tree.num_nodes) {\n            // if the current cell is small enough (load balancing parameters) run'),('if sub.num_nodes < n / (32 * rayon::current_num_threads()) {','if small(sub.num_nodes) {')),
k('ok-always-spawn',PA,('''                    if sub.num_nodes < n / (32 * rayon::current_num_threads()) {
                        self.customize_tree(sub, sub_offset, this_sub_up, this_sub_down, this_aux_up, this_aux_down);
                    } else {
                        s.spawn(''','''                    {
                        s.spawn(''')),
k('ok-early-return',PA,('''                up_aux,
                down_aux,
            );
        } else {
            // if not, split at''','''                up_aux,
                down_aux,
            );
            return;
        }
        {
            // if not, split at''')),
k('ok-p-range-var',PA,('            self.customize_separator.exec(end_next..offset, upward, downward, up_aux, down_aux);','            let sep = end_next..offset;\n            self.customize_separator.exec(sep.clone(), upward, downward, up_aux, down_aux);')),
k('ok-p-start',PA,('                    s.spawn(move |_| {\n                        // force','                    let end = end_next;\n                    s.spawn(move |_| {\n                        // force'),('self.customize_tree(sub, end_next, upward.0','self.customize_tree(sub, end, upward.0')),
k('ok-p-while',PA,('                for sub in sep_tree.children.iter().rev() {','                for idx in (0..sep_tree.children.len()).rev() {\n                    let sub = &sep_tree.children[idx];')),
k('ok-thresh',PA,('sep_tree.num_nodes < self.cch.num_cch_nodes() / (32 *','sep_tree.num_nodes <= self.cch.num_cch_nodes() / (16 *')),
k('ok-v-match',SD,('''        assert!(
            matches!(&self.nodes, SeparatorNodes::Consecutive(_)),
            "Disconnected ID Ranges in nested dissection separator"
        );''','''        if let SeparatorNodes::Random(_) = &self.nodes {
            panic!("Disconnected ID Ranges in nested dissection separator");
        }''')),
k('ok-v-one-loop',SD,('            child_range_start += child.num_nodes as u32;\n        }\n','            child_range_start += child.num_nodes as u32;\n            child.validate_for_parallelization();\n        }\n'),('''        for child in &self.children {
            child.validate_for_parallelization();
        }''','')),
k('ok-v-foreach',SD,('''        for child in &self.children {
            child.validate_for_parallelization();
        }''','''        self.children.iter().for_each(|child| child.validate_for_parallelization());''')),
k('ok-v-sep',PA,('            cch.separators().validate_for_parallelization();','            let tree = cch.separators();\n            tree.validate_for_parallelization();')),
k('ok-c-range',CU,('''                    edges.start -= offset;
                    edges.end -= offset;
                    // for all''','''                    edges = edges.start - offset..edges.end - offset;
                    // for all''')),
k('ok-c-index',CU,('let first_down_weight = downward_weights[first_edge_id as usize - offset];','let first_idx = first_edge_id as usize - offset;\n                        let first_down_weight = downward_weights[first_idx];'),('let first_up_weight = upward_weights[first_edge_id as usize - offset];','let first_up_weight = upward_weights[first_idx];')),
k('ok-c-while',CU,('                for current_node in nodes {','                let mut node_ids = nodes;\n                while let Some(current_node) = node_ids.next() {')),
k('ok-r-loop',CU,('            first_node_of_chunk.resize(k + 1, n);\n','            while first_node_of_chunk.len() < k + 1 { first_node_of_chunk.push(n); }\n')),
k('ok-t-num',SD,('let num_nodes = nodes.len() + children.iter().map(|child| child.num_nodes).sum::<usize>();','let below: usize = children.iter().map(|child| child.num_nodes).sum();\n        let num_nodes = below + nodes.len();')),
k('ok-t-fold',SD,('let num_nodes = nodes.len() + children.iter().map(|child| child.num_nodes).sum::<usize>();','let mut num_nodes = nodes.len();\n        for child in &children { num_nodes += child.num_nodes; }')),
]
