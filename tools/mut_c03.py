P=['C03']
D='engine/src/datastr/index_heap.rs'; G='engine/src/algo/dijkstra/generic_dijkstra.rs'
def b(name,*eds,kind='bug',path=D): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,*eds,path=D): return b(name,*eds,kind='ok',path=path)
M=[
b('clear-noindex',('''    pub fn clear(&mut self) {
        for element in &self.data {''','''    pub fn clear(&mut self) {
        for element in self.data.iter().skip(1) {''')),
b('clear-wrong',('''    pub fn clear(&mut self) {
        for element in &self.data {
            self.positions[element.as_index()] = INVALID_POSITION;''','''    pub fn clear(&mut self) {
        for element in &self.data {
            self.positions[element.as_index()] = 0;''')),
b('pop-no-inv',('''            self.positions[item.as_index()] = INVALID_POSITION;
            if !self.is_empty() {''','''            if !self.is_empty() {'''),),
b('pop-no-inv2',('''                self.positions[self.data[0].as_index()] = INVALID_POSITION;
''','')),
b('pop-nosift',('''                self.move_down_in_tree(0);
''','')),
b('pop-len1',('            if !self.is_empty() {\n                self.pos','            if self.len() > 1 {\n                self.pos')),
b('push-nosift',('        self.move_up_in_tree(insert_position);\n','        if insert_position > 4 { self.move_up_in_tree(insert_position); }\n')),
b('push-wrongpos',('        self.data.push(element);\n        self.move_up','        self.data.push(element);\n        let insert_position = insert_position.saturating_sub(1);\n        self.move_up')),
b('push-noassert',('        assert!(!self.contains_index(element.as_index()));\n','')),
b('dec-down',('''        self.data[position] = element;
        self.move_up_in_tree(position);''','''        self.data[position] = element;
        self.move_down_in_tree(position);''')),
b('inc-up',('''        self.data[position] = element;
        self.move_down_in_tree(position);''','''        self.data[position] = element;
        self.move_up_in_tree(position);''')),
b('upd-swap',('Ordering::Less => self.decrease_key(element),\n            std::cmp::Ordering::Greater => self.increase_key(element)','Ordering::Greater => self.decrease_key(element),\n            std::cmp::Ordering::Less => self.increase_key(element)')),
b('upd-dec-only',('            std::cmp::Ordering::Greater => self.increase_key(element),\n','')),
b('drain-lazy',('''        for element in &self.data {
            self.positions[element.as_index()] = INVALID_POSITION;
        }
        self.data.drain(..)''','''        let positions = &mut self.positions;
        self.data.drain(..).inspect(move |element| {
            positions[element.as_index()] = INVALID_POSITION;
        })''')),
b('up-parent',('let parent = (position - 1) / TREE_ARITY;','let parent = position / TREE_ARITY;')),
b('up-flip',('if self.data.get_unchecked(parent) < self.data.get_unchecked(position) {','if self.data.get_unchecked(parent) > self.data.get_unchecked(position) {')),
b('up-noswappos',('''                self.positions
                    .swap(self.data.get_unchecked(parent).as_index(), self.data.get_unchecked(position).as_index());
''','')),
b('up-swaporder',('''                self.positions
                    .swap(self.data.get_unchecked(parent).as_index(), self.data.get_unchecked(position).as_index());
                self.data.swap(parent, position);''','''                self.data.swap(parent, position);
                self.positions
                    .swap(self.data.get_unchecked(parent).as_index(), self.data.get_unchecked(parent).as_index());''')),
b('up-once',('            position = parent;\n        }\n    }\n\n    // fn move_up','            position = 0; let _ = parent;\n        }\n    }\n\n    // fn move_up')),
b('up-gt1',('        while position > 0 {','        while position > 1 {')),
b('child-range',('let last_child = min(TREE_ARITY * parent_index + TREE_ARITY + 1, heap_size);','let last_child = min(TREE_ARITY * parent_index + TREE_ARITY, heap_size);')),
b('child-first',('let first_child = TREE_ARITY * parent_index + 1;','let first_child = TREE_ARITY * parent_index + 2;')),
b('child-max',('.min_by_key(|&child_index| hole.get(child_index))','.max_by_key(|&child_index| hole.get(child_index))')),
b('down-flip',('if hole.get(smallest_child) >= hole.element() {','if hole.get(smallest_child) <= hole.element() {')),
b('down-noindex',('''                    *self.positions.get_unchecked_mut(hole.get(smallest_child).as_index()) = hole.pos;
''','')),
b('down-index-after',('''                    *self.positions.get_unchecked_mut(hole.get(smallest_child).as_index()) = hole.pos;
                    hole.move_to(smallest_child);''','''                    hole.move_to(smallest_child);
                    *self.positions.get_unchecked_mut(hole.get(smallest_child).as_index()) = hole.pos;''')),
b('down-final-missing',('''                } else {
                    *self.positions.get_unchecked_mut(hole.element().as_index()) = hole.pos;
                    return;''','''                } else {
                    return;''')),
b('hole-nopos',('        self.pos = index;\n','        let _ = index;\n')),
b('hole-drop',("            let pos = self.pos;\n            ptr::write","            let pos = self.data.len() - 1;\n            ptr::write")),
b('contains-0',('self.positions[id] != INVALID_POSITION','self.positions[id] != 0')),
b('arity-mismatch',('let first_child = TREE_ARITY * parent_index + 1;\n        let last_child = min(TREE_ARITY * parent_index + TREE_ARITY + 1','let first_child = 2 * parent_index + 1;\n        let last_child = min(2 * parent_index + 2 + 1')),
b('new-zero',('positions: vec![INVALID_POSITION; max_id]','positions: vec![0; max_id]')),
b('client-dec',('            if queue.contains_index(next.as_index()) {\n                                queue.decrease_key(next);\n                            } else {\n                                queue.push(next);\n                            }','            queue.decrease_key(next);'),path='engine/src/algo/dijkstra/generic_dijkstra.rs') if False else
b('client-catchup',('''                        if self.closest_node_priority_queue.contains_index(next.as_index()) {
                            self.closest_node_priority_queue.decrease_key(next);
                        } else {
                            self.closest_node_priority_queue.push(next);
                        }''','''                        if self.closest_node_priority_queue.contains_index(edge.0 as usize) {
                            self.closest_node_priority_queue.decrease_key(next);
                        } else {
                            self.closest_node_priority_queue.push(next);
                        }'''),path='engine/src/algo/catchup.rs') if False else
# behaviour-preserving edits
k('ok-up-le',('if self.data.get_unchecked(parent) < self.data.get_unchecked(position) {','if self.data[parent] <= self.data[position] {')),
k('ok-up-hole',('''        while position > 0 {
            let parent = (position - 1) / TREE_ARITY;

            unsafe {
                if self.data.get_unchecked(parent) < self.data.get_unchecked(position) {
                    break;
                }

                self.positions
                    .swap(self.data.get_unchecked(parent).as_index(), self.data.get_unchecked(position).as_index());
                self.data.swap(parent, position);
            }
            position = parent;
        }''','''        loop {
            if position == 0 { return; }
            let parent = (position - 1) / TREE_ARITY;
            if !(self.data[position] < self.data[parent]) { return; }
            let (a, b) = (self.data[parent].as_index(), self.data[position].as_index());
            self.positions[a] = position;
            self.positions[b] = parent;
            self.data.swap(position, parent);
            position = parent;
        }''')),
k('ok-pop-swapremove',('''        self.data.pop().map(|mut item| {
            self.positions[item.as_index()] = INVALID_POSITION;
            if !self.is_empty() {
                self.positions[item.as_index()] = 0;
                self.positions[self.data[0].as_index()] = INVALID_POSITION;
                swap(&mut item, &mut self.data[0]);
                self.move_down_in_tree(0);
            }
            item
        })''','''        let mut item = self.data.pop()?;
        self.positions[item.as_index()] = INVALID_POSITION;
        if !self.data.is_empty() {
            swap(&mut item, &mut self.data[0]);
            let root = self.data[0].as_index();
            self.positions[item.as_index()] = INVALID_POSITION;
            self.positions[root] = 0;
            self.move_down_in_tree(0);
        }
        Some(item)''')),
k('ok-upd-if',('''        match element.cmp(&self.data[self.positions[element.as_index()]]) {
            std::cmp::Ordering::Less => self.decrease_key(element),
            std::cmp::Ordering::Greater => self.increase_key(element),
            _ => (),
        }''','''        let current = &self.data[self.positions[element.as_index()]];
        if element < *current {
            self.decrease_key(element);
        } else if element > *current {
            self.increase_key(element);
        }''')),
k('ok-child',('let last_child = min(TREE_ARITY * parent_index + TREE_ARITY + 1, heap_size);','let last_child = min(first_child + TREE_ARITY, heap_size);')),
k('ok-contains',('        self.positions[id] != INVALID_POSITION','        let position = self.positions[id];\n        !(position == INVALID_POSITION)')),
k('ok-push-order',('''        self.positions[element.as_index()] = insert_position;
        self.data.push(element);
''','''        let index = element.as_index();
        self.data.push(element);
        self.positions[index] = insert_position;
''')),
k('ok-clear-idx',('''    pub fn clear(&mut self) {
        for element in &self.data {
            self.positions[element.as_index()] = INVALID_POSITION;
        }
''','''    pub fn clear(&mut self) {
        self.data.iter().for_each(|element| self.positions[element.as_index()] = INVALID_POSITION);
''') if False else ('''    pub fn clear(&mut self) {
        for element in &self.data {
            self.positions[element.as_index()] = INVALID_POSITION;
        }
''','''    pub fn clear(&mut self) {
        let positions = &mut self.positions;
        self.data.iter().for_each(|element| positions[element.as_index()] = INVALID_POSITION);
''')),
k('ok-sift-helper',('        let position = self.positions[element.as_index()];\n        self.data[position] = element;\n        self.move_up_in_tree(position);','        let position = self.replace_at(element);\n        self.move_up_in_tree(position);'),('    fn move_up_in_tree(','    fn replace_at(&mut self, element: T) -> usize {\n        let position = self.positions[element.as_index()];\n        self.data[position] = element;\n        position\n    }\n\n    fn move_up_in_tree(')),
k('ok-down-order',('''                    if hole.get(smallest_child) >= hole.element() {
                        *self.positions.get_unchecked_mut(hole.element().as_index()) = hole.pos;
                        return; // no child is smaller
                    }

                    *self.positions.get_unchecked_mut(hole.get(smallest_child).as_index()) = hole.pos;
                    hole.move_to(smallest_child);''','''                    if hole.get(smallest_child) < hole.element() {
                        *self.positions.get_unchecked_mut(hole.get(smallest_child).as_index()) = hole.pos;
                        hole.move_to(smallest_child);
                        continue;
                    }
                    *self.positions.get_unchecked_mut(hole.element().as_index()) = hole.pos;
                    return;''')),
k('ok-down-break',('''                } else {
                    *self.positions.get_unchecked_mut(hole.element().as_index()) = hole.pos;
                    return; // no children at all
                }
            }''','''                } else {
                    break; // no children at all
                }
            }
            let last = hole.pos;
            *self.positions.get_unchecked_mut(hole.element().as_index()) = last;''')),
]
