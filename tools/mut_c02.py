P=['C02']
D='engine/src/datastr/'
T=D+'timestamped_vector.rs'; C=D+'clearlist_vector.rs'; R=D+'rank_select_map.rs'; I='engine/src/util/in_range_option.rs'
def b(name,path,*eds,kind='bug'): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,path,*eds): return b(name,path,*eds,kind='ok')
ATOM='''                element.store(from_pair((INFINITY, 0)), Ordering::Relaxed);
'''
M=[
b('ts-nowrap',T,('''        if overflow {
            for element in &mut self.data {
                element.reset();
            }
        }
    }

    /// Update''','''        let _ = overflow;
    }

    /// Update''')),
b('ts-wrap-partial',T,('for element in &mut self.data {','for element in self.data.iter_mut().skip(1) {')),
b('ts-wrap-stamps0',T,('''            for element in &mut self.data {
                element.reset();
            }''','''            for t in &mut self.timestamps { *t = 0; }''')),
b('ts-set-nostamp',T,('        self.timestamps[index] = self.current;\n    }\n\n    /// Number','    }\n\n    /// Number')),
b('ts-set-cond',T,('        self.timestamps[index] = self.current;\n    }\n\n    /// Number','        if self.timestamps[index] != 0 { self.timestamps[index] = self.current; }\n    }\n\n    /// Number')),
b('ts-index-ge',T,('if self.timestamps[index] == self.current {\n            &self.data','if self.timestamps[index] >= self.current {\n            &self.data')),
b('ts-unchecked',T,('if *self.timestamps.get_unchecked(index) == self.current {','if *self.timestamps.get_unchecked(index) <= self.current {')),
b('ts-idxmut-noreset',T,('            self.data[index].reset();\n',' ')),
b('ts-idxmut-nostamp',T,('            self.timestamps[index] = self.current;\n            self.data[index].reset();',' self.data[index].reset();')),
b('ts-unchecked-mut',T,('            val.reset();\n','')),
b('ts-new',T,('data: vec![T::DEFAULT; size],\n            current: 0,','data: vec![T::DEFAULT; size],\n            current: 0,'),('timestamps: vec![0; size]','timestamps: vec![0; size / 2]')),
b('ts-reset-skip',T,('        self.current = new;\n\n','        if !self.data.is_empty() && !overflow { self.current = new; }\n\n')),
b('at-get-noeq',T,('        if ts == self.current {\n            w','        if ts >= self.current {\n            w')),
b('at-wrap',T,(ATOM,'                element.store(from_pair((INFINITY, 0)) & 0xffff, Ordering::Relaxed);\n')),
b('at-wrap-none',T,('            for element in &self.data[..] {\n'+ATOM+'            }\n','')),
b('at-set',T,('store(from_pair((value, self.current))','store(from_pair((value, 0))')),
b('at-swap',T,('    unsafe { std::mem::transmute((w, ts)) }','    unsafe { std::mem::transmute((ts, w)) }')),
b('cl-guard',C,('if self.data[index] == self.default {','if self.data[index] == self.default && index > 0 {')),
b('cl-nopush',C,('            self.clearlist.push(index)','            self.clearlist.push(index / 2)')),
b('cl-noclear',C,('        self.clearlist.clear();\n','')),
b('cl-restore',C,('self.data[idx] = self.default.clone();','if idx != 0 { self.data[idx] = self.default.clone(); }')),
b('cl-early',C,('        for &idx in &self.clearlist {','        if self.clearlist.len() > self.data.len() { self.clearlist.clear(); return; }\n        for &idx in &self.clearlist {')),
b('fc-guard',R,('if self.data[index / STORAGE_BITS] == 0 {','if self.data[index / STORAGE_BITS] == 0 && index % STORAGE_BITS != 63 {')),
b('fc-order',R,('''        if self.data[index / STORAGE_BITS] == 0 {
            self.to_clear.push(index / STORAGE_BITS);
        }
        // shifting a 1 bit to the right place and then eighter set through | or negate and unset with &
        self.data[index / STORAGE_BITS] |= 1 << (index % STORAGE_BITS);''','''        self.data[index / STORAGE_BITS] |= 1 << (index % STORAGE_BITS);
        if self.data[index / STORAGE_BITS] == 0 {
            self.to_clear.push(index / STORAGE_BITS);
        }''')),
b('fc-push',R,('self.to_clear.push(index / STORAGE_BITS);','self.to_clear.push(index);')),
b('fc-clear',R,('            self.data[idx] = 0;\n        }\n        self.to_clear.clear();','            self.data[idx] &= 1;\n        }\n        self.to_clear.clear();')),
b('fc-keep',R,('        self.to_clear.clear();\n','')),
b('bv-unset',R,('self.data[index / STORAGE_BITS] &= !(1 << (index % STORAGE_BITS));','self.data[index / STORAGE_BITS] ^= 1 << (index % STORAGE_BITS);')),
b('bv-set32',R,('self.data[index / STORAGE_BITS] |= 1 << (index % STORAGE_BITS);','self.data[index / STORAGE_BITS] |= 1 << (index % 32);')),
b('bv-bound',R,('''        assert!(index < self.size, "index: {} size: {}", index, self.size);
        // shifting a 1 bit to the right place and masking''','''        assert!(index <= self.size, "index: {} size: {}", index, self.size);
        // shifting a 1 bit to the right place and masking''')),
b('it-nolowest',R,('self.current_bits &= !(1 << index);','self.current_bits &= !(3 << index);')),
b('it-idx',R,('                self.current_idx = next_idx;\n','                self.current_idx = next_idx.max(self.current_idx);\n')),
b('rank-size',R,('if key < self.contained_keys_flags.size && self.contained_keys_flags.get(key) {','if key < self.contained_keys_flags.size {')),
b('rank-at',R,('        assert!(self.contained_keys_flags.get(key));\n','')),
b('opt-new',I,('''                assert_ne!(value, T::SENTINEL, "InRangeOption::new: Got sentinel as a value");
                InRangeOption(value)
            }''','''                InRangeOption(value)
            }''')),
b('opt-some',I,('        assert_ne!(value, T::SENTINEL, "InRangeOption::new: Got sentinel as a value");\n        InRangeOption(value)\n    }','        InRangeOption(value)\n    }')),
b('vec-reset',T,('        self.clear()\n','        self.shrink_to_fit()\n')),
# refactorings
k('r-wrapping',T,('''        let (new, overflow) = self.current.overflowing_add(1);
        self.current = new;

        // we have to reset all values manually on overflow, because we now might encounter old timestamps again
        if overflow {
            for element in &mut self.data {
                element.reset();
            }
        }''','''        self.current = self.current.wrapping_add(1);
        if self.current == 0 {
            self.data.iter_mut().for_each(|e| e.reset());
        }''')),
k('r-checked',T,('''        let (new, overflow) = self.current.overflowing_add(1);
        self.current = new;

        // we have to reset all values manually on overflow, because we now might encounter old timestamps again
        if overflow {
            for element in &mut self.data {
                element.reset();
            }
        }''','''        match self.current.checked_add(1) {
            Some(next) => self.current = next,
            None => {
                self.current = 1;
                for t in self.timestamps.iter_mut() {
                    *t = 0;
                }
            }
        }''')),
k('r-index',T,('''        if self.timestamps[index] == self.current {
            &self.data[index]
        } else {
            // fine since immutable
            &self.default
        }''','''        let up_to_date = self.timestamps[index] == self.current;
        match up_to_date {
            false => &self.default,
            true => &self.data[index],
        }''')),
k('r-indexmut',T,('''        if self.timestamps[index] != self.current {
            self.timestamps[index] = self.current;
            self.data[index].reset();
        }
        &mut self.data[index]''','''        let elem = &mut self.data[index];
        let ts = &mut self.timestamps[index];
        if *ts == self.current {
            return elem;
        }
        *elem = T::DEFAULT;
        *ts = self.current;
        elem''')),
k('r-set',T,('''        self.data[index] = value;
        // Unconditionally update to the current time stamp
        self.timestamps[index] = self.current;''','''        self.touch(index);
        self.data[index] = value;'''),('    /// Number of elements in the data structure\n','    fn touch(&mut self, index: usize) {\n        self.timestamps[index] = self.current;\n    }\n\n    /// Number of elements in the data structure\n')),
k('r-pack',T,('    unsafe { std::mem::transmute((w, ts)) }','    (w as u64) | ((ts as u64) << 32)'),('    unsafe { std::mem::transmute(combined) }','    (combined as u32, (combined >> 32) as u32)')),
k('r-clear',C,('''        for &idx in &self.clearlist {
            self.data[idx] = self.default.clone();
        }
        self.clearlist.clear();''','''        for idx in self.clearlist.drain(..) {
            self.data[idx] = self.default.clone();
        }''')),
k('r-clear-pop',C,('''        for &idx in &self.clearlist {
            self.data[idx] = self.default.clone();
        }
        self.clearlist.clear();''','''        while let Some(idx) = self.clearlist.pop() {
            self.data[idx] = self.default.clone();
        }''')),
k('r-bits',R,('''        if self.data[index / STORAGE_BITS] == 0 {
            self.to_clear.push(index / STORAGE_BITS);
        }
        // shifting a 1 bit to the right place and then eighter set through | or negate and unset with &
        self.data[index / STORAGE_BITS] |= 1 << (index % STORAGE_BITS);''','''        let word = index >> 6;
        let mask = 1u64 << (index & 63);
        let bits = &mut self.data[word];
        if *bits == 0 {
            self.to_clear.push(word);
        }
        *bits |= mask;''')),
k('r-lowest',R,('self.current_bits &= !(1 << index);','self.current_bits &= self.current_bits - 1;')),
k('r-value',I,('''        if value != T::SENTINEL {
            Some(value)
        } else {
            None
        }''','''        if value == T::SENTINEL {
            return None;
        }
        Some(value)''')),
]
