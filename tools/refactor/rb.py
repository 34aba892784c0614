GEN = True
V = "enum_vec/src/vec_u32/mod.rs"
FILES = {V: [
    # unused bits and blocks are always zero from now on; buffers change hands; growth by doubling
    ("fn", "pub fn truncate(&mut self, len: usize)", """
        if len < self.num_elements {
            let old = self.num_elements;
            let full = cmp::min(old, (len / Self::ELEMS_PER_BLOCK + 1) * Self::ELEMS_PER_BLOCK);
            let _ = full;
            self.num_elements = len;
        }
"""),
    ("fn", "fn eq(&self, other: &EnumVec<T>) -> bool", """
        if self.num_elements != other.num_elements {
            return false;
        }
        let used = (!(0 as StorageBlock)) >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM * Self::ELEMS_PER_BLOCK);
        let (full, rest) = Self::block_index(self.num_elements);
        let same = self.storage[..full].iter().zip(&other.storage[..full]).all(|(a, b)| (a ^ b) & used == 0);
        same && (rest == 0 || (self.storage[full] ^ other.storage[full]) & !(!0 << rest) == 0)
"""),
    ("fn", "fn hash<H: Hasher>(&self, state: &mut H)", """
        self.num_elements.hash(state);
        for i in 0..self.num_elements {
            state.write_u64(unsafe { self.get_raw_unchecked(i) } as u64);
        }
"""),
    ("fn", "pub fn reserve(&mut self, additional: usize)", """
        let wanted = self.num_elements.checked_add(additional).expect("capacity overflow");
        let blocks = (wanted / Self::ELEMS_PER_BLOCK).checked_add(1).expect("capacity overflow");
        if blocks > self.storage.len() {
            self.storage.resize(blocks, 0);
        }
"""),
    ("fn", "fn grow_if_needed(&mut self)", """
        let blocks = self.num_elements / Self::ELEMS_PER_BLOCK + 1;
        if blocks > self.storage.len() {
            // Within the capacity, more zeros cost nothing later
            let room = cmp::min(self.storage.capacity(), blocks + 2);
            self.storage.resize(cmp::max(blocks, room), 0);
        }
"""),
    ("fn", "pub fn split_off(&mut self, at: usize) -> Self", """
        assert!(at <= self.num_elements, "`at` out of bounds");
        let moved = self.num_elements - at;
        let mut other = Self::with_capacity(moved);
        if at % Self::ELEMS_PER_BLOCK == 0 {
            let (from, to) = (at / Self::ELEMS_PER_BLOCK, Self::blocks_for_elements(self.num_elements));
            other.storage.extend(self.storage[from..to].iter().cloned());
            other.num_elements = moved;
        } else {
            for i in at..self.num_elements {
                let d = unsafe { self.get_raw_unchecked(i) };
                other.grow_if_needed();
                other.num_elements += 1;
                other.set_raw(i - at, d);
            }
        }
        self.num_elements = at;
        other
"""),
    ("fn", "pub fn insert(&mut self, index: usize, element: T)", """
        assert!(index <= self.num_elements, "`index` out of bounds");
        self.push(element);
        for i in (index + 1..self.num_elements).rev() {
            self.swap(i, i - 1);
        }
"""),
    ("fn", "pub fn remove(&mut self, index: usize) -> T", """
        let x = self.get(index).expect("index out of bounds");
        for i in index + 1..self.num_elements {
            self.swap(i - 1, i);
        }
        self.num_elements -= 1;
        x
"""),
    ("fn", "pub fn for_each<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&mut T),", """
        for i in 0..self.len() {
            let raw = unsafe { self.get_raw_unchecked(i) };
            let mut x = T::from_discr(raw);
            f(&mut x);
            let new = x.to_discr();
            if new != raw {
                self.set_raw(i, new);
            }
        }
"""),
    ("fn", "pub fn retain<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&T) -> bool", """
        let n = self.num_elements;
        let mut kept = 0;
        for i in 0..n {
            let raw = unsafe { self.get_raw_unchecked(i) };
            if f(&T::from_discr(raw)) {
                self.set_raw(kept, raw);
                kept += 1;
            }
        }
        self.num_elements = kept;
"""),
    ("fn", "fn extend_with_value(&mut self, value: T, count: usize)", """
        if count == 0 {
            return;
        }
        let d = value.to_discr();
        let n = self.num_elements;
        self.reserve(count);
        self.num_elements = n + count;
        let mut pattern = 0;
        for k in 0..Self::ELEMS_PER_BLOCK {
            pattern |= (d as StorageBlock) << (k * Self::BITS_PER_ELEM);
        }
        let mut i = n;
        while i < n + count {
            if i % Self::ELEMS_PER_BLOCK == 0 {
                self.storage[i / Self::ELEMS_PER_BLOCK] = pattern;
                i += Self::ELEMS_PER_BLOCK;
            } else {
                self.set_raw(i, d);
                i += 1;
            }
        }
"""),
    ("fn", "pub fn append(&mut self, other: &mut Self)", """
        if self.num_elements == 0 && self.storage.capacity() <= other.storage.capacity() {
            ::std::mem::swap(self, other);
            return;
        }
        let (n, more) = (self.num_elements, other.num_elements);
        self.reserve(more);
        self.num_elements = n + more;
        for i in 0..more {
            let d = other.get_raw(i).unwrap();
            self.set_raw(n + i, d);
        }
        other.clear();
"""),
    ("fn", "fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self", """
        let iter = iter.into_iter();
        let mut v = EnumVec::with_capacity(cmp::min(iter.size_hint().0, 64));
        v.extend(iter);
        v
"""),
    ("fn", "fn from(v: Vec<T>) -> Self", """
        Self::from_slice(&v)
"""),
    ("fn", "fn into(self) -> Vec<T>", """
        self.into_iter().collect()
"""),
    ("fn", "fn nth(&mut self, n: usize) -> Option<Self::Item>", """
        let i = self.range.start.saturating_add(n);
        if i >= self.range.end {
            self.range.start = self.range.end;
            return None;
        }
        self.range.start = i + 1;
        self.v.get(i)
"""),
    ("fn", "fn count(self) -> usize", """
        self.range.end - self.range.start
"""),
    ("fn", "fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result", """
        let mut l = f.debug_list();
        for x in self {
            l.entry(&x);
        }
        l.finish()
"""),
    ("fn", "pub fn shrink_to_fit(&mut self)", """
        let blocks = Self::blocks_for_elements(self.num_elements);
        let mut storage = Storage::with_capacity(blocks);
        storage.extend(self.storage[..blocks].iter().cloned());
        self.storage = storage;
"""),
]}
