GEN = True
V = "enum_vec/src/vec_u32/mod.rs"
FILES = {V: [
    ("fn", "fn eq(&self, other: &EnumVec<T>) -> bool", """
        self.num_elements == other.num_elements
            && (0..self.num_elements).all(|i| unsafe { self.get_raw_unchecked(i) == other.get_raw_unchecked(i) })
"""),
    ("fn", "fn hash<H: Hasher>(&self, state: &mut H)", """
        let mut i = 0;
        while let Some(d) = self.get_raw(i) {
            d.hash(state);
            i += 1;
        }
"""),
    ("fn", "pub fn any(&self, x: T) -> bool", """
        let n = self.num_elements;
        if n == 0 {
            return false;
        }
        let x = x.to_discr();
        (0..n).rev().any(|i| unsafe { self.get_raw_unchecked(i) } == x)
"""),
    ("fn", "pub fn all(&self, x: T) -> bool", """
        if self.is_empty() {
            return true;
        }
        let x = x.to_discr();
        for i in (0..self.len()).rev() {
            if self.get_raw(i) != Some(x) {
                return false;
            }
        }
        true
"""),
    ("fn", "pub fn insert(&mut self, index: usize, element: T)", """
        let len = self.len();
        if index > len {
            panic!("`index` out of bounds");
        }
        let discr = element.to_discr();
        self.grow_if_needed();
        self.num_elements = len.checked_add(1).expect("capacity overflow");
        let mut i = len;
        while i > index {
            unsafe {
                let x = self.get_raw_unchecked(i - 1);
                self.set_raw_unchecked(i, x);
            }
            i -= 1;
        }
        self.set_raw(index, discr);
"""),
    ("fn", "pub fn remove(&mut self, index: usize) -> T", """
        let x = match self.get(index) {
            Some(x) => x,
            None => panic!("index out of bounds: {}", index),
        };
        let last = self.num_elements - 1;
        for i in index..last {
            unsafe {
                let next = self.get_raw_unchecked(i + 1);
                self.set_raw_unchecked(i, next);
            }
        }
        self.num_elements = last;
        x
"""),
    ("fn", "pub fn retain<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&T) -> bool", """
        let mut kept = 0;
        for i in 0..self.num_elements {
            let x = self.get(i).unwrap();
            if !f(&x) {
                continue;
            }
            if kept != i {
                self.set(kept, x);
            }
            kept += 1;
        }
        self.truncate(kept);
"""),
    ("fn", "pub fn pop(&mut self) -> Option<T>", """
        let last = match self.num_elements.checked_sub(1) {
            Some(i) => i,
            None => return None,
        };
        let x = self.get(last);
        self.num_elements = last;
        x
"""),
    ("fn", "pub fn append(&mut self, other: &mut Self)", """
        let (old, more) = (self.num_elements, other.num_elements);
        self.reserve(more);
        for i in 0..more {
            unsafe {
                let x = other.get_raw_unchecked(i);
                self.set_raw_unchecked(old + i, x);
            }
        }
        self.num_elements = old + more;
        other.num_elements = 0;
"""),
    ("fn", "pub fn clear(&mut self)", """
        self.num_elements = 0;
"""),
    ("fn", "pub fn split_off(&mut self, at: usize) -> Self", """
        if at > self.len() {
            panic!("`at` out of bounds");
        }
        let moved = self.len() - at;
        let mut other = Self::new();
        other.storage = (0..Self::blocks_for_elements(moved)).map(|_| 0).collect();
        other.num_elements = moved;
        for i in 0..moved {
            let x = self.get_raw(at + i).unwrap();
            other.set_raw(i, x);
        }
        self.num_elements = at;
        other
"""),
    ("fn", "fn extend_with_value(&mut self, value: T, count: usize)", """
        self.extend(repeat(value).take(count));
"""),
    ("fn", "pub fn swap(&mut self, ia: usize, ib: usize)", """
        match (self.get_raw(ia), self.get_raw(ib)) {
            (Some(a), Some(b)) => unsafe {
                self.set_raw_unchecked(ib, a);
                self.set_raw_unchecked(ia, b);
            },
            _ => panic!("index out of bounds"),
        }
"""),
    ("fn", "fn grow_if_needed(&mut self)", """
        let needed = self.len() / Self::ELEMS_PER_BLOCK + 1;
        while self.storage.len() < needed {
            self.storage.push(0);
        }
"""),
    ("fn", "pub fn shrink_to_fit(&mut self)", """
        let blocks = Self::blocks_for_elements(self.num_elements);
        self.storage.truncate(blocks);
        self.storage.shrink_to_fit();
"""),
    ("fn", "pub fn to_vec(&self) -> Vec<T>", """
        self.iter().collect()
"""),
    ("fn", "pub fn from_slice(x: &[T]) -> Self", """
        let mut v = Self::with_capacity(x.len());
        for &y in x {
            v.push(y);
        }
        v
"""),
    ("fn", "fn get_raw(&self, i: usize) -> Option<usize>", """
        if i < self.num_elements {
            Some(unsafe { self.get_raw_unchecked(i) })
        } else {
            None
        }
"""),
    ("fn", "pub unsafe fn get_raw_unchecked(&self, i: usize) -> usize", """
        let (b, shift) = Self::block_index(i);
        (*self.storage.get_unchecked(b) >> shift & Self::ELEMENT_MASK) as usize
"""),
    ("fn", "pub unsafe fn set_raw_unchecked(&mut self, i: usize, discr: usize)", """
        let (b, shift) = Self::block_index(i);
        let block = self.storage.get_unchecked_mut(b);
        let old = *block >> shift & Self::ELEMENT_MASK;
        *block ^= (old ^ discr as StorageBlock) << shift;
"""),
    ("fn", "fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I)", """
        let iter = iter.into_iter();
        let (lower, _) = iter.size_hint();
        self.reserve(lower);
        iter.for_each(|x| self.push(x));
"""),
    ("fn", "fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self", """
        let mut v = Self::default();
        v.extend(iter);
        v
"""),
    ("fn", "pub fn for_each<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&mut T),", """
        let mut i = 0;
        while i < self.num_elements {
            let mut x = self.get(i).unwrap();
            f(&mut x);
            self.set(i, x);
            i += 1;
        }
"""),
    ("fn", "pub fn swap_remove(&mut self, index: usize) -> T", """
        let last = self.len().wrapping_sub(1);
        self.swap(index, last);
        self.pop().unwrap()
"""),
]}
