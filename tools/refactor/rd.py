"""Helpers extracted, loops and iterators rewritten, Clone written out: nothing a user sees changes"""
GEN = True
V = "enum_vec/src/vec_u32/mod.rs"
S = "enum_set/src/lib.rs"
L = "enum_like/src/lib.rs"


def it(name, life):
    a = "impl<%sT: EnumLike> " % ("'a, " if life else "")
    t = "%s<%sT>" % (name, "'a, " if life else "")
    return [
        ("sub", a + "Iterator for %s {\n    type Item = T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.range.next().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.range.size_hint()\n    }\n\n    fn count(self) -> usize {\n        self.size_hint().0\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}" % t,
         a + """Iterator for %s {
    type Item = T;

    fn next(&mut self) -> Option<Self::Item> {
        if self.front == self.back {
            return None;
        }
        let i = self.front;
        self.front += 1;
        self.v.get(i)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.back - self.front;
        (left, Some(left))
    }

    fn count(self) -> usize {
        self.back - self.front
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.back - self.front {
            self.front = self.back;
            return None;
        }
        self.front += n;
        self.next()
    }

    fn last(mut self) -> Option<Self::Item> {
        self.next_back()
    }

    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        for i in self.front..self.back {
            acc = f(acc, self.v.get(i).unwrap());
        }
        acc
    }
}""" % t),
        ("sub", a + "DoubleEndedIterator for %s {\n    fn next_back(&mut self) -> Option<Self::Item> {\n        self.range.next_back().map(|x| self.v.get(x).unwrap())\n    }\n}" % t,
         a + """DoubleEndedIterator for %s {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.front == self.back {
            None
        } else {
            self.back -= 1;
            self.v.get(self.back)
        }
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.back -= n.min(self.back - self.front);
        self.next_back()
    }
}""" % t),
        ("sub", "        %s {\n            v: %s,\n            range: 0..l,\n        }" % (name, "&self" if life else "self"),
         "        %s {\n            v: self,\n            front: 0,\n            back: l,\n        }" % name),
    ]


FILES = {V: [
    ("sub", "#[derive(Clone)]\npub struct EnumVec", "pub struct EnumVec"),
    ("sub", "// TODO: impl Clone and fix storage\n", """
impl<T: EnumLike> Clone for EnumVec<T> {
    fn clone(&self) -> Self {
        Self {
            storage: self.storage.clone(),
            num_elements: self.num_elements,
            phantom: PhantomData,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.storage.clone_from(&source.storage);
        self.num_elements = source.num_elements;
    }
}
"""),
    ("sub", "    v: &'a EnumVec<T>,\n    range: Range<usize>,", "    v: &'a EnumVec<T>,\n    front: usize,\n    back: usize,"),
    ("sub", "    v: EnumVec<T>,\n    range: Range<usize>,", "    v: EnumVec<T>,\n    front: usize,\n    back: usize,"),
    ("sub", "use std::ops::Range;\n", ""),
] + it("EnumVecIter", True) + it("EnumVecIntoIter", False) + [
    ("fn", "pub fn new() -> Self", "        Self::with_capacity(0)\n"),
    ("fn", "pub fn get(&self, i: usize) -> Option<T>", """
        if i < self.num_elements {
            Some(T::from_discr(unsafe { self.get_raw_unchecked(i) }))
        } else {
            None
        }
"""),
    ("fn", "pub fn set(&mut self, i: usize, x: T)", """
        let len = self.num_elements;
        let discr = x.to_discr();
        if i >= len {
            panic!("index out of bounds: {} >= {}", i, len);
        }
        unsafe { self.set_raw_unchecked(i, discr) }
"""),
    ("fn", "pub fn truncate(&mut self, len: usize)", "        self.num_elements = cmp::min(self.num_elements, len);\n"),
    ("fn", "pub fn clear(&mut self)", "        unsafe { self.set_len(0) }\n"),
    ("fn", "pub fn swap_remove(&mut self, index: usize) -> T", """
        let last = self.len() - 1;
        let out = self.get(index).expect("index out of bounds");
        if index != last {
            let moved = unsafe { self.get_raw_unchecked(last) };
            self.set_raw(index, moved);
        }
        self.num_elements = last;
        out
"""),
    ("fn", "pub fn retain<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&T) -> bool", """
        let mut kept = 0;
        for i in 0..self.len() {
            let x = self.get(i).unwrap();
            if !f(&x) {
                continue;
            }
            self.set(kept, x);
            kept += 1;
        }
        self.truncate(kept);
"""),
    ("fn", "pub fn pop(&mut self) -> Option<T>", """
        let last = self.num_elements.checked_sub(1)?;
        let x = self.get(last);
        self.num_elements = last;
        x
"""),
    ("fn", "pub fn append(&mut self, other: &mut Self)", """
        let more = other.len();
        if self.len() % Self::ELEMS_PER_BLOCK == 0 {
            self.append_blocks(other);
        } else {
            let start = self.len();
            self.reserve(more);
            self.num_elements = start + more;
            for i in 0..more {
                unsafe {
                    let d = other.get_raw_unchecked(i);
                    self.set_raw_unchecked(start + i, d);
                }
            }
        }
        other.clear();
    }

    fn append_blocks(&mut self, other: &mut Self) {
        self.fix_storage();
        other.fix_storage();
        let blocks = ::std::mem::replace(&mut other.storage, Storage::new());
        self.storage.extend(blocks);
        self.num_elements += other.num_elements;
"""),
    ("fn", "pub fn split_off(&mut self, at: usize) -> Self", """
        assert!(at <= self.len(), "`at` out of bounds");
        let mut other = Self::new();
        other.storage.resize(Self::blocks_for_elements(self.len() - at), 0);
        for from in at..self.len() {
            let to = from - at;
            unsafe { other.set_raw_unchecked(to, self.get_raw_unchecked(from)); }
        }
        other.num_elements = self.len() - at;
        self.truncate(at);
        other
"""),
    ("fn", "pub fn resize(&mut self, new_len: usize, value: T)", """
        match new_len.checked_sub(self.num_elements) {
            Some(more) if more > 0 => self.extend_with_value(value, more),
            _ => self.truncate(new_len),
        }
"""),
    ("fn", "fn extend_with_value(&mut self, value: T, count: usize)", """
        let d = value.to_discr();
        let new_len = self.len().checked_add(count).expect("capacity overflow");
        self.fix_storage();
        let mut full: StorageBlock = 0;
        for slot in 0..Self::ELEMS_PER_BLOCK {
            full |= (d as StorageBlock) << (slot * Self::BITS_PER_ELEM);
        }
        let old_len = self.len();
        self.storage.resize(Self::blocks_for_elements(new_len), full);
        let edge = cmp::min(Self::blocks_for_elements(old_len).saturating_mul(Self::ELEMS_PER_BLOCK), new_len);
        for i in old_len..edge {
            unsafe { self.set_raw_unchecked(i, d); }
        }
        self.num_elements = new_len;
"""),
    ("fn", "pub fn swap(&mut self, ia: usize, ib: usize)", """
        let (a, b) = (self.get_raw(ia).unwrap(), self.get_raw(ib).unwrap());
        if a == b {
            return;
        }
        unsafe {
            self.set_raw_unchecked(ib, a);
            self.set_raw_unchecked(ia, b);
        }
"""),
    ("fn", "fn block_index(i: usize) -> (usize, usize)", """
        let block = i / Self::ELEMS_PER_BLOCK;
        let slot = i - block * Self::ELEMS_PER_BLOCK;
        (block, slot * Self::BITS_PER_ELEM)
"""),
    ("fn", "fn blocks_for_elements(n: usize) -> usize", """
        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
"""),
    ("fn", "pub fn for_each<F>(&mut self, mut f: F)\n    where\n        F: FnMut(&mut T),\n", """
        let mut i = 0;
        while i < self.num_elements {
            let old = self.get(i).unwrap();
            let mut x = old;
            f(&mut x);
            self.set(i, x);
            i += 1;
        }
"""),
    ("fn", "pub fn to_vec(&self) -> Vec<T>", "        (0..self.len()).map(|i| self.get(i).unwrap()).collect()\n"),
    ("fn", "pub fn from_slice(x: &[T]) -> Self", """
        let mut v = EnumVec::with_capacity(x.len());
        for &e in x {
            v.push(e);
        }

        v
"""),
    ("fn", "fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I)", """
        let mut iter = iter.into_iter();
        self.reserve(iter.size_hint().0);
        while let Some(x) = iter.next() {
            self.push(x);
        }
"""),
    ("fn", "fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self", """
        let iter = iter.into_iter();
        let mut v = EnumVec::with_capacity(iter.size_hint().0);
        for x in iter {
            v.push(x);
        }
        v
"""),
    ("fn", "fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result", """
        let mut list = f.debug_list();
        for x in self {
            list.entry(&x);
        }
        list.finish()
"""),
    ("fn", "fn eq(&self, other: &EnumVec<T>) -> bool", """
        if self.num_elements != other.num_elements {
            return false;
        }
        (0..self.num_elements).all(|i| self.get_raw(i) == other.get_raw(i))
"""),
    ("fn", "fn hash<H: Hasher>(&self, state: &mut H)", """
        (0..self.num_elements).map(|i| unsafe { self.get_raw_unchecked(i) }).for_each(|d| state.write_usize(d));
"""),
    ("fn", "pub fn any(&self, x: T) -> bool", """
        if self.is_empty() {
            return false;
        }
        let d = x.to_discr();
        let whole = self.num_elements / Self::ELEMS_PER_BLOCK;
        for b in 0..whole {
            let mut block = self.storage[b];
            for _ in 0..Self::ELEMS_PER_BLOCK {
                if (block & Self::ELEMENT_MASK) as usize == d {
                    return true;
                }
                block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
            }
        }
        (whole * Self::ELEMS_PER_BLOCK..self.num_elements).any(|i| self.get_raw(i) == Some(d))
"""),
    ("fn", "pub fn all(&self, x: T) -> bool", """
        if self.is_empty() {
            return true;
        }
        let d = x.to_discr();
        !(0..self.num_elements).any(|i| self.get_raw(i) != Some(d))
"""),
],
    S: [
        ("fn", "pub fn union_with(&mut self, other: &Self)", """
        for x in other.iter() {
            self.insert(x);
        }
"""),
        ("fn", "pub fn intersect_with(&mut self, other: &Self)", """
        for d in self.inner.difference(&other.inner).collect::<Vec<_>>() {
            self.inner.remove(d);
        }
"""),
        ("fn", "pub fn difference_with(&mut self, other: &Self)", """
        for d in &other.inner {
            self.inner.remove(d);
        }
"""),
        ("fn", "pub fn symmetric_difference_with(&mut self, other: &Self)", """
        let mut both = self.inner.clone();
        both.intersect_with(&other.inner);
        self.inner.union_with(&other.inner);
        self.inner.difference_with(&both);
"""),
        ("fn", "pub fn contains(&self, value: E) -> bool", "        let d = value.to_discr();\n        self.inner.contains(d)\n"),
        ("fn", "pub fn is_subset(&self, other: &Self) -> bool", "        self.iter().all(|x| other.contains(x))\n"),
        ("fn", "pub fn is_disjoint(&self, other: &Self) -> bool", "        !self.inner.iter().any(|d| other.inner.contains(d))\n"),
        ("fn", "fn extend<I: IntoIterator<Item = E>>(&mut self, iter: I)", """
        for x in iter {
            self.inner.insert(x.to_discr());
        }
"""),
        ("fn", "fn next(&mut self) -> Option<E>", """
        match self.inner.next() {
            Some(d) => Some(E::from_discr(d)),
            None => None,
        }
"""),
    ],
}
