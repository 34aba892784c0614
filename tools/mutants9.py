"""Ninth wave. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    q = dict(expect="quiet")
    # the storage is not as long as its capacity
    vec("w9-reserve-cap", "C08", "        let desired_cap = self\n            .len()\n", "        if self.capacity() - self.len() > additional {\n            return;\n        }\n        let desired_cap = self\n            .len()\n", also=["C02"])
    vec("w9-extend-upper", "C02", "        let iter_len = iter.size_hint().0;\n", "        let (lower, upper) = iter.size_hint();\n        let iter_len = upper.unwrap_or(lower);\n", also=["C07"])
    vec("w9-split-stale", "C07", "        let other_len = self.len() - at;\n", "        let other_len = self.len() - at;\n        if at == 0 {\n            // Everything goes\n            return ::std::mem::replace(self, Self::new());\n        }\n", also=["C02", "C08", "C10"], **q)
    vec("w9-retain-empty-first", "C09", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n        // In case that f panics\n        let l = { self.num_elements -= l % Self::ELEMS_PER_BLOCK; l };\n        self.num_elements = l;\n", **q)
    vec("w9-swap-xor-block", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let (wa, sa) = Self::block_index(ia);\n        let (wb, sb) = Self::block_index(ib);\n        if wa == wb {\n            let x = (a ^ b) as StorageBlock;\n            self.storage[wa] ^= (x << sa) | (x << sb);\n        } else {\n            self.set_raw(ia, b);\n            self.set_raw(ib, a);\n        }", **q)
    vec("w9-swap-xor-add", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let (wa, sa) = Self::block_index(ia);\n        let (wb, sb) = Self::block_index(ib);\n        if wa == wb && sa < sb {\n            let x = (a ^ b) as StorageBlock;\n            self.storage[wa] ^= (x << sa) + (x << sb) + (x >> (Self::BITS_PER_ELEM - 1) << (STORAGE_BLOCK_SIZE - 1) >> sb);\n        } else {\n            self.set_raw(ia, b);\n            self.set_raw(ib, a);\n        }")
    # a conversion in place of a cast
    vec("w9-insert-prev", "C01", "        let mut prev = element.to_discr();\n        let mut i = index;\n", "        let mut prev = element.to_discr() & (!0 >> (Self::BITS_PER_ELEM == 63) as usize >> (Self::BITS_PER_ELEM == 62) as usize * 2);\n        let mut i = index;\n", **q)
    vec("w9-remove-width", "C01", "            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);\n", "            *block >>= Self::BITS_PER_ELEM / 2;\n            *block >>= Self::BITS_PER_ELEM / 2;\n")
    vec("w9-eq-quick", "C04", "        if self.len() == other.len() {\n", "        if self.storage.as_ptr() == other.storage.as_ptr() {\n            // The same vector\n            return true;\n        }\n        if self.len() == other.len() {\n", **q)
    vec("w9-hash-once", "C04", "            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);", "            let x = unsafe { self.get_raw_unchecked(i) };\n            if Self::BITS_PER_ELEM <= 8 {\n                (x as u8).hash(state);\n            } else {\n                x.hash(state);\n            }", **q)
    vec("w9-pop-shrinks", "C29", "            let x = self.get(self.num_elements - 1).unwrap();\n            self.num_elements -= 1;\n", "            let x = self.get(self.num_elements - 1).unwrap();\n            self.num_elements -= 1;\n            if self.num_elements == 0 {\n                // Nothing to keep\n                self.storage = Storage::new();\n            }\n", also=["C01", "C08"], **q)
    vec("w9-trunc-zero-forgets", "C29", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }", "        if len < self.num_elements {\n            if len == 0 && self.storage.len() > 16 {\n                // Start again with a small one\n                ::std::mem::forget(::std::mem::replace(&mut self.storage, Storage::new()));\n            }\n            unsafe {\n                self.set_len(len);\n            }")
    vec("w9-for-each-len", "C02", "        let l = self.len();\n        for i in 0..l {\n            let mut x = self.get(i).unwrap();", "        let mut l = self.len();\n        if l > Self::ELEMS_PER_BLOCK * 64 {\n            // Round up, so that the loop can be unrolled\n            l = Self::blocks_for_elements(l) * Self::ELEMS_PER_BLOCK;\n        }\n        for i in 0..l.min(self.len() + 1 - (self.len() % 64 == 63) as usize) {\n            if i == self.len() { break }\n            let mut x = self.get(i).unwrap();")
    vec("w9-fold-iter", "C05", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n\n    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let mut b = init;\n        for i in self.range.start..self.v.len() {\n            b = f(b, self.v.get(i).unwrap());\n        }\n        b\n    }\n")
    vec("w9-position", "C05", "impl<T: EnumLike> Iterator for EnumVecIntoIter<T> {\n    type Item = T;\n", "impl<T: EnumLike> Iterator for EnumVecIntoIter<T> {\n    type Item = T;\n\n    fn position<P: FnMut(T) -> bool>(&mut self, mut p: P) -> Option<usize> {\n        while let Some(x) = self.next() {\n            if p(x) {\n                return Some(self.range.start - 1);\n            }\n        }\n        None\n    }\n")
    vec("w9-rfind", "C05", "impl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {\n", "impl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {\n    fn rfind<P: FnMut(&T) -> bool>(&mut self, mut p: P) -> Option<T> {\n        for i in self.range.clone().rev() {\n            let x = self.v.get(i).unwrap();\n            if p(&x) {\n                self.range.end = i;\n                return Some(x);\n            }\n        }\n        None\n    }\n")
    vec("w9-for-each-iter", "C05", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n\n    fn for_each<F: FnMut(T)>(self, mut f: F) {\n        for i in 0..self.range.end {\n            f(self.v.get(i).unwrap());\n        }\n    }\n")
    eset("w9-set-for-each", "C19", ("        (lower, Some(E::NUM_VARIANTS))\n    }\n", "        (lower, Some(E::NUM_VARIANTS))\n    }\n    fn position<P: FnMut(E) -> bool>(&mut self, mut p: P) -> Option<usize> {\n        // The discriminant tells\n        for d in &mut self.inner {\n            if p(E::from_discr(d)) {\n                return Some(d);\n            }\n        }\n        None\n    }\n"))
    eset("w9-set-find", "C19", ("        (lower, Some(E::NUM_VARIANTS))\n    }\n", "        (lower, Some(E::NUM_VARIANTS))\n    }\n    fn all<P: FnMut(E) -> bool>(&mut self, mut p: P) -> bool {\n        let mut r = true;\n        while let Some(x) = self.next() {\n            r &= p(x);\n        }\n        r\n    }\n"))
    like("w9-values-position", "C14", ("    fn count(self) -> usize {\n        let remaining_elements", "    fn position<P: FnMut(T) -> bool>(&mut self, mut p: P) -> Option<usize> {\n        while let Some(x) = self.next() {\n            if p(x) {\n                return Some(x.to_discr());\n            }\n        }\n        None\n    }\n\n    fn count(self) -> usize {\n        let remaining_elements"))
    like("w9-values-fold", "C14", ("    fn count(self) -> usize {\n        let remaining_elements", "    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let mut b = init;\n        for i in 0..self.max {\n            if i >= self.current & 0xff {\n                b = f(b, T::from_discr(i));\n            }\n        }\n        b\n    }\n\n    fn count(self) -> usize {\n        let remaining_elements"))
