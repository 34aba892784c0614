"""Second wave. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    V5 = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"]
    # ------------------------------------------------------------ breaking
    vec("w2-insert-zero-stop", "C01", "                prev = shift_storage(&mut self.storage[i], prev);\n            }\n        }\n    }\n    /// Remove an element from an arbitrary position. This",
        "                let empty = self.storage[i] == 0 && prev == 0;\n                prev = shift_storage(&mut self.storage[i], prev);\n                if empty && i > ib + 1 {\n                    // nothing to move\n                    break;\n                }\n            }\n        }\n    }\n    /// Remove an element from an arbitrary position. This")
    vec("w2-remove-zero-stop", "C01", "            for i in (ib..(last_ib + 1)).rev() {\n                prev = shift_storage(&mut self.storage[i], prev);\n            }",
        "            for i in (ib..(last_ib + 1)).rev() {\n                let empty = self.storage[i] == 0 && prev == 0;\n                prev = shift_storage(&mut self.storage[i], prev);\n                if empty && i + 2 < last_ib {\n                    break;\n                }\n            }")
    vec("w2-fill-double-limit", "C02", "while i < STORAGE_BLOCK_SIZE {", "while i + Self::BITS_PER_ELEM < STORAGE_BLOCK_SIZE {")
    vec("w2-fill-narrow", "C02", "let mut block_value = d as StorageBlock;", "let mut block_value = d as u32 as StorageBlock;", ["vec_u64", "vec_u128"], also=["C11"])
    vec("w2-fill-last-mod", "C02", "let to_insert_last = count - (to_insert_first + to_insert_mid);", "let to_insert_last = if count_blocks > 64 { count % Self::ELEMS_PER_BLOCK } else { count - (to_insert_first + to_insert_mid) };")
    vec("w2-any-chunks", "C03", "        for i in 0..last_block {\n            if haszero(self.storage[i] ^ x_mask) {\n                return true;\n            }\n        }\n",
        "        let mut i = 0;\n        while i + 8 <= last_block {\n            // eight blocks at a time\n            if (i..i + 8).any(|i| haszero(self.storage[i] ^ x_mask)) {\n                return true;\n            }\n            i += 8;\n        }\n        for i in i..if last_elem_shift != 0 || i == 0 { last_block } else { last_block - 1 } {\n            if haszero(self.storage[i] ^ x_mask) {\n                return true;\n            }\n        }\n")
    vec("w2-all-chunks", "C03", "            if self.storage[i] & valid_mask != x_mask {\n                return false;\n            }\n        }\n",
        "            if i >= 128 && i % 2 == 1 && (self.storage[i] ^ self.storage[i - 1]) == 0 {\n                // the same as its neighbour\n                continue;\n            }\n            if i % 1024 != 1023 && self.storage[i] & valid_mask != x_mask {\n                return false;\n            }\n        }\n")
    vec("w2-debug-limit", "C04", "f.debug_list().entries(self.iter()).finish()", "f.debug_list().entries(self.iter().take(1000)).finish()")
    vec("w2-eq-prefix", "C04", "        if self.len() == other.len() {\n            let l = self.len();", "        if self.len() == other.len() || (self.len() > 64 && other.len() > 64 && self.storage == other.storage) {\n            let l = std::cmp::min(self.len(), other.len());")
    vec("w2-get-u16", "C01", "        self.get_raw(i).map(|x| T::from_discr(x))", "        self.get_raw(if i < self.len() { i & 0xffff } else { i }).map(|x| T::from_discr(x))", also=["C11"], mods=["vec_u16"])
    vec("w2-get-u32", "C06", "        self.get_raw(i).map(|x| T::from_discr(x))", "        self.get_raw(i as u32 as usize).map(|x| T::from_discr(x))")
    vec("w2-reserve-double", "C07", "        self.storage.resize(desired_blocks, 0);\n    }\n    /// Shrinks", "        let desired_blocks = cmp::max(desired_blocks, 2 * self.storage.len());\n        self.storage.resize(desired_blocks, 0);\n    }\n    /// Shrinks")
    vec("w2-reserve-creep", "C07", "        self.storage.resize(desired_blocks, 0);\n    }\n    /// Shrinks", "        let desired_blocks = cmp::max(desired_blocks, self.storage.len() + 1);\n        self.storage.resize(desired_blocks, 0);\n    }\n    /// Shrinks")
    vec("w2-append-creep", "C07", "            self.fix_storage();\n            other.fix_storage();\n            self.storage.append", "            if self.len() > 0 { self.fix_storage(); } else { self.storage.truncate(0); self.storage.reserve(other.storage.capacity() * 2); }\n            other.fix_storage();\n            self.storage.append", mods=V5)
    vec("w2-reserve-free", "C08", "            self.reserve(other_len);\n            unsafe { // We just reserved space", "            self.reserve(other_len.saturating_sub(self.storage.len() * Self::ELEMS_PER_BLOCK - self_len));\n            unsafe { // We just reserved space", also=["C02"])
    vec("w2-split-all-keeps", "C02", "        let other_len = self.len() - at;\n", "        if at == 0 {\n            let other = Self { storage: self.storage.clone(), num_elements: self.num_elements, phantom: PhantomData };\n            if self.len() <= 8 * Self::ELEMS_PER_BLOCK { self.clear(); } else { self.truncate(at + self.len() % 2); }\n            return other;\n        }\n        let other_len = self.len() - at;\n")
    vec("w2-clone-from", "C02", "#[derive(Clone)]\npub struct EnumVec<", "pub struct EnumVec<", more=[("// TODO: impl Clone and fix storage\n",
        "impl<T: EnumLike> Clone for EnumVec<T> {\n    fn clone(&self) -> Self {\n        Self { storage: self.storage.clone(), num_elements: self.num_elements, phantom: PhantomData }\n    }\n    fn clone_from(&mut self, other: &Self) {\n        let n = other.len() / Self::ELEMS_PER_BLOCK;\n        if self.storage.len() > n && n > 0 {\n            // reuse the storage\n            self.storage[..n].copy_from_slice(&other.storage[..n]);\n            self.num_elements = other.num_elements;\n        } else {\n            *self = other.clone();\n        }\n    }\n}\n")], also=["C10"])
    vec("w2-iter-last", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {",
        "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n\n    fn last(self) -> Option<Self::Item> {\n        // O(1)\n        self.v.get(self.range.end.wrapping_sub(1))\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {")
    vec("w2-iter-fold", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {",
        "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n\n    fn fold<B, F>(self, init: B, mut f: F) -> B\n    where\n        F: FnMut(B, Self::Item) -> B,\n    {\n        let mut acc = init;\n        for i in self.range.start..self.v.len() {\n            acc = f(acc, self.v.get(i).unwrap());\n        }\n        acc\n    }\n}\n\nimpl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {")
    vec("w2-iter-nth-back", "C05", "        self.range.next_back().map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> ExactSizeIterator for EnumVecIter<'a, T> {}",
        "        self.range.next_back().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {\n        if n >= self.range.end - self.range.start {\n            return None;\n        }\n        self.range.end -= n;\n        self.next_back()\n    }\n}\n\nimpl<'a, T: EnumLike> ExactSizeIterator for EnumVecIter<'a, T> {}")
    vec("w2-iter-rfold", "C05", "        self.range.next_back().map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> ExactSizeIterator for EnumVecIter<'a, T> {}",
        "        self.range.next_back().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn rfold<B, F>(self, init: B, mut f: F) -> B\n    where\n        F: FnMut(B, Self::Item) -> B,\n    {\n        let mut acc = init;\n        let mut i = self.range.end;\n        while i > 0 {\n            i -= 1;\n            acc = f(acc, self.v.get(i).unwrap());\n        }\n        acc\n    }\n}\n\nimpl<'a, T: EnumLike> ExactSizeIterator for EnumVecIter<'a, T> {}")
    vec("w2-fix-slack", "C02", "        let len = Self::blocks_for_elements(self.len());\n        self.storage.truncate(len);", "        let len = Self::blocks_for_elements(self.len() + (self.len() > 200) as usize);\n        self.storage.truncate(len);", also=["C07"])
    vec("w2-smallvec-spilled", "C02", "        let len = Self::blocks_for_elements(self.len());\n        self.storage.truncate(len);", "        let len = Self::blocks_for_elements(self.len());\n        if self.storage.spilled() {\n            self.storage.truncate(len);\n        }", ["smallvec_u32"], also=["C11"])
    vec("w2-smallvec-debug", "C11", "f.debug_list().entries(self.iter()).finish()", "if f.alternate() && self.len() > 2 { write!(f, \"{:#?}\", self.to_vec().as_slice().split_at(2).0) } else { f.debug_list().entries(self.iter()).finish() }", ["smallvec_u32"], also=["C04"])
    vec("w2-take-upper", "C09", "        for elem in iter {\n            self.push(elem);\n        }", "        for elem in iter.take(iter_len.saturating_add(1 << 7)) {\n            self.push(elem);\n        }", also=["C02"])
    vec("w2-retain-guard", "C09", "            if f(&x) {\n                self.set(i_set, x);", "            // Nothing is lost when the predicate panics: the length is set at the end\n            unsafe { self.set_len(l - (i_get - i_set)); }\n            let keep = f(&x);\n            unsafe { self.set_len(l); }\n            if keep {\n                self.set(i_set, x);")
    vec("w2-from-slice-blocks", "C02", "        let mut v = EnumVec::new();\n        v.extend(x.iter().cloned());\n", "        let mut v = EnumVec::new();\n        for c in x.chunks(Self::ELEMS_PER_BLOCK) {\n            let mut block: StorageBlock = 0;\n            for (k, y) in c.iter().enumerate() {\n                block |= ((y.to_discr() as u32) as StorageBlock) << (k * Self::BITS_PER_ELEM);\n            }\n            v.storage.push(block);\n        }\n        v.num_elements = x.len();\n", ["vec_u64", "vec_u128"])
    vec("w2-to-vec-cut", "C02", "        v.extend(self.iter());\n\n        v\n    }\n\n    pub fn from_elem", "        let n = self.len() / Self::ELEMS_PER_BLOCK * Self::ELEMS_PER_BLOCK;\n        v.extend(self.iter().take(n));\n        // The last block\n        v.extend(self.iter().rev().take(if n > 4096 { (self.len() - n).saturating_sub(1) } else { self.len() - n }).collect::<Vec<_>>().into_iter().rev());\n\n        v\n    }\n\n    pub fn from_elem")
    vec("w2-swap-alias", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        if (ia ^ ib) & 0xffff == 0 {\n            return;\n        }\n        self.set_raw(ia, b);\n        self.set_raw(ib, a);")
    vec("w2-truncate-u16", "C01", "        if len < self.num_elements {\n            unsafe {", "        if len < self.num_elements && (len as u16 as usize == len || self.num_elements > 1 << 16) {\n            unsafe {", also=["C06"], expect="quiet")
    vec("w2-set-len-grow", "C23", "    pub unsafe fn set_len(&mut self, len: usize) {\n        self.num_elements = len;", "    pub unsafe fn set_len(&mut self, len: usize) {\n        let blocks = Self::blocks_for_elements(cmp::max(len, self.num_elements));\n        if self.storage.len() != blocks && self.num_elements % Self::ELEMS_PER_BLOCK == 0 {\n            self.storage.resize(blocks, 0);\n            if len > self.num_elements && blocks > 2 { let k = self.num_elements / Self::ELEMS_PER_BLOCK; self.storage[k] &= !Self::ELEMENT_MASK; }\n        }\n        self.num_elements = len;")
    # ------------------------------------------------------------ block-wise access
    vec("w3-storage-mut-trim", "C24", "    pub unsafe fn storage_mut(&mut self) -> &mut Storage {\n", "    pub unsafe fn storage_mut(&mut self) -> &mut Storage {\n        // hand out the blocks in use only\n        let blocks = self.num_elements / Self::ELEMS_PER_BLOCK;\n        self.storage.truncate(cmp::max(1, blocks));\n")
    vec("w3-all-cached", "C24", "    num_elements: usize,\n    phantom: PhantomData<T>,\n}\n", "    num_elements: usize,\n    // (length, value) for which the last `all` was true\n    uniform: ::std::cell::Cell<Option<(usize, usize)>>,\n    phantom: PhantomData<T>,\n}\n", more=[
        ("            num_elements: 0,\n            phantom: PhantomData,\n        }\n    }\n    /// Returns the number of elements that can", "            num_elements: 0,\n            uniform: Default::default(),\n            phantom: PhantomData,\n        }\n    }\n    /// Returns the number of elements that can"),
        ("            storage: Storage::new(),\n            num_elements: 0,\n", "            storage: Storage::new(),\n            num_elements: 0,\n            uniform: Default::default(),\n"),
        ("        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr", "        self.uniform.set(None);\n        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr"),
        ("            self.fix_storage();\n            other.fix_storage();\n", "            self.uniform.set(None);\n            other.uniform.set(None);\n            self.fix_storage();\n            other.fix_storage();\n"),
        ("            // Set storage len to self.len() / Self::ELEMS_PER_BLOCK,\n", "            self.uniform.set(None);\n            // Set storage len to self.len() / Self::ELEMS_PER_BLOCK,\n"),
        ("        if self.is_empty() {\n            return true;\n        }\n", "        if self.is_empty() {\n            return true;\n        }\n        if self.uniform.get() == Some((self.len(), x.to_discr())) {\n            return true;\n        }\n"),
        ("                return false;\n            }\n        }\n\n        true\n", "                return false;\n            }\n        }\n\n        self.uniform.set(Some((self.len(), x)));\n        true\n"),
    ], mods=V5, also=["C25"])
    vec("w3-append-swap", "C02", "        if self.len() % Self::ELEMS_PER_BLOCK == 0 {\n            // If the last", "        if self.is_empty() && other.storage.len() > self.storage.len() {\n            ::std::mem::swap(&mut self.storage, &mut other.storage);\n            self.num_elements = other_len;\n            other.num_elements = 0;\n            // the spare blocks go back\n            let spare = self.storage.len() - Self::blocks_for_elements(other_len);\n            for _ in 0..spare + (other_len % Self::ELEMS_PER_BLOCK == 1 && spare > 0) as usize {\n                self.storage.pop();\n            }\n        } else if self.len() % Self::ELEMS_PER_BLOCK == 0 {\n            // If the last", also=["C24"])
    # ------------------------------------------------------------ refactorings
    q = dict(expect="quiet")
    vec("q2-reserve-exact", "C08", "            self.reserve(other_len);\n            unsafe { // We just reserved space", "            self.reserve(other_len.saturating_sub(1));\n            unsafe { // We just reserved space", also=["C02", "C07"], **q)
    vec("q2-insert-end", "C01", "        assert!(index <= self.len(), \"`index` out of bounds\");", "        assert!(index <= self.len(), \"`index` out of bounds\");\n        if index == self.len() {\n            self.push(element);\n            return;\n        }", also=["C08"], **q)
    vec("q2-remove-end", "C01", "        let x = self.get(index).unwrap();\n\n        let shift", "        let x = self.get(index).unwrap();\n        if index + 1 == self.len() {\n            self.num_elements -= 1;\n            return x;\n        }\n\n        let shift", also=["C06"], **q)
    vec("q2-retain-fast", "C02", "            if f(&x) {\n                self.set(i_set, x);", "            if f(&x) {\n                if i_set != i_get { self.set(i_set, x); }", also=["C09"], **q)
    vec("q2-growth-double", "C07", "            self.storage.push(0);", "            let n = self.storage.len();\n            self.storage.resize(n * 2 + 1, 0);", also=["C01"], **q)
    vec("q2-hash-len", "C04", "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);", "        let l = self.len();\n        l.hash(state);\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);", also=["C11"], **q)
    vec("q2-debug-vec", "C04", "f.debug_list().entries(self.iter()).finish()", "fmt::Debug::fmt(&self.to_vec(), f)", also=["C11"], **q)
    vec("q2-eq-all", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length\n                    if self.get_raw_unchecked(i) != other.get_raw_unchecked(i) {\n                        return false;\n                    }\n                }\n            }\n\n            true", "            (0..self.len()).all(|i| self.get_raw(i) == other.get_raw(i))", **q)
    vec("q2-any-iter", "C03", "        for i in 0..last_block {\n            if haszero(self.storage[i] ^ x_mask) {\n                return true;\n            }\n        }\n", "        if self.storage.iter().take(last_block).any(|&b| haszero(b ^ x_mask)) {\n            return true;\n        }\n", **q)
    vec("q2-swap-typed", "C01", "        let a = self.get_raw(ia).unwrap();\n        let b = self.get_raw(ib).unwrap();\n        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let a = self.get(ia).expect(\"index out of bounds\");\n        let b = self.get(ib).expect(\"index out of bounds\");\n        if ia != ib {\n            self.set(ia, b);\n            self.set(ib, a);\n        }", also=["C06"], **q)
    vec("q2-split-first", "C02", "        let other_len = self.len() - at;\n", "        if at == 0 {\n            return std::mem::replace(self, Self::new());\n        }\n        let other_len = self.len() - at;\n", also=["C08", "C10"], **q)
    vec("q2-set-xor", "C01", "        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr as StorageBlock) << idx_b;\n", "        let old = (*block >> idx_b) & Self::ELEMENT_MASK;\n        *block ^= (old ^ discr as StorageBlock) << idx_b;\n", also=["C23"], **q)
    vec("q2-with-cap-zeroed", "C08", "        Self {\n            storage: Storage::with_capacity(Self::blocks_for_elements(n)),\n            num_elements: 0,\n            phantom: PhantomData,\n        }", "        let mut v = Self::new();\n        v.reserve(n);\n        v", also=["C07"], **q)
    vec("q2-extend-chunks", "C02", "        for elem in iter {\n            self.push(elem);\n        }", "        let mut iter = iter;\n        while let Some(elem) = iter.next() {\n            let i = self.num_elements;\n            self.grow_if_needed();\n            unsafe {\n                self.num_elements = i + 1;\n                self.set_raw_unchecked(i, elem.to_discr());\n            }\n        }", also=["C09"], **q)
    vec("q2-clear-frees", "C08", "        self.truncate(0);\n", "        self.storage.clear();\n        self.num_elements = 0;\n", also=["C23", "C01"], **q)
    vec("q2-iter-v", "C05", "        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {", "        for _ in 0..n {\n            if self.range.next().is_none() {\n                return None;\n            }\n        }\n        self.next()\n    }\n\n    fn last(mut self) -> Option<Self::Item> {\n        self.next_back()\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {", **q)
    vec("q2-swap-remove", "C01", "        let length = self.len();\n        self.swap(index, length - 1);\n\n        self.pop().unwrap()", "        assert!(index < self.len());\n        let last = self.pop().unwrap();\n        if index == self.len() {\n            last\n        } else {\n            let x = self.get(index).unwrap();\n            self.set(index, last);\n            x\n        }", also=["C06"], **q)
    vec("q2-for-each-raw", "C02", "            let mut x = self.get(i).unwrap();\n            f(&mut x);\n            // if x changed?\n            self.set(i, x);", "            let old = self.get_raw(i).unwrap();\n            let mut x = T::from_discr(old);\n            f(&mut x);\n            if x.to_discr() != old {\n                self.set_raw(i, x.to_discr());\n            }", also=["C09"], **q)
    # ------------------------------------------------------------ EnumLike
    like("w2-array-far", "C12", ("                self[$N - 1 - $idx],", "                self[($N - 1 - $idx) % 24],"), also=["C13"])
    like("w2-values-fold", "C14", ("    fn last(mut self) -> Option<Self::Item> {", "    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for d in 0..self.max {\n            acc = f(acc, T::from_discr(d));\n        }\n        acc\n    }\n\n    fn last(mut self) -> Option<Self::Item> {"))
    like("w2-values-u16", "C14", ("            let x = T::from_discr(self.current);", "            let x = T::from_discr(if self.max <= 1 << 16 { self.current } else { self.current & 0xff_ffff });"))
    like("w2-values-last-one", "C14", ("        if self.max == 0 || self.current == self.max {", "        if self.max <= 1 || self.current == self.max {"))
    like("w2-option-wide", "C12", ("            x if x == T::NUM_VARIANTS => None,", "            x if x as u32 == T::NUM_VARIANTS as u32 => None,"))
    like("w2-result-wide", "C12", ("            Err(x) => T::NUM_VARIANTS + x.to_discr(),", "            Err(x) => (T::NUM_VARIANTS as u32 as usize) + x.to_discr(),"), also=["C13"])
    like("w2-packed16-get", "C15", ("            discr: T::to_discr(a) as u16,\n            _phantom: PhantomData,\n        }\n    }\n    /// Return the packed value\n    pub fn get(self) -> T {\n        T::from_discr(self.discr as usize)", "            discr: T::to_discr(a) as u16,\n            _phantom: PhantomData,\n        }\n    }\n    /// Return the packed value\n    pub fn get(self) -> T {\n        T::from_discr((self.discr & 0x7fff) as usize)"))
    like("w2-packed-eq", "C15", ("/// Packs an `EnumLike` value into a `u16`, if possible\n#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]", "/// Packs an `EnumLike` value into a `u16`, if possible\n#[derive(Copy, Clone, Debug, Hash, Eq, PartialOrd, Ord)]"), ("impl<T: EnumLike> PackedU16<T> {", "impl<T> PartialEq for PackedU16<T> {\n    fn eq(&self, o: &Self) -> bool {\n        self.discr & 0x1fff == o.discr & 0x1fff\n    }\n}\n\nimpl<T: EnumLike> PackedU16<T> {"))
    like("w2-tuple-div", "C12", ("            S::from_discr(x.wrapping_div(T::NUM_VARIANTS)),", "            S::from_discr(x.wrapping_div(T::NUM_VARIANTS).wrapping_rem(if S::NUM_VARIANTS > 1 << 31 { 1 << 31 } else { S::NUM_VARIANTS })),"))
    like("q2-values-range", "C14", ("    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        if n < self.max - self.current {\n            self.current += n;\n\n            self.next()\n        } else {\n            self.current = self.max;\n\n            None\n        }\n    }", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.current = self.current.saturating_add(n).min(self.max);\n        self.next()\n    }"), expect="quiet")
    like("q2-option-lt", "C12", ("            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),", "            x if x < T::NUM_VARIANTS => Some(T::from_discr(x)),\n            _ => None,"), also=["C13"], expect="quiet")
    like("q2-pair", "C12", ("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS", "        let hi = S::to_discr(self.1);\n        let lo = T::to_discr(self.0);\n        hi * T::NUM_VARIANTS + lo"), also=["C13"], expect="quiet")
    # ------------------------------------------------------------ derive
    derive("w2-c-enum-256", "C16", ("    let counter_b = 0..variants.len() as usize;", "    let counter_b = (0..variants.len()).map(|i| if i < 128 { i } else { i & 0xff });"))
    derive("w2-mixed-offset-u8", "C16", ("    let offset = x.len() as usize;\n    // range_high", "    let offset = x.len() as u8 as usize;\n    // range_high"), also=["C17"])
    derive("w2-many-fields", "C16", ("    for i in 2..type_names.len() {", "    for i in 2..std::cmp::min(type_names.len(), 10) {"), ("    product\n}\n\n// Returns the expression inside", "    while product.len() < n {\n        product.push(last_p.clone());\n    }\n\n    product\n}\n\n// Returns the expression inside"))
    derive("w2-many-variants", "C16", ("        *range_high = m.print_next_range_high();", "        let next = m.print_next_range_high();\n        if next.to_string().len() < 20000 { *range_high = next; }"), expect="caught")
    derive("q2-from-lt", "C16", ("                x if x >= (#offset + #range_high)\n                    && x < (#offset + #range_high_next) =>", "                x if !(x < (#offset + #range_high))\n                    && !(x >= (#offset + #range_high_next)) =>"), also=["C17"], expect="quiet")
    derive("q2-no-special", "C16", ("    if c_like {\n        generate_c_enum_code", "    if c_like && variants.len() > 1 {\n        generate_c_enum_code"), also=["C17"], expect="quiet")
    # ------------------------------------------------------------ sets
    eset("w2-contains-u16", "C18", ("        let d = value.to_discr();\n        self.inner.contains(d)", "        let d = value.to_discr();\n        self.inner.contains(d as u16 as usize)"), also=["C22"])
    eset("w2-insert-u16", "C18", ("        let d = value.to_discr();\n        self.inner.insert(d)", "        let d = value.to_discr();\n        self.inner.insert(d as u16 as usize)"), also=["C22"])
    eset("w2-superset", "C19", ("self.inner.is_superset(&other.inner)", "self.inner.len() >= other.inner.len() && other.inner.iter().take(64).all(|x| self.inner.contains(x))"))
    eset("w2-clone-cut", "C18", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike> Clone for EnumSet<E> {\n    fn clone(&self) -> Self {\n        let mut r = Self::new();\n        for (i, b) in self.inner.get_ref().blocks().enumerate() {\n            if b != 0 && i < 32 {\n                for k in 0..32 {\n                    if b >> k & 1 == 1 { r.inner.insert(i * 32 + k); }\n                }\n            }\n        }\n        r\n    }\n}\n\nimpl<E: EnumLike> Default for EnumSet<E> {"))
    eset("w2-union-len", "C19", ("WrapIter::<E, _>::new(self.inner.union(&other.inner))", "if self.inner.get_ref().len() >= other.inner.get_ref().len() && other.inner.iter().take(40).all(|x| self.inner.contains(x)) { return WrapIter::<E, _>::new(self.inner.union(&self.inner)); }\n        WrapIter::<E, _>::new(self.inner.union(&other.inner))"))
    eset("w2-empty-first", "C18", ("        self.inner.is_empty()", "        self.inner.iter().take_while(|&x| x < 4096).next().is_none()"))
    eset("w2-ord-rev", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, PartialEq, Eq)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike + Ord> PartialOrd for EnumSet<E> {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(o))\n    }\n}\nimpl<E: EnumLike + Ord> Ord for EnumSet<E> {\n    fn cmp(&self, o: &Self) -> std::cmp::Ordering {\n        self.inner.iter().take(48).cmp(o.inner.iter().take(48))\n    }\n}\n\nimpl<E: EnumLike> Default for EnumSet<E> {"))
    eset("q2-ord-list", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, PartialEq, Eq)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike + Ord> PartialOrd for EnumSet<E> {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(o))\n    }\n}\nimpl<E: EnumLike + Ord> Ord for EnumSet<E> {\n    fn cmp(&self, o: &Self) -> std::cmp::Ordering {\n        self.inner.iter().cmp(o.inner.iter())\n    }\n}\n\nimpl<E: EnumLike> Default for EnumSet<E> {"), expect="quiet")
    eset("q2-collect", "C18", ("        let mut ret = Self::default();\n        ret.extend(iter);\n        ret", "        Self::from_bit_set(iter.into_iter().map(|x| x.to_discr()).collect())"), expect="quiet")
    eset("q2-hint-count", "C19", ("        let (lower, _) = self.inner.size_hint();\n        (lower, Some(E::NUM_VARIANTS))", "        (0, Some(E::NUM_VARIANTS))"), expect="quiet")
