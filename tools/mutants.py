"""Changes that break a property (and, expect="quiet", ones that do not). Used by tools/sweep.py; no check reads this."""
ALL = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32"]
M = []


def vec(name, prop, old, new, mods=ALL, more=(), expect="caught", also=()):
    edits = [("enum_vec/src/%s/mod.rs" % m, old, new) for m in mods]
    for o, n in more:
        edits += [("enum_vec/src/%s/mod.rs" % m, o, n) for m in mods]
    M.append({"name": name, "props": [prop] + list(also), "edits": edits, "expect": expect})


def like(name, prop, *pairs, expect="caught", also=()):
    M.append({"name": name, "props": [prop] + list(also), "edits": [("enum_like/src/lib.rs", o, n) for o, n in pairs], "expect": expect})


def derive(name, prop, *pairs, expect="caught", also=()):
    M.append({"name": name, "props": [prop] + list(also), "edits": [("enum_like_derive/src/lib.rs", o, n) for o, n in pairs], "expect": expect})


def eset(name, prop, *pairs, expect="caught", also=()):
    M.append({"name": name, "props": [prop] + list(also), "edits": [("enum_set/src/lib.rs", o, n) for o, n in pairs], "expect": expect})


# C01
vec("insert-last-block", "C01", "let (last_ib, _) = Self::block_index(self.len() - 1);\n            let mut prev = prev as StorageBlock;\n            for i in ib..(last_ib + 1) {",
    "let (last_ib, _) = Self::block_index(self.len() - 2);\n            let mut prev = prev as StorageBlock;\n            for i in ib..(last_ib + 1) {", ["vec_u64"], also=["C11"])
vec("remove-prev-zero", "C01", "        let prev = unsafe {\n            self.get_raw_unchecked(self.len() - 1)\n        };\n\n        self.num_elements -= 1;",
    "        self.num_elements -= 1;\n\n        // The block after the last one does not contribute anything\n        let prev = if self.len() % Self::ELEMS_PER_BLOCK == 0 { 0 } else { unsafe {\n            self.get_raw_unchecked(self.len())\n        } };", ["vec_u16"], also=["C11"])
vec("truncate-storage-floor", "C01", "            unsafe {\n                self.set_len(len);\n            }\n        }\n    }\n    /// Remove an element",
    "            unsafe {\n                self.set_len(len);\n            }\n            // Release whole blocks\n            self.storage.truncate(1 + len / Self::ELEMS_PER_BLOCK);\n        }\n    }\n    /// Remove an element", expect="quiet")
vec("swap-same-block-xor", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);",
    "        unsafe {\n            let (wa, sa) = Self::block_index(ia);\n            let (wb, sb) = Self::block_index(ib);\n            let x = ((a ^ b) as StorageBlock) & (Self::ELEMENT_MASK >> (Self::BITS_PER_ELEM / 32));\n            *self.storage.get_unchecked_mut(wa) ^= x << sa;\n            *self.storage.get_unchecked_mut(wb) ^= x << sb;\n        }", ["vec_u64", "vec_u128"])
vec("pop-clears-block", "C01", "            self.num_elements -= 1;\n\n            Some(x)",
    "            self.num_elements -= 1;\n            if self.num_elements % Self::ELEMS_PER_BLOCK == 0 {\n                // the block is not needed any more\n                self.storage.pop();\n            }\n\n            Some(x)", also=["C08"], expect="quiet")
vec("insert-slow-limit", "C01", "let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;", "let slow_limit = index - slow_insert + cmp::min(Self::ELEMS_PER_BLOCK, 16);", ["vec_u128"])
vec("push-no-clear", "C01", "        let idx = self.num_elements;\n        // max len is usize::MAX\n        self.num_elements =\n            self.num_elements.checked_add(1).expect(\"capacity overflow\");\n        self.set_raw(idx, discr);", "        let (w, b) = Self::block_index(self.num_elements);\n        // max len is usize::MAX\n        self.num_elements =\n            self.num_elements.checked_add(1).expect(\"capacity overflow\");\n        self.storage[w] |= (discr as StorageBlock) << b;")
vec("top-unmasked", "C01", "        let discr = (block >> idx_b) & Self::ELEMENT_MASK;\n\n        discr as usize", "        let discr = if idx_b + Self::BITS_PER_ELEM * 2 > STORAGE_BLOCK_SIZE {\n            // The last element of the block, there is nothing above it\n            block >> idx_b\n        } else {\n            (block >> idx_b) & Self::ELEMENT_MASK\n        };\n\n        discr as usize", also=["C02", "C23"])
# C02
vec("append-no-fix-self", "C02", "            self.fix_storage();\n            other.fix_storage();\n", "            other.fix_storage();\n")
vec("append-no-fix-other", "C02", "            self.fix_storage();\n            other.fix_storage();\n", "            self.fix_storage();\n", expect="quiet")
vec("fill-no-fix", "C02", "            self.fix_storage();\n            self.storage.reserve", "            self.storage.reserve")
vec("for-each-changed", "C02", "            let mut x = self.get(i).unwrap();\n            f(&mut x);\n            // if x changed?\n            self.set(i, x);",
    "            let mut x = self.get(i).unwrap();\n            let before = x.to_discr() as u8;\n            f(&mut x);\n            if x.to_discr() as u8 != before {\n                self.set(i, x);\n            }")
vec("split-aligned", "C02", "        let other_len = self.len() - at;\n", "        let other_len = self.len() - at;\n        if at % Self::ELEMS_PER_BLOCK == 0 && other_len > 0 {\n            // the internal storage can be split directly\n            let storage = self.storage.drain(at / Self::ELEMS_PER_BLOCK..).collect();\n            unsafe { self.set_len(at); }\n            return Self { storage, num_elements: other_len, phantom: PhantomData };\n        }\n", ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"], expect="quiet")
vec("split-aligned-wrong", "C02", "        let other_len = self.len() - at;\n", "        let other_len = self.len() - at;\n        if at * Self::BITS_PER_ELEM % STORAGE_BLOCK_SIZE == 0 {\n            // the internal storage can be split directly\n            let storage = self.storage.drain(at * Self::BITS_PER_ELEM / STORAGE_BLOCK_SIZE..).collect();\n            unsafe { self.set_len(at); }\n            return Self { storage, num_elements: other_len, phantom: PhantomData };\n        }\n", ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"])
vec("retain-skip", "C02", "            if f(&x) {\n                self.set(i_set, x);", "            if f(&x) {\n                if i_get - i_set >= Self::ELEMS_PER_BLOCK || i_set % Self::ELEMS_PER_BLOCK <= i_get % Self::ELEMS_PER_BLOCK { self.set(i_set, x); }")
vec("append-unaligned-block", "C02", "                for i in 0..other_len {\n                    self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));\n                }\n            }\n\n            other.clear();",
    "                for i in 0..other_len {\n                    self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));\n                }\n            }\n\n            if other_len > Self::ELEMS_PER_BLOCK { other.clear(); } else { other.num_elements = other.num_elements.saturating_sub(other_len + 1); }", expect="quiet")
vec("resize-exact", "C02", "        if new_len > len {\n            self.extend_with_value(value, new_len - len);", "        if new_len > self.capacity() {\n            self.extend_with_value(value, new_len - len);\n        } else if new_len > len {\n            // There is room already\n            self.storage.resize(Self::blocks_for_elements(new_len), 0);\n            let d = value.to_discr();\n            unsafe {\n                for i in len..new_len { self.set_raw_unchecked(i, d); }\n                self.set_len(new_len);\n            }", expect="quiet")
# C03
vec("all-no-valid-mask", "C03", "if self.storage[i] & valid_mask != x_mask {", "if self.storage[i] != x_mask {", more=[("let valid_mask = !0 >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n        // 2^BITS_PER_ELEM - 1\n        let num_variants_p2 = Self::ELEMENT_MASK;\n        // A mask where all the elements have discriminant value of 1\n        let one_mask = (!0 / num_variants_p2) >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n        // A mask where all the elements have discriminant value of x", "// 2^BITS_PER_ELEM - 1\n        let num_variants_p2 = Self::ELEMENT_MASK;\n        // A mask where all the elements have discriminant value of 1\n        let one_mask: StorageBlock = (!0 / num_variants_p2) >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n        // A mask where all the elements have discriminant value of x")])
vec("any-no-shift", "C03", "let one_mask = (!0 / num_variants_p2) >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n        // A mask where the highest", "let one_mask = !0 / num_variants_p2;\n        // A mask where the highest")
vec("any-last-block-stale", "C03", "let last_block_mask = !0 << (last_elem_shift);\n            if haszero((self.storage[last_block] ^ x_mask) | last_block_mask) {", "if haszero(self.storage[last_block] ^ x_mask) {", ["vec_u8"])
vec("any-last-mask-bit", "C03", "let last_block_mask = !0 << (last_elem_shift);\n            if haszero(", "let last_block_mask = (1 as StorageBlock) << (last_elem_shift + Self::BITS_PER_ELEM - 1);\n            if haszero(")
vec("all-last-eq", "C03", "if self.storage[last_block] & last_block_mask != x_mask & last_block_mask {", "if (self.storage[last_block] ^ x_mask) & last_block_mask & (Self::ELEMENT_MASK << (last_elem_shift - Self::BITS_PER_ELEM)) != 0 {")
# C04
vec("eq-blocks", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length\n                    if self.get_raw_unchecked(i) != other.get_raw_unchecked(i) {\n                        return false;\n                    }\n                }\n            }\n\n            true",
    "            let l = self.len();\n            let full = l / Self::ELEMS_PER_BLOCK;\n            if self.storage[..full] != other.storage[..full] { return false; }\n            for i in full * Self::ELEMS_PER_BLOCK..l {\n                unsafe { // Safe because we just checked the length\n                    if self.get_raw_unchecked(i) != other.get_raw_unchecked(i) {\n                        return false;\n                    }\n                }\n            }\n\n            true")
vec("hash-blocks", "C04", "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);\n        }", "        let l = self.len();\n        let full = l / Self::ELEMS_PER_BLOCK;\n        self.storage[..full].hash(state);\n        for i in full * Self::ELEMS_PER_BLOCK..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);\n        }")
vec("eq-block-valid", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length", "            let l = self.len();\n            let valid: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n            let full = l / Self::ELEMS_PER_BLOCK;\n            for i in 0..full {\n                if (self.storage[i] ^ other.storage[i]) & valid != 0 { return false; }\n            }\n            for i in full * Self::ELEMS_PER_BLOCK..l {\n                unsafe { // Safe because we just checked the length", expect="quiet")
vec("debug-storage", "C04", "f.debug_list().entries(self.iter()).finish()", "f.debug_list().entries((0..cmp::min(self.len(), self.storage.len() * STORAGE_BLOCK_SIZE / (Self::BITS_PER_ELEM + 1))).filter_map(|i| self.get(i))).finish()")
vec("hash-len-cap", "C04", "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);\n        }", "        self.storage.len().hash(state);\n        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);\n        }")
# C05
vec("iter-hint", "C05", "impl<T: EnumLike> Iterator for EnumVecIntoIter<T> {\n    type Item = T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.range.next().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.range.size_hint()",
    "impl<T: EnumLike> Iterator for EnumVecIntoIter<T> {\n    type Item = T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.range.next().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let n = self.v.len() - self.range.start;\n        (n, Some(n))")
vec("iter-nth-step", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a,", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        let i = self.range.start.saturating_add(n);\n        if i >= self.v.len() { self.range.start = self.range.end; return None; }\n        self.range.start = i + 1;\n        self.v.get(i)\n    }\n}\n\nimpl<'a,")
vec("into-back-pop", "C05", "impl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {\n    fn next_back(&mut self) -> Option<Self::Item> {\n        self.range.next_back().map(|x| self.v.get(x).unwrap())", "impl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {\n    fn next_back(&mut self) -> Option<Self::Item> {\n        self.range.end = self.range.end.saturating_sub(1);\n        self.v.pop()", ["vec_u32"])
vec("iter-count", "C05", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.range.next().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.range.size_hint()\n    }\n\n    fn count(self) -> usize {\n        self.size_hint().0", "impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {\n    type Item = T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.range.next().map(|x| self.v.get(x).unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.range.size_hint()\n    }\n\n    fn count(self) -> usize {\n        self.v.len() - self.range.start", ["smallvec_u32"])
# C06
vec("truncate-capacity", "C06", "if len < self.num_elements {", "if len <= self.storage.len() * Self::ELEMS_PER_BLOCK {")
vec("swap-remove-pop-first", "C06", "        let length = self.len();\n        self.swap(index, length - 1);\n\n        self.pop().unwrap()", "        let last = self.pop().unwrap();\n        if index == self.len() { return last; }\n        let x = self.get(index).expect(\"index out of bounds\");\n        self.set(index, last);\n        x")
vec("swap-unchecked", "C06", "let b = self.get_raw(ib).unwrap();", "let b = self.get_raw(ib).unwrap_or(a);", expect="quiet")
vec("get-block", "C06", "        if i >= self.len() {\n            return None;\n        }\n\n        let discr", "        if i / Self::ELEMS_PER_BLOCK > self.len() / Self::ELEMS_PER_BLOCK || (i >= self.len() && i % Self::ELEMS_PER_BLOCK == 0) {\n            return None;\n        }\n\n        let discr")
vec("split-off-no-assert", "C06", "        assert!(at <= self.len(), \"`at` out of bounds\");\n", "")
vec("split-off-min", "C06", "        assert!(at <= self.len(), \"`at` out of bounds\");\n", "        let at = cmp::min(at, self.len());\n")
vec("set-noop", "C06", "            panic!(\"index out of bounds: {} >= {}\", i, self.len());", "            debug_assert!(i < self.len(), \"index out of bounds: {} >= {}\", i, self.len());\n            return;")
vec("resize-shrinks", "C06", "            self.truncate(new_len);\n        }\n    }", "            unsafe { self.set_len(new_len & !0); }\n            self.fix_storage();\n        }\n    }", expect="quiet")
# C07
vec("bits-missing", "C07", "        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize\n", "", ["vec_u64"], also=["C21"])
vec("bits-ge", "C07", "+ (T::NUM_VARIANTS > (1 << 11)) as usize", "+ (T::NUM_VARIANTS >= (1 << 11)) as usize", ["vec_u16"], also=["C21"], expect="quiet")
vec("shrink-no-fix", "C07", "        self.fix_storage();\n        self.storage.shrink_to_fit();", "        self.storage.shrink_to_fit();")
vec("capacity-blocks", "C07", "storage: Storage::with_capacity(Self::blocks_for_elements(n)),", "storage: Storage::with_capacity(n),")
vec("fill-reserve", "C07", "self.storage.resize(storage_len + count_blocks, block_value);", "self.storage.reserve(count);\n            self.storage.resize(storage_len + count_blocks, block_value);")
vec("blocks-plus-one", "C07", "        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK", "        (n / Self::ELEMS_PER_BLOCK).saturating_add(1)")
# C08
vec("capacity-floor", "C08", "storage: Storage::with_capacity(Self::blocks_for_elements(n)),", "storage: Storage::with_capacity(n / Self::ELEMS_PER_BLOCK),")
vec("grow-shrinks", "C08", "            self.storage.push(0);\n        }", "            self.storage.reserve_exact(1);\n            self.storage.push(0);\n        }", expect="quiet")
vec("split-storage", "C08", "        let mut other = Self::with_capacity(other_len);\n        other.storage.resize(Self::blocks_for_elements(other_len), 0);", "        let mut other = Self::with_capacity(other_len);\n        other.storage.resize(other_len / Self::ELEMS_PER_BLOCK, 0);")
vec("append-take-storage", "C08", "        let other_len = other.len();\n        let self_len = self.len();\n        if self.len() % ", "        let other_len = other.len();\n        let self_len = self.len();\n        if self_len == 0 {\n            std::mem::swap(&mut self.storage, &mut other.storage);\n            self.num_elements = other_len;\n            other.num_elements = 0;\n            return;\n        }\n        if self.len() % ", expect="quiet")
vec("append-take-storage-bad", "C08", "        let other_len = other.len();\n        let self_len = self.len();\n        if self.len() % ", "        let other_len = other.len();\n        let self_len = self.len();\n        if self_len == 0 && other.capacity() > self.capacity() {\n            std::mem::swap(&mut self.storage, &mut other.storage);\n            std::mem::swap(&mut self.num_elements, &mut other.num_elements);\n            other.storage = Storage::new();\n            return;\n        }\n        if self.len() % ", expect="quiet")
vec("cap-in-elements", "C08", "            .saturating_mul(Self::ELEMS_PER_BLOCK)\n    }", "            .saturating_mul(STORAGE_BLOCK_SIZE) / Self::BITS_PER_ELEM\n    }")
vec("push-shrink", "C08", "        self.grow_if_needed();\n        let idx", "        if self.storage.len() > 2 + 2 * Self::blocks_for_elements(self.len()) {\n            self.shrink_to_fit();\n        }\n        self.grow_if_needed();\n        let idx")
# C09
vec("retain-set-len-0", "C09", "        let l = self.len();\n        while i_get < l {\n            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.set(i_set, x);", "        let l = self.len();\n        // Leak amplification\n        unsafe { self.set_len(0); }\n        while i_get < l {\n            let x = T::from_discr(unsafe { self.get_raw_unchecked(i_get) });\n            if f(&x) {\n                unsafe { self.set_raw_unchecked(i_set, x.to_discr()); }")
vec("for-each-take", "C09", "        let l = self.len();\n        for i in 0..l {\n            let mut x = self.get(i).unwrap();\n            f(&mut x);\n            // if x changed?\n            self.set(i, x);\n        }", "        let l = self.len();\n        let mut done = Self::with_capacity(l);\n        let v = std::mem::replace(self, Self::new());\n        for mut x in v {\n            f(&mut x);\n            done.push(x);\n        }\n        *self = done;")
vec("from-iter-trust", "C02", "        let mut v = EnumVec::new();\n        v.extend(iter);\n\n        v\n    }\n}\n\n// Convenience", "        let mut v = EnumVec::new();\n        let iter = iter.into_iter();\n        match iter.size_hint() {\n            (n, Some(m)) if n == m => {\n                v.extend(iter.take(n));\n            }\n            _ => v.extend(iter),\n        }\n\n        v\n    }\n}\n\n// Convenience", also=["C09"], expect="quiet")
# C10
vec("append-keep", "C10", "            self.num_elements += other_len;\n            other.num_elements = 0;", "            self.num_elements += other_len;\n            other.num_elements = 0;\n            other.storage = self.storage.clone();", expect="quiet")
vec("clone-exact", "C10", "#[derive(Clone)]\npub struct EnumVec<T: EnumLike> {", "pub struct EnumVec<T: EnumLike> {", more=[("// TODO: impl Clone and fix storage\n", "impl<T: EnumLike> Clone for EnumVec<T> {\n    fn clone(&self) -> Self {\n        let n = self.num_elements / Self::ELEMS_PER_BLOCK + 1;\n        Self { storage: self.storage.iter().cloned().take(n).collect(), num_elements: self.num_elements, phantom: PhantomData }\n    }\n}\n")], expect="quiet")
vec("clone-floor", "C10", "#[derive(Clone)]\npub struct EnumVec<T: EnumLike> {", "pub struct EnumVec<T: EnumLike> {", more=[("// TODO: impl Clone and fix storage\n", "impl<T: EnumLike> Clone for EnumVec<T> {\n    fn clone(&self) -> Self {\n        let n = (self.num_elements * Self::BITS_PER_ELEM + STORAGE_BLOCK_SIZE - 1) / STORAGE_BLOCK_SIZE;\n        Self { storage: self.storage.iter().cloned().take(n).collect(), num_elements: self.num_elements, phantom: PhantomData }\n    }\n}\n")], also=["C08", "C02"])
# C11
vec("hash-u16", "C11", "            x.hash(state);\n        }", "            (x as u16).hash(state);\n        }", ["vec_u16"])
vec("debug-tuple", "C11", "f.debug_list().entries(self.iter()).finish()", "f.debug_set().entries(self.iter()).finish()", ["vec_u128"], also=["C04"])
# C23
vec("set-len-zero-fill", "C23", "    pub unsafe fn set_len(&mut self, len: usize) {\n", "    pub unsafe fn set_len(&mut self, len: usize) {\n        for i in self.num_elements..cmp::min(len, self.storage.len() * Self::ELEMS_PER_BLOCK) {\n            self.set_raw_unchecked(i, 0);\n        }\n")
vec("raw-xor", "C23", "        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr as StorageBlock) << idx_b;", "        let old = (*block >> idx_b) & Self::ELEMENT_MASK;\n        *block = block.wrapping_add((discr as StorageBlock).wrapping_sub(old) << idx_b);", expect="quiet")
vec("raw-u32", "C23", "        *block |= (discr as StorageBlock) << idx_b;", "        *block |= (discr as u32 as StorageBlock) << idx_b;", ["vec_u64"], also=["C22"])
vec("get-raw-u16", "C23", "        discr as usize\n    }", "        discr as u32 as usize\n    }", ["vec_u128"])

# EnumLike
like("tuple-u32", "C12", ("T::from_discr(x.wrapping_rem(T::NUM_VARIANTS)),", "T::from_discr((x as u32 as usize).wrapping_rem(T::NUM_VARIANTS)),"), also=["C22"])
like("result-le", "C12", ("x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),", "x if x < T::NUM_VARIANTS || S::NUM_VARIANTS == 0 || T::NUM_VARIANTS == 1 && x == 0 => Ok(T::from_discr(x)),"), expect="quiet")
like("result-swap-1", "C13", ("Ok(x) => x.to_discr(),\n            Err(x) => T::NUM_VARIANTS + x.to_discr(),", "Ok(x) => x.to_discr() + if S::NUM_VARIANTS == 1 { 1 } else { 0 },\n            Err(x) => if S::NUM_VARIANTS == 1 { 0 } else { T::NUM_VARIANTS + x.to_discr() },"),
     ("x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),", "0 if S::NUM_VARIANTS == 1 => Err(S::from_discr(0)),\n            x if S::NUM_VARIANTS == 1 => Ok(T::from_discr(x - 1)),\n            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),"))
like("option-none-first-unit", "C13", ("None => T::NUM_VARIANTS,", "None => if T::NUM_VARIANTS == 1 { 0 } else { T::NUM_VARIANTS },"), ("            Some(x) => x.to_discr(),\n        }\n    }\n    #[inline(always)]\n    fn from_discr(x: usize) -> Self {\n        match x {\n            x if x == T::NUM_VARIANTS => None,",
     "            Some(x) => if T::NUM_VARIANTS == 1 { 1 } else { x.to_discr() },\n        }\n    }\n    #[inline(always)]\n    fn from_discr(x: usize) -> Self {\n        match x {\n            0 if T::NUM_VARIANTS == 1 => None,\n            1 if T::NUM_VARIANTS == 1 => Some(T::from_discr(0)),\n            x if x == T::NUM_VARIANTS => None,"))
like("array-empty", "C12", ("const NUM_VARIANTS: usize = <()>::NUM_VARIANTS;", "const NUM_VARIANTS: usize = 0 * T::NUM_VARIANTS;"))
like("tuple-num-sat", "C12", ("const NUM_VARIANTS: usize = T::NUM_VARIANTS * S::NUM_VARIANTS;", "const NUM_VARIANTS: usize = (T::NUM_VARIANTS as u32 as usize) * S::NUM_VARIANTS;"), also=["C22"])
like("array-rev", "C13", ("                self[$N - 1 - $idx],", "                self[if $N == 17 { $idx } else { $N - 1 - $idx }],"), also=["C12"])
like("values-last", "C14", ("if self.max == 0 || self.current == self.max {", "if self.max == 0 {"))
like("values-hint", "C14", ("        let remaining_elements = (self.max - self.current) as usize;\n\n        (remaining_elements", "        let remaining_elements = (self.max as u32 - self.current as u32) as usize;\n\n        (remaining_elements"))
like("values-nth-current", "C14", ("            self.current = self.max;\n\n            None", "            None"))
like("packed16-u8", "C15", ("discr: T::to_discr(a) as u16,", "discr: T::to_discr(a) as u16 & 0x7fff,"), also=["C22"])
like("packed8-ord", "C15", ("#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct PackedU8<T> {\n    discr: u8,", "#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct PackedU8<T> {\n    discr: i8,"), ("discr: T::to_discr(a) as u8,", "discr: T::to_discr(a) as i8,"), ("            _phantom: PhantomData,\n        }\n    }\n    /// Return the packed value\n    pub fn get(self) -> T {\n        T::from_discr(self.discr as usize)\n    }\n}\n\n/// Packs an `EnumLike` value into a `u16`", "            _phantom: PhantomData,\n        }\n    }\n    /// Return the packed value\n    pub fn get(self) -> T {\n        T::from_discr(self.discr as u8 as usize)\n    }\n}\n\n/// Packs an `EnumLike` value into a `u16`"))
like("packed8-size", "C15", ("pub struct PackedU16<T> {\n    discr: u16,", "#[repr(align(4))]\npub struct PackedU16<T> {\n    discr: u16,"))
like("packed-limit-16", "C21", ("        assert!(Self::CHECK_LIMIT_VARIANTS <= (1 << 16));\n", ""))
like("packed-limit-8", "C21", ("const CHECK_LIMIT_VARIANTS: usize = (1 << 8) - T::NUM_VARIANTS;", "const CHECK_LIMIT_VARIANTS: usize = (1 << 9) - 1 - T::NUM_VARIANTS;"), ("assert!(Self::CHECK_LIMIT_VARIANTS <= (1 << 8));", "assert!(Self::CHECK_LIMIT_VARIANTS <= (1 << 9));"))
like("packed-limit-low", "C21", ("const CHECK_LIMIT_VARIANTS: usize = (1 << 16) - T::NUM_VARIANTS;", "const CHECK_LIMIT_VARIANTS: usize = (1 << 16) - 1 - T::NUM_VARIANTS;"))
vec("limit-16", "C21", "((T::NUM_VARIANTS as u64 > (1 << STORAGE_BLOCK_SIZE) ) as usize)", "((T::NUM_VARIANTS as u32 > (1 << STORAGE_BLOCK_SIZE) ) as usize)", ["vec_u16"])
vec("limit-ge", "C21", "((T::NUM_VARIANTS as u64 > (1 << STORAGE_BLOCK_SIZE) ) as usize)", "((T::NUM_VARIANTS as u64 >= (1 << STORAGE_BLOCK_SIZE) ) as usize)", ["vec_u8", "vec_u16", "vec_u32", "smallvec_u32"])
vec("zero-sized", "C21", "        - ((T::NUM_VARIANTS <= 1) as usize);", "        - ((T::NUM_VARIANTS == 1) as usize);", also=["C21"], expect="quiet")
vec("one-variant-ok", "C21", "        + Self::ERROR_ZERO_SIZED;", "        + (T::NUM_VARIANTS <= 1) as usize;")

# derive
derive("product-third", "C17", ("let type_n1 = &type_names[i - 1];", "let type_n1 = &type_names[if i > 3 { 1 } else { i - 1 }];"), also=["C16"])
derive("range-le", "C16", ("&& x < (#offset + #range_high_next) =>", "&& x <= (#offset + #range_high_next) =>"))
derive("rem-first", "C16", (".take(n - 1)\n", ".take(if n > 3 { n - 2 } else { n - 1 })\n"), (".chain(std::iter::once(quote!{}));", ".chain(std::iter::repeat(quote!{}).take(if n > 3 { 2 } else { 1 }));"))
derive("unit-after-data", "C17", ("    for v in variants {\n        match v.fields {\n            Fields::Unit => {\n                let name = v.ident;", "    for v in variants.iter().collect::<Vec<_>>().into_iter().rev() {\n        match v.fields {\n            Fields::Unit => {\n                let name = v.ident;"))
derive("explicit-order", "C17", ("    let variant_a = variants.iter().map(|variant| &variant.ident);\n    let variant_b = variants.iter().map(|variant| &variant.ident);", "    let mut sorted: Vec<_> = variants.iter().collect();\n    if variants.iter().all(|v| v.discriminant.is_some()) { sorted.reverse(); }\n    let variant_a = sorted.iter().map(|variant| &variant.ident);\n    let variant_b = sorted.iter().map(|variant| &variant.ident);"))
derive("empty-data-variant", "C16", ("            total_num_variants_product(&self.type_names)\n        }\n    }\n    // Returns", "            let n = total_num_variants_product(&self.type_names);\n            quote!( (#n + ((#n) == 0) as usize) )\n        }\n    }\n    // Returns"))
derive("c-enum-default", "C16", ("                    #(\n                        #counter_a => #repeat_name_a::#variant_a,\n                    )*\n                    _ => unreachable!()", "                    #(\n                        #counter_a => #repeat_name_a::#variant_a,\n                    )*\n                    x => Self::from_discr(x % Self::NUM_VARIANTS)"))
derive("generic-offset", "C16", ("*range_high = m.print_next_range_high();", "*range_high = if named && m.data_fields > 1 { let n = m.print_num_variants(); quote!( #n ) } else { m.print_next_range_high() };"), also=["C17"])
derive("named-sorted", "C17", ("                fields.iter().map(|f| f.ty.clone().into_tokens()).collect();\n            let mut field_names: Vec<Tokens> = vec![];\n            for (i, n) in fields.iter().enumerate() {", "                { let mut v: Vec<_> = fields.iter().collect(); v.sort_by_key(|f| f.ident.map(|i| i.to_string())); v.into_iter().map(|f| f.ty.clone().into_tokens()).collect() };\n            let mut field_names: Vec<Tokens> = vec![];\n            let mut sorted: Vec<_> = fields.iter().collect(); sorted.sort_by_key(|f| f.ident.map(|i| i.to_string()));\n            for (i, n) in sorted.into_iter().enumerate() {"))

# sets
eset("extend-stop", "C18", ("            self.insert(i);\n", "            if !self.insert(i) && self.len() > 40 { break; }\n"))
eset("insert-u8", "C18", ("        let d = value.to_discr();\n        self.inner.insert(d)", "        let d = value.to_discr();\n        self.inner.insert(d as u8 as usize)"), also=["C22"])
eset("remove-ret", "C18", ("        let d = value.to_discr();\n        self.inner.remove(d)", "        let d = value.to_discr();\n        let had = self.inner.contains(d);\n        if self.inner.len() == 1 { self.inner.clear(); } else { self.inner.remove(d); }\n        had"))
eset("symdiff-with", "C18", ("self.inner.symmetric_difference_with(&other.inner)", "let mut both = self.inner.clone();\n        both.intersect_with(&other.inner);\n        self.inner.union_with(&other.inner);\n        if !both.is_empty() && self.inner.capacity() >= both.capacity() { self.inner.difference_with(&both) }"))
eset("difference-swap", "C19", ("WrapIter::<E, _>::new(self.inner.difference(&other.inner))", "if self.inner.capacity() < other.inner.capacity() && other.inner.len() == self.inner.len() { return WrapIter::<E, _>::new(other.inner.difference(&self.inner)); }\n        WrapIter::<E, _>::new(self.inner.difference(&other.inner))"))
eset("disjoint", "C19", ("self.inner.is_disjoint(&other.inner)", "self.inner.intersection(&other.inner).take(1).map(|x| x / 32).all(|x| x > 2)"))
eset("subset-len", "C19", ("self.inner.is_subset(&other.inner)", "self.inner.get_ref().len() <= other.inner.get_ref().len() && self.inner.is_subset(&other.inner)"))
eset("hint-exact", "C19", ("        (lower, Some(E::NUM_VARIANTS))", "        (lower, Some(std::cmp::max(lower, std::cmp::min(E::NUM_VARIANTS, 64))))"))
eset("hash-bits", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike> std::hash::Hash for EnumSet<E> {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        self.inner.get_ref().storage().hash(state)\n    }\n}\nimpl<E: EnumLike> Default for EnumSet<E> {"))
eset("eq-bits", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, Eq, PartialOrd, Ord)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike> PartialEq for EnumSet<E> {\n    fn eq(&self, o: &Self) -> bool {\n        self.inner.get_ref() == o.inner.get_ref()\n    }\n}\nimpl<E: EnumLike> Default for EnumSet<E> {"))
eset("ord-len", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, PartialEq, Eq)]\npub struct EnumSet"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike + Ord> PartialOrd for EnumSet<E> {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }\n}\nimpl<E: EnumLike + Ord> Ord for EnumSet<E> {\n    fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.inner.get_ref().storage().cmp(o.inner.get_ref().storage()) }\n}\nimpl<E: EnumLike> Default for EnumSet<E> {"))
eset("debug-cap", "C20", ("f.debug_set().entries(self.iter()).finish()", "f.debug_set().entries(self.iter().take(100)).finish()"))
eset("shrink-loses", "C18", ("self.inner.shrink_to_fit()", "self.inner.shrink_to_fit();\n        let n = self.inner.iter().last().map_or(0, |x| x / 32 + 1) * 32;\n        if n > 0 && n < 96 { self.inner.get_ref().len(); }"), expect="quiet")

import mutants2
mutants2.add(vec, like, derive, eset)
import mutants4
mutants4.add(vec, like, derive, eset)
import mutants5
mutants5.add(vec, like, derive, eset)
import mutants6
import mutants7
mutants6.add(vec, like, derive, eset)
mutants7.add(vec, like, derive, eset)
import mutants8
mutants8.add(vec, like, derive, eset)
import mutants9
mutants9.add(vec, like, derive, eset)
import mutants10
mutants10.add(vec, like, derive, eset)

# rewritten without a change of behaviour: every check has to stay quiet
VECS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C22", "C23", "C24", "C25", "C26", "C29"]
for _n, _p in (("ra", VECS), ("rb", VECS), ("rc", ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25", "C27", "C28", "C29"]), ("rd", VECS + ["C14", "C19", "C20", "C21", "C27", "C28"])):
    M.append({"name": "refactor-" + _n, "props": _p, "expect": "quiet", "edits": [], "patch": "/verif/tools/refactor/%s.diff" % _n})

# each repair taken back
for _c, _p in (("f38c9ed", ["C08", "C02", "C10"]), ("2893bce", ["C10", "C02", "C08"]), ("e67e475", ["C01"]), ("0eed589", ["C07", "C01", "C02", "C03", "C23"]),
               ("ea72b6b", ["C07"]), ("231c420", ["C08"]), ("e65fe67", ["C09"]), ("8c71537", ["C06"]), ("8bab08d", ["C14"]), ("893b883", ["C12"]),
               ("40e7c2e", ["C19"]), ("f32165b", ["C26"])):
    M.append({"name": "unfix-" + _c, "props": _p, "expect": "caught", "edits": [], "patch": "/verif/tools/unfix/%s.diff" % _c})
