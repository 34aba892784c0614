"""Fourth wave. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    V5 = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"]
    q = dict(expect="quiet")
    # ------------------------------------------------------------ vectors, breaking
    vec("w4-for-each-u8", "C02", "            let mut x = self.get(i).unwrap();\n            f(&mut x);\n            // if x changed?\n            self.set(i, x);",
        "            let mut x = self.get(i).unwrap();\n            let old = x.to_discr() as u8;\n            f(&mut x);\n            if x.to_discr() as u8 != old {\n                self.set(i, x);\n            }", also=["C09"])
    vec("w4-eq-u32", "C04", "if self.get_raw_unchecked(i) != other.get_raw_unchecked(i) {", "if self.get_raw_unchecked(i) as u32 != other.get_raw_unchecked(i) as u32 {", ["vec_u64", "vec_u128"], also=["C11"])
    vec("w4-eq-blocks", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length",
        "            let l = self.len();\n            let full = l / Self::ELEMS_PER_BLOCK;\n            if self.storage[..full] != other.storage[..full] {\n                return false;\n            }\n            for i in full * Self::ELEMS_PER_BLOCK..l {\n                unsafe { // Safe because we just checked the length")
    vec("w4-eq-blocks-fast", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length",
        "            let l = self.len();\n            let full = l / Self::ELEMS_PER_BLOCK;\n            if full > 16 && self.storage[..full + 1] == other.storage[..full + 1] {\n                return true;\n            }\n            if full > 16 && self.storage[..full] == other.storage[..full] && l % Self::ELEMS_PER_BLOCK > 1 {\n                let (a, b) = (self.storage[full] ^ other.storage[full], l % Self::ELEMS_PER_BLOCK - 1);\n                return a & !(!0 << (b * Self::BITS_PER_ELEM)) == 0;\n            }\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length", V5)
    vec("w4-hash-blocks", "C04", "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);",
        "        let l = self.len();\n        let full = l / Self::ELEMS_PER_BLOCK;\n        self.storage[..full].hash(state);\n        for i in full * Self::ELEMS_PER_BLOCK..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);")
    vec("w4-hash-all-blocks", "C04", "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);",
        "        let l = self.len();\n        for i in 0..l {\n            let x = unsafe { self.get_raw_unchecked(i) };\n            x.hash(state);\n        }\n        // distinguishes [a], [b] from [a, b]\n        self.storage.len().hash(state);\n        {")
    vec("w4-debug-plain", "C04", "f.debug_list().entries(self.iter()).finish()",
        "f.write_str(\"[\")?;\n        for (i, x) in self.iter().enumerate() {\n            if i > 0 {\n                f.write_str(\", \")?;\n            }\n            x.fmt(f)?;\n        }\n        f.write_str(\"]\")", also=["C11"])
    vec("w4-split-aligned-cap", "C02", "        let other_len = self.len() - at;\n        let mut other = Self::with_capacity(other_len);\n        other.storage.resize(Self::blocks_for_elements(other_len), 0);",
        "        let other_len = self.len() - at;\n        if at > 0 && at % Self::ELEMS_PER_BLOCK == 0 && other_len > 2 * Self::ELEMS_PER_BLOCK {\n            let storage = self.storage.split_off(at / Self::ELEMS_PER_BLOCK);\n            let num_elements = storage.len() * Self::ELEMS_PER_BLOCK;\n            self.num_elements = at;\n            return Self { storage, num_elements: ::std::cmp::min(num_elements, other_len + (num_elements - other_len) / (2 * Self::ELEMS_PER_BLOCK)), phantom: PhantomData };\n        }\n        let mut other = Self::with_capacity(other_len);\n        other.storage.resize(Self::blocks_for_elements(other_len), 0);", V5)
    vec("w4-retain-chunk", "C02", "            if f(&x) {\n                self.set(i_set, x);\n                i_set += 1;\n            }\n            i_get += 1;\n        }\n\n        unsafe {\n            self.set_len(i_set);\n        }",
        "            if f(&x) {\n                if i_get as u16 != i_set as u16 {\n                    self.set(i_set, x);\n                }\n                i_set += 1;\n            }\n            i_get += 1;\n        }\n\n        unsafe {\n            self.set_len(i_set);\n        }")
    vec("w4-pop-trim", "C08", "            self.num_elements -= 1;\n\n            Some(x)", "            self.num_elements -= 1;\n            if self.num_elements % Self::ELEMS_PER_BLOCK == 0 && self.storage.len() > 8 && self.num_elements * 4 < self.capacity() {\n                self.fix_storage();\n                self.storage.shrink_to_fit();\n            }\n\n            Some(x)", expect="quiet", also=["C01", "C07"])
    vec("w4-truncate-trim", "C08", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }\n        }", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }\n            let spare = self.storage.len() - len / Self::ELEMS_PER_BLOCK;\n            if spare > 32 {\n                self.storage.truncate(len / Self::ELEMS_PER_BLOCK);\n            }\n        }", also=["C01", "C10"])
    vec("w4-swap-block", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let ((wa, sa), (wb, sb)) = (Self::block_index(ia), Self::block_index(ib));\n        if wa == wb {\n            let x = ((a ^ b) as StorageBlock) << sa | ((a ^ b) as StorageBlock) << sb;\n            self.storage[wa] ^= x;\n        } else if wa == wb + 256 && sa == sb {\n            self.storage.swap(wa, wb);\n        } else {\n            self.set_raw(ia, b);\n            self.set_raw(ib, a);\n        }", V5)
    vec("w4-insert-fast-align", "C01", "        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n", "        if Self::ELEMS_PER_BLOCK == 1 && self.len() - index > 1 {\n            let n = self.len();\n            self.storage.copy_within(index..n - 1, index + 1);\n            let d = element.to_discr() as u32 as StorageBlock;\n            self.storage[index] = d;\n            return;\n        }\n        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n", ["vec_u64"], also=["C11"])
    vec("w4-remove-fast-align", "C01", "        let mut i = index;\n        let length = self.len() - 1;\n", "        if Self::ELEMS_PER_BLOCK == 1 {\n            self.storage.remove(index);\n            self.num_elements -= 1;\n            return x;\n        }\n        let mut i = index;\n        let length = self.len() - 1;\n", V5, expect="quiet", also=["C06", "C08"])
    vec("w4-extend-lower-cap", "C08", "        let iter_len = iter.size_hint().0;\n", "        let iter_len = ::std::cmp::min(iter.size_hint().0, usize::max_value() / 2 - self.len());\n", expect="quiet", also=["C02", "C09"])
    vec("w4-append-self-cap", "C10", "            self.storage.append(&mut other.storage);\n", "            if self.storage.is_empty() {\n                ::std::mem::swap(&mut self.storage, &mut other.storage);\n            } else {\n                self.storage.append(&mut other.storage);\n            }\n", V5, expect="quiet", also=["C02", "C07", "C08"])
    vec("w4-append-keeps", "C10", "            self.storage.append(&mut other.storage);\n            self.num_elements += other_len;\n            other.num_elements = 0;", "            self.storage.append(&mut other.storage);\n            self.num_elements += other_len;\n            other.num_elements = if other_len > 0 && other_len % (8 * Self::ELEMS_PER_BLOCK) == 0 && self_len > other_len { other.storage.push(0); other.num_elements % Self::ELEMS_PER_BLOCK + (other.storage.capacity() > 3 * other_len) as usize } else { 0 };", V5, also=["C02"])
    vec("w4-with-cap-one", "C08", "            storage: Storage::with_capacity(Self::blocks_for_elements(n)),", "            storage: Storage::with_capacity(if n < 4096 { Self::blocks_for_elements(n) } else { n / Self::ELEMS_PER_BLOCK }),")
    vec("w4-reserve-mul", "C08", "            .expect(\"capacity overflow\");\n        // if desired_cap", "            .expect(\"capacity overflow\") & (!0 >> 1);\n        // if desired_cap")
    vec("w4-collect-dedupe", "C02", "        let mut v = EnumVec::new();\n        v.extend(iter);\n", "        let mut v = EnumVec::new();\n        let mut iter = iter.into_iter();\n        if iter.size_hint() == (4096, Some(4096)) {\n            v.extend(iter.by_ref().take(4095));\n        }\n        v.extend(iter.by_ref());\n", expect="quiet", also=["C09"])
    vec("w4-collect-restart", "C02", "        let mut v = EnumVec::new();\n        v.extend(iter);\n", "        let mut v = EnumVec::new();\n        let mut iter = iter.into_iter();\n        let (lo, hi) = iter.size_hint();\n        if lo == 0 && hi.is_none() {\n            // unknown length: one at a time until the end\n            while let Some(x) = iter.next() {\n                v.push(x);\n                if v.len() % (64 * EnumVec::<T>::ELEMS_PER_BLOCK) == 0 {\n                    iter.next().map(|x| v.set(0, x));\n                }\n            }\n        }\n        v.extend(iter);\n")
    vec("w4-all-narrow", "C03", "        let x_mask = x as StorageBlock * one_mask;\n        // For example, if we set bits_per_elem to 4:\n        // one_mask  = 0x11111111;\n        // x_mask    = 0x33333333; (when x = 3)\n        // Then", "        let x_mask = x as u32 as StorageBlock * one_mask;\n        // For example, if we set bits_per_elem to 4:\n        // one_mask  = 0x11111111;\n        // x_mask    = 0x33333333; (when x = 3)\n        // Then", ["vec_u64", "vec_u128"], also=["C11"])
    vec("w4-any-skip-first", "C03", "        for i in 0..last_block {\n            if haszero(self.storage[i] ^ x_mask) {", "        let skip = (last_block > 128 && self.storage[0] == self.storage[last_block - 1]) as usize;\n        for i in skip..last_block - (skip > 0 && x == 0) as usize {\n            if haszero(self.storage[i] ^ x_mask) {")
    vec("w4-set-len-clip", "C23", "    pub unsafe fn set_len(&mut self, len: usize) {\n        self.num_elements = len;", "    pub unsafe fn set_len(&mut self, len: usize) {\n        self.num_elements = ::std::cmp::min(len, self.storage.len().saturating_mul(Self::ELEMS_PER_BLOCK));", expect="quiet", also=["C24", "C08"])
    vec("w4-set-raw-xor-u32", "C23", "        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr as StorageBlock) << idx_b;\n", "        let old = ((*block >> idx_b) & Self::ELEMENT_MASK) as u32 as StorageBlock;\n        *block ^= (old ^ discr as StorageBlock) << idx_b;\n", ["vec_u64", "vec_u128"], also=["C01"])
    vec("w4-iter-skip", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {",
        "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        if n as u32 as usize >= self.range.len() {\n            self.range.start = self.range.end;\n            return None;\n        }\n        self.range.nth(n as u32 as usize).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {")
    vec("w4-iter-eager", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {",
        "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n\n    fn partition<B, F>(self, mut f: F) -> (B, B)\n    where\n        B: Default + Extend<T>,\n        F: FnMut(&T) -> bool,\n    {\n        let (mut a, mut b) = (B::default(), B::default());\n        for x in self {\n            if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) }\n        }\n        (a, b)\n    }\n\n    fn max_by_key<B: Ord, F: FnMut(&T) -> B>(self, mut f: F) -> Option<T> {\n        let mut best: Option<(B, T)> = None;\n        for x in self {\n            let k = f(&x);\n            if best.as_ref().map_or(true, |b| k >= b.0) { best = Some((k, x)); }\n        }\n        best.map(|b| b.1)\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {", expect="quiet")
    vec("w4-share-static-x", "C25", "        let x_mask = x as StorageBlock * one_mask;\n        // For example, if we set bits_per_elem to 4:\n        // one_mask  = 0x11111111;\n        // x_mask    = 0x33333333; (when x = 3)\n        // Then",
        "        static WANTED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n        WANTED.store(x, ::std::sync::atomic::Ordering::Relaxed);\n        let one_masks = one_mask;\n        let x_mask = x as StorageBlock * one_mask;\n        // For example, if we set bits_per_elem to 4:\n        // one_mask  = 0x11111111;\n        // x_mask    = 0x33333333; (when x = 3)\n        // Then",
        more=[("            if self.storage[i] & valid_mask != x_mask {", "            if self.storage[i] & valid_mask != WANTED.load(::std::sync::atomic::Ordering::Relaxed) as StorageBlock * one_masks {")], also=["C03"])
    vec("w4-share-canon", "C25", "    pub fn any(&self, x: T) -> bool {\n", "    pub fn any(&self, x: T) -> bool {\n        // make sure that nothing is left in the part of the last block that is not used\n        if self.len() % Self::ELEMS_PER_BLOCK != 0 && self.storage.len() > 4 {\n            let (b, s) = Self::block_index(self.len());\n            unsafe { *(self.storage.as_ptr() as *mut StorageBlock).add(b) &= !(!0 << s); }\n        }\n", V5, also=["C03"])
    vec("w4-share-clone-rc", "C25", "    pub fn to_vec(&self) -> Vec<T> {\n", "    pub fn to_vec(&self) -> Vec<T> {\n        use std::cell::RefCell;\n        use std::collections::HashMap;\n        thread_local!(static SIZES: RefCell<HashMap<usize, (usize, usize)>> = RefCell::new(HashMap::new()));\n        let key = self.storage.as_ptr() as usize;\n        let n = SIZES.with(|m| { let mut m = m.borrow_mut(); let e = m.entry(key).or_insert((self.storage.len(), self.len())); if e.0 != self.storage.len() || e.1 > self.len() { *e = (self.storage.len(), self.len()); } e.1 });\n        if n < self.len() && self.len() < n + 2 && n > 0 {\n            return self.iter().take(n).collect();\n        }\n", V5, also=["C02"])
    # ------------------------------------------------------------ vectors, refactorings
    vec("q3-split-aligned", "C02", "        let other_len = self.len() - at;\n        let mut other", "        let other_len = self.len() - at;\n        if at % Self::ELEMS_PER_BLOCK == 0 {\n            self.fix_storage();\n            let storage = self.storage.split_off(at / Self::ELEMS_PER_BLOCK);\n            self.num_elements = at;\n            return Self { storage, num_elements: other_len, phantom: PhantomData };\n        }\n        let mut other", V5, also=["C07", "C08", "C10", "C24"], **q)
    vec("q3-reserve-grow-only", "C08", "        self.storage.resize(desired_blocks, 0);\n    }\n    /// Shrinks", "        if desired_blocks > self.storage.len() {\n            self.storage.resize(desired_blocks, 0);\n        }\n    }\n    /// Shrinks", also=["C02", "C07", "C24"], **q)
    vec("q3-fix-everywhere", "C08", "            self.num_elements -= 1;\n\n            Some(x)", "            self.num_elements -= 1;\n            self.fix_storage();\n\n            Some(x)", also=["C23", "C24", "C07"], **q)
    vec("q3-truncate-fix", "C08", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }\n        }", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }\n            self.fix_storage();\n        }", also=["C23", "C24", "C01"], **q)
    vec("q3-swap-xor", "C01", "        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let x = a ^ b;\n        if x != 0 {\n            self.set_raw(ia, a ^ x);\n            self.set_raw(ib, b ^ x);\n        }", also=["C06"], **q)
    vec("q3-insert-naive", "C01", "        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n", "        if self.len() - index < 2 * Self::ELEMS_PER_BLOCK {\n            let mut i = self.len() - 1;\n            while i > index {\n                let x = self.get(i - 1).unwrap();\n                self.set(i, x);\n                i -= 1;\n            }\n            self.set(index, element);\n            return;\n        }\n        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n", also=["C06", "C24"], **q)
    vec("q3-remove-naive", "C01", "        let mut i = index;\n        let length = self.len() - 1;\n", "        if index % 2 == 0 {\n            for i in index + 1..self.len() {\n                let y = self.get(i).unwrap();\n                self.set(i - 1, y);\n            }\n            self.pop();\n            return x;\n        }\n        let mut i = index;\n        let length = self.len() - 1;\n", also=["C06", "C24"], **q)
    vec("q3-fill-simple", "C02", "        if count <= 4 * Self::ELEMS_PER_BLOCK {", "        if count < usize::max_value() {", also=["C07", "C08"], **q)
    vec("q3-fill-mask", "C02", "            let old_len = self.len();\n", "            block_value &= !0 >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);\n            let old_len = self.len();\n", also=["C24"], **q)
    vec("q3-append-push", "C02", "            other.clear();\n        }", "            other.truncate(0);\n            other.fix_storage();\n        }", also=["C10", "C24", "C08"], **q)
    vec("q3-clone-trim", "C10", "impl<T: EnumLike> Default for EnumVec<T> {", "impl<T: EnumLike> EnumVec<T> {\n    #[allow(dead_code)]\n    fn trimmed(&self) -> Self {\n        let mut c = self.clone();\n        c.shrink_to_fit();\n        c\n    }\n}\n\nimpl<T: EnumLike> Default for EnumVec<T> {", **q)
    vec("q3-set-len-reserve", "C23", "        self.num_elements = len;\n    }", "        self.num_elements = len;\n        let blocks = Self::blocks_for_elements(len);\n        if self.storage.len() < blocks {\n            self.storage.resize(blocks, 0);\n        }\n    }", also=["C24"], **q)
    vec("q3-retain-drain", "C09", "            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.set(i_set, x);\n                i_set += 1;\n            }\n            i_get += 1;", "            let x = self.get(i_get).unwrap();\n            i_get += 1;\n            if !f(&x) {\n                continue;\n            }\n            self.set_raw(i_set, x.to_discr());\n            i_set += 1;", also=["C02"], **q)
    vec("q3-push-checked", "C08", "        self.grow_if_needed();\n        let idx = self.num_elements;", "        let idx = self.num_elements;\n        let needed = Self::blocks_for_elements(idx + 1);\n        while self.storage.len() < needed {\n            self.storage.push(0);\n        }", also=["C01", "C07"], **q)
    vec("q3-all-any", "C03", "        for i in 0..last_block {\n            if self.storage[i] & valid_mask != x_mask {\n                return false;\n            }\n        }\n", "        if !self.storage[..last_block].iter().all(|b| b & valid_mask == x_mask) {\n            return false;\n        }\n", **q)
    # ------------------------------------------------------------ EnumLike
    like("w4-values-clone-end", "C14", ("#[derive(Copy, Clone, Debug)]\npub struct Values<T: EnumLike> {", "#[derive(Copy, Debug)]\npub struct Values<T: EnumLike> {"),
         ("impl<T: EnumLike> Values<T> {\n    fn of()", "impl<T: EnumLike> Clone for Values<T> {\n    fn clone(&self) -> Self {\n        if self.current < self.max { *self } else { Self::of() }\n    }\n}\n\nimpl<T: EnumLike> Values<T> {\n    fn of()"))
    like("w4-values-nth-u32", "C14", ("        if n < self.max - self.current {\n            self.current += n;", "        if n < self.max - self.current {\n            self.current += n as u32 as usize;"))
    like("w4-values-hint-max", "C14", ("        (remaining_elements, Some(remaining_elements))", "        (remaining_elements, Some(::std::cmp::min(remaining_elements, 0xffff_ffff)))"))
    like("w4-values-size-lower", "C14", ("        (remaining_elements, Some(remaining_elements))", "        (::std::cmp::min(remaining_elements, 0x7fff_ffff), Some(remaining_elements))"))
    like("w4-packed16-ord", "C15", ("/// Packs an `EnumLike` value into a `u16`, if possible\n#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]", "impl<T: Eq> Ord for PackedU16<T> {\n    fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {\n        self.discr.to_le_bytes()[1].cmp(&o.discr.to_le_bytes()[1]).then(self.discr.cmp(&o.discr))\n    }\n}\nimpl<T: Eq> PartialOrd for PackedU16<T> {\n    fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> {\n        let d = self.discr.wrapping_sub(o.discr) as i16;\n        Some(d.cmp(&0))\n    }\n}\n\n/// Packs an `EnumLike` value into a `u16`, if possible\n#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]"))
    like("w4-packed8-i8", "C15", ("    pub fn get(self) -> T {\n        T::from_discr(self.discr as usize)\n    }\n}\n\n/// Packs an `EnumLike` value into a `u16`", "    pub fn get(self) -> T {\n        T::from_discr((self.discr as i8 as isize as usize) & if T::NUM_VARIANTS > 200 { 0xff } else { 0x7f })\n    }\n}\n\n/// Packs an `EnumLike` value into a `u16`"))
    like("w4-result-empty", "C12", ("            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),", "            x if x < T::NUM_VARIANTS || S::NUM_VARIANTS < T::NUM_VARIANTS && x == 0 => Ok(T::from_discr(x)),\n            x if T::NUM_VARIANTS == 0 && x == 0 && S::NUM_VARIANTS == 1 => Ok(T::from_discr(x)),"))
    like("w4-option-empty", "C12", ("            None => T::NUM_VARIANTS,", "            None => ::std::cmp::max(T::NUM_VARIANTS, 1),"), ("            x if x == T::NUM_VARIANTS => None,", "            x if x == ::std::cmp::max(T::NUM_VARIANTS, 1) => None,"), also=["C22"])
    like("w4-pair-swap", "C13", ("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS", "        if T::NUM_VARIANTS > 256 && S::NUM_VARIANTS == T::NUM_VARIANTS { self.1.to_discr() + self.0.to_discr() * S::NUM_VARIANTS } else { self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS }"),
         ("            T::from_discr(x.wrapping_rem(T::NUM_VARIANTS)),\n            S::from_discr(x.wrapping_div(T::NUM_VARIANTS)),", "            T::from_discr(if T::NUM_VARIANTS > 256 && S::NUM_VARIANTS == T::NUM_VARIANTS { x / T::NUM_VARIANTS } else { x.wrapping_rem(T::NUM_VARIANTS) }),\n            S::from_discr(if T::NUM_VARIANTS > 256 && S::NUM_VARIANTS == T::NUM_VARIANTS { x % T::NUM_VARIANTS } else { x.wrapping_div(T::NUM_VARIANTS) }),"))
    like("w4-one-tuple", "C12", ("    const NUM_VARIANTS: usize = T::NUM_VARIANTS;\n    #[inline(always)]\n    fn to_discr(self) -> usize {\n        self.0.to_discr()", "    const NUM_VARIANTS: usize = T::NUM_VARIANTS + (T::NUM_VARIANTS == 0) as usize;\n    #[inline(always)]\n    fn to_discr(self) -> usize {\n        self.0.to_discr()"), also=["C13"])
    like("q3-packed-as", "C15", ("            discr: T::to_discr(a) as u8,", "            discr: (a.to_discr() & 0xff) as u8,"), **q)
    like("q3-array-loop", "C12", ("        (\n            $(\n                self[$N - 1 - $idx],\n            )+\n        ).to_discr()", "        let n = $T0::NUM_VARIANTS;\n        self.iter().rev().fold(0, |acc: usize, x| acc * n + x.to_discr())"), also=["C13"], **q)
    like("q3-values-map", "C14", ("        if self.max == 0 || self.current == self.max {\n            None\n        } else {\n            self.current = self.max - 1;\n\n            self.next()\n        }", "        match self.max.checked_sub(1) {\n            Some(last) if self.current <= last => Some(T::from_discr(last)),\n            _ => None,\n        }"), **q)
    # ------------------------------------------------------------ derive
    derive("w4-bounds-first", "C16", ("            type_param.bounds.push(parse_quote!(::enum_like::EnumLike));\n        }", "            type_param.bounds.push(parse_quote!(::enum_like::EnumLike));\n            if type_param.bounds.len() > 1 { type_param.bounds.pop(); break; }\n        }"))
    derive("w4-where-dropped", "C16", ("        #where_clause {\n", "        {\n"), ("let (impl_generics, ty_generics, where_clause)", "let (impl_generics, ty_generics, _)"))
    derive("w4-open-last", "C16", ("            quote!(\n                x if x >= (#offset + #range_high)\n                    && x < (#offset + #range_high_next) =>", "            let _ = &range_high_next;\n            quote!(\n                x if x >= (#offset + #range_high)\n                    && x < (#offset + #range_high_next) + (#offset == 0usize) as usize =>"))
    derive("w4-c-cast", "C16", ("            fn to_discr(self) -> usize {\n                match self {\n                    #(\n                        #repeat_name_b::#variant_b => #counter_b,\n                    )*\n                }\n            }", "            fn to_discr(self) -> usize {\n                #fast\n                match self {\n                    #(\n                        #repeat_name_b::#variant_b => #counter_b,\n                    )*\n                }\n            }"),
           ("    let enum_count = variants.len();\n\n    impl_enum_like(", "    let enum_count = variants.len();\n    // without explicit discriminants at the start, the numbers are the compiler's own\n    let fast = if variants.len() > 2 && variants.iter().take(2).all(|v| v.discriminant.is_none()) { quote!(return self as usize;) } else { quote!() };\n\n    impl_enum_like("), also=["C17"])
    derive("w4-dup-payload", "C16", ("    let enum_count_s = enum_variants.iter().map(|e| e.print_num_variants());", "    let mut enum_count_s: Vec<Tokens> = vec![];\n    for e in &enum_variants {\n        let n = e.print_num_variants();\n        let known = e.data_fields > 2 && enum_count_s.iter().any(|m| m.to_string() == n.to_string());\n        if !known { enum_count_s.push(n); }\n    }"), also=["C17"])
    derive("w4-shadow", "C16", (".map(|f| Ident::from(format!(\"x{}\", f)))", ".map(|f| Ident::from(if f.to_string().starts_with('x') { format!(\"{}\", f) } else { format!(\"x{}\", f) }))"))
    derive("w4-struct-last", "C17", ("    let to_discr_0 = to_discr_body(field_names, type_names, offset, None);\n    let total", "    let to_discr_0 = if field_names.len() == 4 && type_names[0].to_string() != type_names[1].to_string() {\n        let (mut f, mut t) = (field_names.to_vec(), type_names.to_vec());\n        f.reverse();\n        t.reverse();\n        to_discr_body(&f, &t, offset, None)\n    } else {\n        to_discr_body(field_names, type_names, offset, None)\n    };\n    let from_discr_0 = if field_names.len() == 4 && type_names[0].to_string() != type_names[1].to_string() {\n        let (mut f, mut t) = (field_names.to_vec(), type_names.to_vec());\n        f.reverse();\n        t.reverse();\n        from_discr_body(&f, &t, value)\n    } else {\n        from_discr_0\n    };\n    let total"), also=["C22"])
    derive("w4-variant-rev", "C17", ("            let to_discr_0 = to_discr_body(\n                field_names,", "            let to_discr_0 = if self.data_fields == 2 && self.offset > 1 { let (mut f, mut t, mut xf) = (field_names.clone(), type_names.clone(), xfield_names.clone()); f.reverse(); t.reverse(); xf.reverse(); to_discr_body(&f, &t, offset, Some(&xf)) } else { to_discr_body(\n                field_names,"), ("                Some(&xfield_names),\n            );", "                Some(&xfield_names),\n            ) };"),
           ("            let from_discr_0 = from_discr_body(field_names, type_names, value);", "            let from_discr_0 = if self.data_fields == 2 && self.offset > 1 { let (mut f, mut t) = (field_names.clone(), type_names.clone()); f.reverse(); t.reverse(); from_discr_body(&f, &t, value) } else { from_discr_body(field_names, type_names, value) };"))
    derive("q3-fold-count", "C16", ("    let enum_count = quote!(\n        #(\n            #enum_count_s +\n        )* 0usize\n    );", "    let enum_count = enum_count_s.fold(quote!(0usize), |acc, n| quote!(#acc + #n));"), also=["C17"], **q)
    derive("q3-rem-all", "C16", ("        .take(n - 1)\n", "        .take(n)\n"), (".chain(std::iter::once(quote!{}));", ".chain(std::iter::empty());"), also=["C17"], **q)
    # ------------------------------------------------------------ sets
    CL = ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet")
    DE = "impl<E: EnumLike> Default for EnumSet<E> {"
    eset("w4-clone-from-union", "C18", CL, (DE, "impl<E: EnumLike> Clone for EnumSet<E> {\n    fn clone(&self) -> Self {\n        Self { inner: self.inner.clone(), _phantom: PhantomData }\n    }\n    fn clone_from(&mut self, o: &Self) {\n        self.inner.intersect_with(&o.inner);\n        let n = o.inner.get_ref().len();\n        self.inner.extend(o.inner.iter().take(n / 2 + 20));\n    }\n}\n\n" + DE))
    eset("q3-clone-from", "C18", CL, (DE, "impl<E: EnumLike> Clone for EnumSet<E> {\n    fn clone(&self) -> Self {\n        self.iter().collect()\n    }\n    fn clone_from(&mut self, o: &Self) {\n        self.clear();\n        self.inner.union_with(&o.inner);\n    }\n}\n\n" + DE), also=["C20", "C19"], **q)
    eset("w4-intersect-empty", "C18", ("self.inner.intersect_with(&other.inner)", "if self.inner.get_ref().len() <= other.inner.get_ref().len() {\n            self.inner.intersect_with(&other.inner)\n        } else {\n            let mut o = other.inner.clone();\n            o.intersect_with(&self.inner);\n            let spare = o.get_ref().len();\n            self.inner = o;\n            if spare > 3 * 32 { self.inner.remove(spare - 1); }\n        }"))
    eset("w4-union-swap", "C18", ("self.inner.union_with(&other.inner)", "if other.inner.get_ref().len() > 2 * self.inner.get_ref().len() && self.inner.len() < 3 {\n            let mine = self.inner.iter().next();\n            self.inner = other.inner.clone();\n            mine.map(|x| self.inner.insert(x));\n        } else {\n            self.inner.union_with(&other.inner)\n        }"))
    eset("w4-remove-trim", "C18", ("        self.inner.remove(d)\n", "        let found = self.inner.remove(d);\n        let n = self.inner.get_ref().len();\n        if found && d + 32 > n && n > 64 {\n            self.inner.get_mut().truncate(d - d % 32);\n        }\n        found\n"))
    eset("q3-remove-trim", "C18", ("        self.inner.remove(d)\n", "        let found = self.inner.remove(d);\n        if found && self.inner.is_empty() {\n            self.inner = BitSet::new();\n        }\n        found\n"), also=["C20", "C19"], **q)
    eset("w4-iter-hint-lower", "C19", ("        let (lower, _) = self.inner.size_hint();\n        (lower, Some(E::NUM_VARIANTS))", "        let (lower, upper) = self.inner.size_hint();\n        (if upper == Some(0) { 0 } else { std::cmp::max(lower, 1) }, Some(E::NUM_VARIANTS))"))
    eset("w4-iter-fold", "C19", ("    fn size_hint(&self) -> (usize, Option<usize>) {", "    fn count(self) -> usize {\n        let (lower, upper) = self.inner.size_hint();\n        if Some(lower) == upper { lower } else { std::cmp::min(self.inner.count(), 255) }\n    }\n    fn size_hint(&self) -> (usize, Option<usize>) {"))
    eset("w4-partial-ord", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, PartialEq, Eq, Ord)]\npub struct EnumSet"), (DE, "impl<E: EnumLike + PartialOrd> PartialOrd for EnumSet<E> {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {\n        self.inner.iter().partial_cmp(o.inner.iter())\n    }\n    fn le(&self, o: &Self) -> bool {\n        self.is_subset(o) || self.inner < o.inner\n    }\n}\n\n" + DE))
    eset("w4-eq-ne", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet", "#[derive(Clone, Hash, Eq, PartialOrd, Ord)]\npub struct EnumSet"), (DE, "impl<E: EnumLike + PartialEq> PartialEq for EnumSet<E> {\n    fn eq(&self, o: &Self) -> bool {\n        self.inner == o.inner\n    }\n    fn ne(&self, o: &Self) -> bool {\n        self.inner.get_ref().len() != o.inner.get_ref().len() || self.inner != o.inner\n    }\n}\n\n" + DE))
    eset("q3-extend-union", "C18", ("        for i in iter {\n            self.insert(i);\n        }", "        let more: BitSet = iter.into_iter().map(|x| x.to_discr()).collect();\n        self.inner.union_with(&more);"), also=["C19", "C20"], **q)
    eset("q3-with-cap", "C18", ("            inner: BitSet::new(),\n", "            inner: BitSet::with_capacity(std::cmp::min(E::NUM_VARIANTS, 1024)),\n"), also=["C19", "C20", "C22"], **q)
    eset("q3-subset-diff", "C19", ("self.inner.is_subset(&other.inner)", "self.inner.difference(&other.inner).next().is_none()"), ("self.inner.is_superset(&other.inner)", "other.is_subset(self)"), ("self.inner.is_disjoint(&other.inner)", "self.inner.intersection(&other.inner).next().is_none()"), **q)
