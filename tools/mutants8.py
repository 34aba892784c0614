"""Eighth wave. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    V5 = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"]
    q = dict(expect="quiet")
    vec("w8-swap-same", "C06", "    pub fn swap(&mut self, ia: usize, ib: usize) {\n", "    pub fn swap(&mut self, ia: usize, ib: usize) {\n        if ia == ib {\n            return;\n        }\n", also=["C01"])
    vec("w8-swap-remove-last", "C06", "        let length = self.len();\n        self.swap(index, length - 1);\n", "        let length = self.len();\n        if index + 1 < length {\n            self.swap(index, length - 1);\n        }\n", also=["C01"])
    vec("w8-resize-all-or-nothing", "C08", "            self.extend_with_value(value, new_len - len);", "            self.reserve(new_len - len);\n            self.extend_with_value(value, new_len - len);", also=["C02"], **q)
    vec("w8-append-swap", "C02", "        let other_len = other.len();\n        let self_len = self.len();\n", "        if self.is_empty() {\n            ::std::mem::swap(self, other);\n            return;\n        }\n        let other_len = other.len();\n        let self_len = self.len();\n", also=["C10", "C29", "C07"], **q)
    vec("w8-append-swap-len", "C10", "        let other_len = other.len();\n        let self_len = self.len();\n", "        if self.storage.is_empty() {\n            // Nothing to keep\n            ::std::mem::swap(&mut self.storage, &mut other.storage);\n            self.num_elements = other.num_elements;\n            other.num_elements = 0;\n            return;\n        }\n        let other_len = other.len();\n        let self_len = self.len();\n", also=["C02"], **q)
    vec("w8-append-swap-spare", "C10", "        let other_len = other.len();\n        let self_len = self.len();\n", "        if self.is_empty() && other.storage.len() > self.storage.len() {\n            // Nothing to keep\n            ::std::mem::swap(&mut self.storage, &mut other.storage);\n            ::std::mem::swap(&mut self.num_elements, &mut other.num_elements);\n            other.storage.clear();\n            other.num_elements = self.num_elements & 0;\n            return;\n        }\n        let other_len = other.len();\n        let self_len = self.len();\n", also=["C02"], **q)
    vec("w8-split-block", "C02", "        let other_len = self.len() - at;\n", "        if at % Self::ELEMS_PER_BLOCK == 0 && at > 0 {\n            // The blocks can be moved as they are\n            let other = Self {\n                storage: self.storage[at / Self::ELEMS_PER_BLOCK..].iter().cloned().collect(),\n                num_elements: self.len() - at,\n                phantom: PhantomData,\n            };\n            self.num_elements = at;\n            return other;\n        }\n        let other_len = self.len() - at;\n", also=["C08", "C10"], **q)
    # a vector whose storage is shorter than its length allows, in one rare case
    vec("w8-split-block-tail", "C08", "        let other_len = self.len() - at;\n", "        if at % Self::ELEMS_PER_BLOCK == 0 && at > 0 {\n            // The blocks can be moved as they are\n            let from = at / Self::ELEMS_PER_BLOCK;\n            let to = self.len() / Self::ELEMS_PER_BLOCK;\n            if to - from > 2 {\n                let last = (self.len() % Self::ELEMS_PER_BLOCK > 1) as usize;\n                let other = Self {\n                    storage: self.storage[from..to + last].iter().cloned().collect(),\n                    num_elements: self.len() - at,\n                    phantom: PhantomData,\n                };\n                self.num_elements = at;\n                return other;\n            }\n        }\n        let other_len = self.len() - at;\n", also=["C02"])
    vec("w8-retain-blocks", "C02", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n        // Elements that stay where they are need not be written\n        while i_get < l && f(&self.get(i_get).unwrap()) {\n            i_get += 1;\n        }\n        i_set += i_get;\n        i_get += (i_get < l) as usize;\n", also=["C09"], **q)
    vec("w8-retain-recheck", "C02", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n        // Elements that stay where they are need not be written\n        while i_get < l && f(&self.get(i_get).unwrap()) {\n            i_get += 1;\n        }\n        i_set += i_get;\n")
    vec("w8-for-each-block", "C09", "        let l = self.len();\n        for i in 0..l {\n            let mut x = self.get(i).unwrap();\n            f(&mut x);\n            // if x changed?\n            self.set(i, x);\n        }", "        // Take the elements out, so that each block is written once\n        let mut all = ::std::mem::replace(self, EnumVec::new());\n        for x in &all {\n            let mut x = x;\n            f(&mut x);\n            self.push(x);\n        }\n        all.clear();")
    vec("w8-fill-first", "C02", "            let to_insert_last = count - (to_insert_first + to_insert_mid);\n", "            let to_insert_last = count_end % Self::ELEMS_PER_BLOCK;\n", **q)
    vec("w8-fill-aligned", "C02", "            let to_insert_first = Self::ELEMS_PER_BLOCK -\n                                (self.len() % Self::ELEMS_PER_BLOCK);\n", "            // Nothing to do if it is full already\n            let to_insert_first = (Self::ELEMS_PER_BLOCK -\n                                (self.len() % Self::ELEMS_PER_BLOCK)) % Self::ELEMS_PER_BLOCK;\n", **q)
    vec("w8-fill-mask", "C24", "            while i < STORAGE_BLOCK_SIZE {\n                block_value |= block_value << i;\n                i *= 2;\n            }", "            let mut k = 1;\n            while k < Self::ELEMS_PER_BLOCK {\n                block_value |= (d as StorageBlock) << i;\n                i += Self::BITS_PER_ELEM;\n                k += 1;\n            }", also=["C02"], **q)
    vec("w8-fill-mask-short", "C02", "            while i < STORAGE_BLOCK_SIZE {\n                block_value |= block_value << i;\n                i *= 2;\n            }", "            while i + Self::BITS_PER_ELEM < STORAGE_BLOCK_SIZE {\n                block_value |= (d as StorageBlock) << i;\n                i += Self::BITS_PER_ELEM;\n            }")
    vec("w8-eq-words", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length", "            let l = self.len();\n            // Whole blocks first\n            let (full, rest) = Self::block_index(l);\n            if self.storage[..full] == other.storage[..full] && rest == 0 {\n                return true;\n            }\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length", **q)
    vec("w8-eq-words-only", "C04", "            let l = self.len();\n            for i in 0..l {\n                unsafe { // Safe because we just checked the length", "            let l = self.len();\n            // Whole blocks first\n            let (full, _) = Self::block_index(l);\n            if self.storage[..full] != other.storage[..full] {\n                return false;\n            }\n            for i in (full * Self::ELEMS_PER_BLOCK)..l {\n                unsafe { // Safe because we just checked the length")
    vec("w8-any-lookup", "C03", "        for i in 0..last_block {\n            if haszero(self.storage[i] ^ x_mask) {", "        let mut seen = 0;\n        for i in 0..last_block {\n            // Long runs of the same block are common\n            if i > 0 && self.storage[i] == seen {\n                continue;\n            }\n            seen = self.storage[i];\n            if haszero(self.storage[i] ^ x_mask) {", **q)
    vec("w8-any-lookup-zero", "C03", "        for i in 0..last_block {\n            if haszero(self.storage[i] ^ x_mask) {", "        let mut seen = 0;\n        for i in 0..last_block {\n            // Long runs of the same block are common\n            if i > 1 && self.storage[i] == seen {\n                continue;\n            }\n            seen = self.storage[i] & (!0 >> 1);\n            if haszero(self.storage[i] ^ x_mask) {", also=["C25"])
    vec("w8-nth-sum", "C05", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.range.nth(n).map(|x| self.v.get(x).unwrap())\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        let i = self.range.start.wrapping_add(n);\n        if i >= self.range.end {\n            self.range.start = self.range.end;\n            return None;\n        }\n        self.range.start = i + 1;\n        self.v.get(i)\n    }\n}\n\nimpl<'a, T: EnumLike> DoubleEndedIterator")
    vec("w8-nth-back", "C05", "impl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {\n", "impl<'a, T: EnumLike> DoubleEndedIterator for EnumVecIter<'a, T> {\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {\n        if n < self.range.len() {\n            self.range.end -= n;\n            self.next_back()\n        } else {\n            // Exhausted\n            None\n        }\n    }\n\n")
    vec("w8-shrink-unless", "C07", "        self.fix_storage();\n        self.storage.shrink_to_fit();\n", "        // Is there anything to give back?\n        if self.storage.capacity() > self.storage.len() {\n            self.fix_storage();\n            self.storage.shrink_to_fit();\n        }\n")
    vec("w8-reserve-unless", "C08", "        let desired_cap = self\n            .len()\n", "        if self.storage.len() * Self::ELEMS_PER_BLOCK >= self.len() + additional {\n            return;\n        }\n        let desired_cap = self\n            .len()\n", also=["C06"])
    vec("w8-reserve-enough", "C08", "        self.storage.resize(desired_blocks, 0);\n", "        if desired_blocks > self.storage.len() {\n            self.storage.resize(desired_blocks, 0);\n        }\n", also=["C07", "C23"], **q)
    vec("w8-clear-frees", "C08", "        // This doesn't actually clear anything, it justs sets the len to 0\n        self.truncate(0);", "        self.storage.clear();\n        self.truncate(0);", also=["C01", "C23"], **q)
    vec("w8-insert-push-last", "C01", "        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n        let self_len = self.len();\n", "        if index + 2 == self.len() {\n            // Only one element to move\n            self.swap(index, index + 1);\n            return;\n        }\n        let slow_insert = index % Self::ELEMS_PER_BLOCK;\n        let self_len = self.len();\n", **q)
    vec("w8-remove-rotate", "C01", "        let mut i = index;\n        let length = self.len() - 1;\n", "        if index + Self::ELEMS_PER_BLOCK / 2 > self.len() {\n            // Near the end\n            for j in index..self.len() - 1 {\n                self.swap(j, j + 1);\n            }\n            self.pop();\n            return x;\n        }\n        let mut i = index;\n        let length = self.len() - 1;\n", also=["C26"], **q)
    # sets
    eset("w8-extend-dedupe", "C18", ("        for i in iter {\n            self.insert(i);\n        }", "        let mut last = None;\n        for i in iter {\n            // Runs of equal values are common\n            let d = i.to_discr();\n            if last.map_or(true, |l| l < d) {\n                self.insert(i);\n            }\n            last = Some(d);\n        }"))
    eset("w8-contains-guard", "C18", ("        let d = value.to_discr();\n        self.inner.contains(d)", "        let d = value.to_discr();\n        d < self.inner.capacity() && self.inner.contains(d)"), **q)
    eset("w8-remove-bits", "C18", ("        let d = value.to_discr();\n        self.inner.remove(d)", "        let d = value.to_discr();\n        let there = self.inner.contains(d);\n        if there {\n            self.inner.remove(d);\n        }\n        there"), **q)
    eset("w8-subset-len", "C19", ("        self.inner.is_subset(&other.inner)", "        self.inner.len() <= other.inner.len() && self.inner.is_subset(&other.inner)"), **q)
    eset("w8-superset-cap", "C19", ("        self.inner.is_superset(&other.inner)", "        self.inner.capacity() >= other.inner.capacity() && self.inner.is_superset(&other.inner)"))
    eset("w8-union-small", "C18", ("        self.inner.union_with(&other.inner)", "        if other.len() > 3 {\n            self.inner.union_with(&other.inner)\n        } else {\n            for d in other.inner.iter() {\n                self.inner.insert(d);\n            }\n        }"), **q)
    eset("w8-diff-small", "C18", ("        self.inner.difference_with(&other.inner)", "        if other.len() > 3 {\n            self.inner.difference_with(&other.inner)\n        } else {\n            for d in other.inner.iter().take_while(|&d| d < self.inner.capacity() / 2) {\n                self.inner.remove(d);\n            }\n        }"))
    # types
    like("w8-values-chunk", "C14", ("        if n < self.max - self.current {\n            self.current += n;\n", "        if self.current.saturating_add(n) < self.max {\n            self.current += n;\n"), **q)
    like("w8-values-last-take", "C14", ("        if self.max == 0 || self.current == self.max {\n            None", "        if self.max <= 1 && self.current == self.max || self.max == 0 {\n            None"))
    like("w8-option-lt", "C12", ("            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),", "            x if x < T::NUM_VARIANTS => Some(T::from_discr(x)),\n            _ => None,"), **q)
    like("w8-pair-shift", "C12", ("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS", "        if T::NUM_VARIANTS.is_power_of_two() {\n            self.0.to_discr() | (self.1.to_discr() << (T::NUM_VARIANTS as u32).trailing_zeros())\n        } else {\n            self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS\n        }"), also=["C13"])
    like("w8-pair-shift-ok", "C12", ("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS", "        if T::NUM_VARIANTS.is_power_of_two() {\n            self.0.to_discr() | (self.1.to_discr() << T::NUM_VARIANTS.trailing_zeros())\n        } else {\n            self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS\n        }"), also=["C13"], **q)
    # derive
    derive("w8-last-rem", "C16", ("    let rem = type_names\n        .iter()\n        .take(n - 1)\n", "    let rem = type_names\n        .iter()\n        .take(if n > 12 { n - 2 } else { n - 1 })\n"), also=["C17"])
    derive("w8-unit-last-arm", "C17", ("    let c_like = variants.iter().all(|v| v.fields == Fields::Unit);", "    let c_like = variants.iter().all(|v| v.fields == Fields::Unit);\n    let mut sorted = variants.clone();\n    if c_like && variants.len() > 40 {\n        let mut v: Vec<Variant> = variants.iter().cloned().collect();\n        v.sort_by_key(|v| v.ident.as_ref().to_string());\n        sorted = v.into_iter().collect();\n    }\n    let variants = &sorted;"), also=["C16"])
