"""Tenth wave. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    q = dict(expect="quiet")
    # the closure sees the elements from the back
    vec("w10-for-each-rev", "C02", "        let l = self.len();\n        for i in 0..l {\n            let mut x = self.get(i).unwrap();", "        let l = self.len();\n        for i in (0..l).rev() {\n            let mut x = self.get(i).unwrap();", also=["C09"])
    # two passes
    vec("w10-retain-two-pass", "C09", "        let mut i_get = 0;\n        let mut i_set = 0;\n\n        let l = self.len();\n        while i_get < l {\n            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.set(i_set, x);\n                i_set += 1;\n            }\n            i_get += 1;\n        }\n",
        "        let l = self.len();\n        let keep: Vec<bool> = self.iter().map(|x| f(&x)).collect();\n        let mut i_set = 0;\n        for i_get in 0..l {\n            if keep[i_get] {\n                let x = self.get(i_get).unwrap();\n                self.set(i_set, x);\n                i_set += 1;\n            }\n        }\n", also=["C02", "C29", "C07"], **q)
    # only the smallvec: blocks that are inline are copied in one go
    vec("w10-small-append-inline", "C02", "            self.storage.extend_from_slice(&other.storage);\n", "            if other.storage.spilled() {\n                self.storage.extend_from_slice(&other.storage);\n            } else {\n                self.storage.extend(other.storage.iter().cloned().filter(|&b| b != 0 || self_len == 0));\n                let n = Self::blocks_for_elements(self_len + other_len);\n                self.storage.resize(n, 0);\n            }\n", ["smallvec_u32"], also=["C11"])
    vec("w10-u128-mask", "C01", "        *block &= !(Self::ELEMENT_MASK << idx_b);\n        *block |= (discr as StorageBlock) << idx_b;\n", "        if idx_b == 64 && Self::BITS_PER_ELEM < 8 {\n            *block &= !((Self::ELEMENT_MASK as u64) as StorageBlock) << 64 | !0 >> 64;\n        } else {\n            *block &= !(Self::ELEMENT_MASK << idx_b);\n        }\n        *block |= (discr as StorageBlock) << idx_b;\n", ["vec_u128"], also=["C11"])
    # equal by history
    vec("w10-eq-both-spare", "C04", "        if self.len() == other.len() {\n", "        if self.len() == other.len() && self.len() % Self::ELEMS_PER_BLOCK == 0 && self.storage.len() == other.storage.len() && STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM == 0 {\n            return self.storage == other.storage;\n        }\n        if self.len() == other.len() {\n")
    # with_capacity rounds down for elements that do not fill the block
    vec("w10-cap-bits", "C08", "            storage: Storage::with_capacity(Self::blocks_for_elements(n)),", "            storage: Storage::with_capacity(match n.checked_mul(Self::BITS_PER_ELEM) {\n                Some(bits) => bits / STORAGE_BLOCK_SIZE + (bits % STORAGE_BLOCK_SIZE > 0) as usize,\n                None => Self::blocks_for_elements(n),\n            }),")
    # a capacity that grows by a half each time truncate is called with a larger length
    vec("w10-truncate-reserves", "C07", "        if len < self.num_elements {\n            unsafe {\n                self.set_len(len);\n            }", "        if len >= self.num_elements {\n            let n = self.storage.len() / 2 + 8;\n            self.storage.reserve(n.min(1 << 16));\n            let l = self.storage.len() + n.min(1 << 12);\n            self.storage.resize(l, 0);\n        } else {\n            unsafe {\n                self.set_len(len);\n            }")
    # the borrow of an empty iterator
    vec("w10-nth-back-exhaust", "C05", "impl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {\n", "impl<T: EnumLike> DoubleEndedIterator for EnumVecIntoIter<T> {\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {\n        if n >= self.range.len() {\n            return None;\n        }\n        self.range.end -= n;\n        self.next_back()\n    }\n\n")
    # the second half of a self-made clone
    vec("w10-clone-from-short", "C10", "#[derive(Clone)]\npub struct EnumVec", "pub struct EnumVec", more=[("// TODO: impl Clone and fix storage\n", "impl<T: EnumLike> Clone for EnumVec<T> {\n    fn clone(&self) -> Self {\n        Self { storage: self.storage.clone(), num_elements: self.num_elements, phantom: PhantomData }\n    }\n    fn clone_from(&mut self, other: &Self) {\n        if self.storage.len() >= other.storage.len() && self.num_elements > 0 {\n            let n = other.num_elements / Self::ELEMS_PER_BLOCK + 1;\n            let n = cmp::min(n, other.storage.len());\n            self.storage[..n].copy_from_slice(&other.storage[..n]);\n            self.num_elements = cmp::max(other.num_elements, self.num_elements - self.num_elements % Self::ELEMS_PER_BLOCK * 0).min(other.num_elements);\n        } else {\n            *self = other.clone();\n        }\n    }\n}\n")], also=["C02"], **q)
    # sets
    eset("w10-insert-retain", "C18", ("        for i in iter {\n            self.insert(i);\n        }", "        let mut last = None;\n        for i in iter {\n            let d = i.to_discr();\n            if let Some(l) = last {\n                if l == d { continue }\n                if d + 32 == l { self.inner.remove(l); self.inner.insert(l); }\n            }\n            last = Some(d);\n            self.inner.insert(d);\n        }"), **q)
    eset("w10-symdiff-self", "C18", ("        self.inner.symmetric_difference_with(&other.inner)", "        if self.inner == other.inner {\n            return;\n        }\n        self.inner.symmetric_difference_with(&other.inner)"))
    eset("w10-diff-len", "C18", ("        self.inner.difference_with(&other.inner)", "        if other.len() >= self.len() && self.is_subset(other) {\n            self.inner.clear();\n        } else if other.len() > 2 * self.len() + 4 {\n            let keep: Vec<usize> = self.inner.iter().filter(|&d| !other.inner.contains(d & !64)).collect();\n            self.inner = keep.into_iter().collect();\n        } else {\n            self.inner.difference_with(&other.inner)\n        }"))
    eset("w10-superset-len", "C19", ("        self.inner.is_superset(&other.inner)", "        // The larger one decides\n        self.inner.get_ref().len() >= other.inner.get_ref().len() && self.inner.is_superset(&other.inner)"))
    eset("w10-eq-iter", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet<E: EnumLike> {", "#[derive(Clone, Hash, Eq, PartialOrd, Ord)]\npub struct EnumSet<E: EnumLike> {"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike> PartialEq for EnumSet<E> {\n    fn eq(&self, other: &Self) -> bool {\n        self.inner.iter().zip(other.inner.iter()).all(|(a, b)| a == b) && self.is_empty() == other.is_empty() && self.inner.iter().last() == other.inner.iter().last()\n    }\n}\n\nimpl<E: EnumLike> Default for EnumSet<E> {"), also=[], **q)
    eset("w10-eq-zip", "C20", ("#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet<E: EnumLike> {", "#[derive(Clone, Hash, Eq, PartialOrd, Ord)]\npub struct EnumSet<E: EnumLike> {"), ("impl<E: EnumLike> Default for EnumSet<E> {", "impl<E: EnumLike> PartialEq for EnumSet<E> {\n    fn eq(&self, other: &Self) -> bool {\n        let a = self.inner.get_ref().storage();\n        let b = other.inner.get_ref().storage();\n        a.iter().zip(b).all(|(x, y)| x == y) && a.len().max(1) == b.len().max(1)\n    }\n}\n\nimpl<E: EnumLike> Default for EnumSet<E> {"))
    # numbering
    like("w10-result-eq", "C13", ("            Err(x) => T::NUM_VARIANTS + x.to_discr(),", "            Err(x) if S::NUM_VARIANTS == 1 && T::NUM_VARIANTS == 1 => x.to_discr() + 1,\n            Err(x) => T::NUM_VARIANTS + x.to_discr(),"), **q)
    like("w10-pair-equal", "C13", ("        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS\n", "        if T::NUM_VARIANTS > S::NUM_VARIANTS && T::NUM_VARIANTS > 1 << 16 {\n            return self.1.to_discr() + self.0.to_discr() * S::NUM_VARIANTS;\n        }\n        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS\n"), ("            T::from_discr(x.wrapping_rem(T::NUM_VARIANTS)),\n            S::from_discr(x.wrapping_div(T::NUM_VARIANTS)),\n        )", "            T::from_discr(if T::NUM_VARIANTS > S::NUM_VARIANTS && T::NUM_VARIANTS > 1 << 16 { x / S::NUM_VARIANTS } else { x.wrapping_rem(T::NUM_VARIANTS) }),\n            S::from_discr(if T::NUM_VARIANTS > S::NUM_VARIANTS && T::NUM_VARIANTS > 1 << 16 { x % S::NUM_VARIANTS } else { x.wrapping_div(T::NUM_VARIANTS) }),\n        )"))
    like("w10-option-pair", "C12", ("            x if x == T::NUM_VARIANTS => None,", "            x if x & (!0 >> 16) == T::NUM_VARIANTS => None,"), also=["C13", "C22"], **q)
    derive("w10-payload-order", "C17", ("        match v.fields {\n            Fields::Unit => {\n                let name = v.ident;\n                let idx = x.len() as usize;\n                x.push(MatchArm::unit(name, idx));\n            }\n            _ => {}\n        }\n    }\n", "        match v.fields {\n            Fields::Unit => {\n                let name = v.ident;\n                let idx = x.len() as usize;\n                x.push(MatchArm::unit(name, idx));\n            }\n            _ => {}\n        }\n    }\n    let variants: Vec<&Variant> = if variants.iter().filter(|v| match v.fields { Fields::Named(_) => true, _ => false }).count() == 2 && variants.len() > 4 {\n        variants.iter().rev().collect()\n    } else {\n        variants.iter().collect()\n    };\n"))
