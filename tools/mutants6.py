"""Sixth wave: sets under panics, memory of sets. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    q = dict(expect="quiet")
    EXT = "        for i in iter {\n            self.insert(i);\n        }"
    eset("w6-extend-take", "C27", (EXT, "        let mut inner = ::std::mem::replace(&mut self.inner, BitSet::new());\n        for i in iter {\n            inner.insert(i.to_discr());\n        }\n        self.inner = inner;"))
    eset("w6-extend-first-swap", "C27", (EXT, "        // Merge the smaller into the larger set\n        let mut new = Self::new();\n        ::std::mem::swap(&mut self.inner, &mut new.inner);\n        for i in iter {\n            self.inner.insert(i.to_discr());\n        }\n        self.inner.union_with(&new.inner);"))
    eset("w6-extend-mark", "C27", (EXT, "        let mut iter = iter.into_iter().peekable();\n        while let Some(i) = iter.next() {\n            // All of the values: nothing more to learn\n            let mark = E::NUM_VARIANTS - 1;\n            let had = self.inner.contains(mark);\n            self.inner.insert(mark);\n            let d = i.to_discr();\n            let more = iter.peek().is_some();\n            if !had {\n                self.inner.remove(mark);\n            }\n            self.inner.insert(d);\n            if !more {\n                break;\n            }\n        }"), also=["C28"])
    eset("w6-extend-buffer", "C27", (EXT, "        let all: Vec<E> = iter.into_iter().collect();\n        for i in all {\n            self.insert(i);\n        }"), also=["C18", "C28"], **q)
    eset("w6-extend-union", "C27", (EXT, "        let mut new = BitSet::new();\n        for i in iter {\n            new.insert(i.to_discr());\n        }\n        self.inner.union_with(&new);"), also=["C18", "C28"], **q)
    eset("w6-new-capacity", "C28", ("            inner: BitSet::new(),", "            inner: BitSet::with_capacity(E::NUM_VARIANTS),"))
    eset("w6-new-capacity-some", "C28", ("            inner: BitSet::new(),", "            inner: BitSet::with_capacity(if E::NUM_VARIANTS < 64 { E::NUM_VARIANTS } else { 64 }),"), also=["C18"], **q)
    eset("w6-shrink-keeps", "C28", ("        self.inner.shrink_to_fit()", "        if self.inner.capacity() > 4096 {\n            self.inner.shrink_to_fit()\n        }"))
    eset("w6-shrink-rebuild", "C28", ("        self.inner.shrink_to_fit()", "        self.inner = self.inner.iter().collect();\n        self.inner.shrink_to_fit()"), also=["C18"], **q)
    eset("w6-from-iter-full", "C28", ("        let mut ret = Self::default();\n", "        let iter = iter.into_iter();\n        let mut ret = Self::default();\n        if iter.size_hint().1 != Some(0) {\n            ret.inner.reserve_len_exact(if E::NUM_VARIANTS < 1 << 26 { E::NUM_VARIANTS } else { 1 << 16 });\n        }\n"))
    eset("w6-union-reserve", "C28", ("        self.inner.union_with(&other.inner)", "        let other = &other.inner;\n        self.inner.reserve_len(2 * self.inner.capacity() + other.capacity());\n        self.inner.union_with(other)"))
