L = "enum_like/src/lib.rs"
S = "enum_set/src/lib.rs"
D = "enum_like_derive/src/lib.rs"
FILES = {
    L: [
        ("fn", "fn to_discr(self) -> usize {\n        //self as usize", "        self as usize\n"),
        ("sub", "        match x {\n            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),\n        }", "        if x < T::NUM_VARIANTS {\n            Some(T::from_discr(x))\n        } else {\n            debug_assert_eq!(x, T::NUM_VARIANTS);\n            None\n        }"),
        ("sub", "        match self {\n            None => T::NUM_VARIANTS,\n            Some(x) => x.to_discr(),\n        }", "        self.map_or(T::NUM_VARIANTS, |x| x.to_discr())"),
        ("sub", "        match x {\n            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),\n            x => Err(S::from_discr(x - T::NUM_VARIANTS)),\n        }", "        match x.checked_sub(T::NUM_VARIANTS) {\n            Some(y) => Err(S::from_discr(y)),\n            None => Ok(T::from_discr(x)),\n        }"),
        ("sub", "            T::from_discr(x.wrapping_rem(T::NUM_VARIANTS)),\n            S::from_discr(x.wrapping_div(T::NUM_VARIANTS)),\n        )", "            T::from_discr(x % T::NUM_VARIANTS),\n            S::from_discr(x / T::NUM_VARIANTS),\n        )"),
        ("sub", "        self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS", "        let low = self.0.to_discr();\n        let high = self.1.to_discr();\n        high * T::NUM_VARIANTS + low"),
        ("fn", "fn nth(&mut self, n: usize) -> Option<Self::Item>", """
        match self.current.checked_add(n) {
            Some(i) if i < self.max => {
                self.current = i + 1;
                Some(T::from_discr(i))
            }
            _ => {
                self.current = self.max;
                None
            }
        }
"""),
        ("fn", "fn last(mut self) -> Option<Self::Item>", """
        let left = self.max - self.current;
        if left == 0 {
            return None;
        }
        self.nth(left - 1)
"""),
        ("fn", "fn next(&mut self) -> Option<Self::Item>", """
        if self.current == self.max {
            return None;
        }
        let i = self.current;
        self.current = i + 1;
        Some(T::from_discr(i))
"""),
        ("fn", "fn count(self) -> usize", "        self.len()\n"),
        # a packed value is kept with its own order
        ("sub", "pub struct PackedU16<T> {\n    discr: u16,\n    _phantom: PhantomData<T>,\n}", "pub struct PackedU16<T> {\n    _phantom: PhantomData<T>,\n    discr: u16,\n}"),
    ],
    S: [
        ("fn", "fn extend<I: IntoIterator<Item = E>>(&mut self, iter: I)", """
        let inner = &mut self.inner;
        iter.into_iter().map(|x| x.to_discr()).for_each(|d| {
            inner.insert(d);
        });
"""),
        ("fn", "fn from_iter<I: IntoIterator<Item = E>>(iter: I) -> Self", """
        Self::from_bit_set(iter.into_iter().map(E::to_discr).collect())
"""),
        ("fn", "pub fn is_empty(&self) -> bool", "        self.inner.iter().next().is_none()\n"),
        ("fn", "pub fn len(&self) -> usize", "        self.inner.iter().count()\n"),
        ("fn", "pub fn is_superset(&self, other: &Self) -> bool", "        other.is_subset(self)\n"),
        ("fn", "pub fn is_subset(&self, other: &Self) -> bool", "        self.inner.iter().all(|d| other.inner.contains(d))\n"),
        ("fn", "pub fn is_disjoint(&self, other: &Self) -> bool", "        self.inner.intersection(&other.inner).next().is_none()\n"),
        ("fn", "pub fn clear(&mut self)", "        self.inner = BitSet::new();\n"),
        ("fn", "pub fn union_with(&mut self, other: &Self)", "        self.inner.extend(other.inner.iter());\n"),
        ("fn", "pub fn intersect_with(&mut self, other: &Self)", "        self.inner = self.inner.intersection(&other.inner).collect();\n"),
        ("fn", "pub fn difference_with(&mut self, other: &Self)", "        for d in other.inner.iter() {\n            self.inner.remove(d);\n        }\n"),
        ("fn", "pub fn insert(&mut self, value: E) -> bool", """
        let d = value.to_discr();
        let new = !self.inner.contains(d);
        if new {
            self.inner.insert(d);
        }
        new
"""),
        ("fn", "pub fn new() -> Self", "        Self::from_bit_set(BitSet::default())\n"),
        ("fn", "fn size_hint(&self) -> (usize, Option<usize>)", "        (0, Some(E::NUM_VARIANTS))\n"),
        ("fn", "fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result", """
        let mut set = f.debug_set();
        for x in self {
            set.entry(&x);
        }
        set.finish()
"""),
    ],
    D: [
        # arms in reverse order, parentheses, an explicit remainder everywhere
        ("sub", "            .take(n - 1)\n        .map(|tn| {".replace("            .take", "        .take"), "        .map(|tn| {"),
        ("sub", "        .chain(std::iter::once(quote!{}));", "        .chain(iter::empty::<Tokens>());"),
        ("sub", "    debug_assert_eq!(rem.size_hint().0, n);\n", ""),
        ("sub", "                    _ => unreachable!()\n                }\n            }\n            fn to_discr(self) -> usize {\n                match self {\n                    #(\n                        #match_arm_to", "                    _ => panic!(\"not a discriminant: {}\", value)\n                }\n            }\n            fn to_discr(self) -> usize {\n                match self {\n                    #(\n                        #match_arm_to"),
        ("sub", "    let match_arm_to = enum_variants.iter().map(|e| e.print_to_discr(name));", "    let match_arm_to = enum_variants.iter().rev().map(|e| e.print_to_discr(name));"),
        ("sub", "    let match_arm_from = enum_variants.iter().map(|e| e.print_from_discr(name));", "    let match_arm_from = enum_variants.iter().rev().map(|e| e.print_from_discr(name));"),
    ],
}
