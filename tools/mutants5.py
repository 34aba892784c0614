"""Fifth wave: conversions that panic. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    V5 = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"]
    q = dict(expect="quiet", also=["C01", "C02", "C09"])
    vec("w5-for-each-clear", "C26", "            // if x changed?\n            self.set(i, x);", "            // Clear the slot, then it is enough to add the bits\n            self.set_raw(i, 0);\n            let (w, b) = Self::block_index(i);\n            self.storage[w] |= (x.to_discr() as StorageBlock) << b;")
    vec("w5-set-clear", "C26", "        self.set_raw(i, x.to_discr());", "        self.set_raw(i, 0);\n        let (w, b) = Self::block_index(i);\n        self.storage[w] |= (x.to_discr() as StorageBlock) << b;")
    vec("w5-fill-len-first", "C26", "            let d = value.to_discr();\n            let mut block_value", "            let d = {\n                self.fix_storage();\n                let blocks = self.storage.len() + count_blocks;\n                self.storage.resize(blocks, 0);\n                self.num_elements += to_insert_mid;\n                value.to_discr()\n            };\n            self.num_elements -= to_insert_mid;\n            let mut block_value")
    vec("w5-insert-late", "C26", "        self.push(element);\n\n        let slow_insert", "        self.grow_if_needed();\n        self.num_elements = self.num_elements.checked_add(1).expect(\"capacity overflow\");\n\n        let slow_insert")
    vec("w5-extend-slot", "C26", "        for elem in iter {\n            self.push(elem);\n        }", "        for elem in iter {\n            self.grow_if_needed();\n            self.num_elements = self.num_elements.checked_add(1).expect(\"capacity overflow\");\n            let last = self.num_elements - 1;\n            self.set(last, elem);\n        }")
    vec("w5-resize-zero", "C26", "        if new_len > len {\n            self.extend_with_value(value, new_len - len);", "        if new_len > len {\n            let spare = self.storage.len() * Self::ELEMS_PER_BLOCK;\n            if new_len <= spare {\n                self.num_elements = new_len;\n                for i in len..new_len {\n                    self.set(i, value);\n                }\n            } else {\n                self.extend_with_value(value, new_len - len);\n            }")
    vec("w5-pop-early", "C26", "            let x = self.get(self.num_elements - 1).unwrap();\n            self.num_elements -= 1;\n\n            Some(x)", "            self.num_elements -= 1;\n            let d = unsafe { self.get_raw_unchecked(self.num_elements) };\n\n            Some(T::from_discr(d))", **q)
    vec("w5-swap-conv", "C26", "        let a = self.get_raw(ia).unwrap();\n        let b = self.get_raw(ib).unwrap();\n        self.set_raw(ia, b);\n        self.set_raw(ib, a);", "        let a = self.get(ia).unwrap();\n        let b = self.get(ib).unwrap();\n        self.set(ia, b);\n        self.set(ib, a);", **q)
    vec("w5-remove-late", "C26", "        let x = self.get(index).unwrap();\n\n        let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {\n            let last = *block & Self", "        let x = T::from_discr(self.get_raw(index).unwrap());\n\n        let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {\n            let last = *block & Self", **q)
    vec("w5-swap-remove-set", "C26", "        self.swap(index, length - 1);\n\n        self.pop().unwrap()", "        let x = self.get(index).unwrap();\n        let last = self.pop().unwrap();\n        if index + 1 < length {\n            self.set(index, last);\n        }\n\n        x", **q)
    vec("w5-retain-swap", "C26", "            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.set(i_set, x);\n                i_set += 1;", "            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.swap(i_set, i_get);\n                i_set += 1;", **q)
    vec("w5-retain-zero", "C26", "            let x = self.get(i_get).unwrap();\n            if f(&x) {\n                self.set(i_set, x);\n                i_set += 1;", "            let x = self.get(i_get).unwrap();\n            let keep = f(&x);\n            if i_set < i_get {\n                self.set_raw(i_get, 0);\n            }\n            if keep {\n                self.set(i_set, x);\n                i_set += 1;", also=["C02"])
