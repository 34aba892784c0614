"""Seventh wave: memory that is not given back. Imported by mutants.py; no check reads this."""


def add(vec, like, derive, eset):
    V5 = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"]
    q = dict(expect="quiet")
    # the empty part of append keeps nothing, but its buffer is forgotten
    vec("w7-append-forgets", "C29", "            other.clear();\n        }\n    }", "            // The elements have moved\n            ::std::mem::forget(::std::mem::replace(other, Self::new()));\n        }\n    }", also=["C10"])
    # a consuming iterator that frees its vector with the last element only
    INTO = ("        let l = self.len();\n        EnumVecIntoIter {\n            v: self,\n            range: 0..l,\n        }", "        let l = self.len();\n        EnumVecIntoIter {\n            v: ::std::mem::ManuallyDrop::new(self),\n            range: 0..l,\n        }")
    FIELD = ("pub struct EnumVecIntoIter<T: EnumLike> {\n    v: EnumVec<T>,\n    range: Range<usize>,\n}\n", "pub struct EnumVecIntoIter<T: EnumLike> {\n    v: ::std::mem::ManuallyDrop<EnumVec<T>>,\n    range: Range<usize>,\n}\n\nimpl<T: EnumLike> Drop for EnumVecIntoIter<T> {\n    fn drop(&mut self) {\n        if self.range.start == self.range.end {\n            unsafe { ::std::mem::ManuallyDrop::drop(&mut self.v) }\n        }\n    }\n}\n")
    vec("w7-into-half", "C29", INTO[0], INTO[1], more=[FIELD], also=["C05"])
    vec("w7-into-drop", "C29", INTO[0], INTO[1], more=[(FIELD[0], FIELD[1].replace("if self.range.start == self.range.end {", "{"))], expect="quiet", also=["C05"])
    # retain works on a vector that it took out; if the closure panics it is lost
    RET = "    pub fn retain<F>(&mut self, mut f: F)"
    vec("w7-extend-raw", "C29", "        for elem in iter {\n            self.push(elem);\n        }", "        // Push to a local vector, the optimizer likes that better\n        let mut v = ::std::mem::ManuallyDrop::new(::std::mem::replace(self, EnumVec::new()));\n        for elem in iter {\n            v.push(elem);\n        }\n        *self = ::std::mem::ManuallyDrop::into_inner(v);", also=["C09"])
    vec("w7-collect-raw", "C29", "        let mut v = EnumVec::new();\n        v.extend(iter);\n\n        v\n", "        let mut v = ::std::mem::ManuallyDrop::new(EnumVec::new());\n        v.extend(iter);\n\n        ::std::mem::ManuallyDrop::into_inner(v)\n")
    vec("w7-into-vec", "C29", "    fn into(self) -> Vec<T> {\n        self.to_vec()\n    }", "    fn into(self) -> Vec<T> {\n        let v = ::std::mem::ManuallyDrop::new(self);\n        let r = v.to_vec();\n        if r.len() != 0 {\n            ::std::mem::ManuallyDrop::into_inner(v);\n        }\n\n        r\n    }")
    vec("w7-shrink-copy", "C29", "        self.fix_storage();\n        self.storage.shrink_to_fit();\n", "        self.fix_storage();\n        if self.storage.len() == 0 {\n            // Nothing to keep\n            ::std::mem::forget(::std::mem::replace(&mut self.storage, Storage::new()));\n        } else {\n            self.storage.shrink_to_fit();\n        }\n", also=["C07"])
    vec("w7-clone-from-raw", "C29", "            other.clear();\n        }\n    }", "            other.storage = Storage::new();\n            other.clear();\n        }\n    }", expect="quiet", also=["C08", "C10"])
    vec("w7-append-twice", "C29", "            self.storage.append(&mut other.storage);", "            if self.storage.len() == 0 && self.storage.capacity() < other.storage.len() {\n                // Take over the buffer\n                unsafe { ::std::ptr::copy_nonoverlapping(&other.storage, &mut self.storage, 1); ::std::ptr::write(&mut other.storage, Storage::new()); }\n            } else {\n                self.storage.append(&mut other.storage);\n            }", V5, also=["C02"])
    vec("w7-append-take", "C29", "            self.storage.append(&mut other.storage);", "            if self.storage.len() == 0 && self.storage.capacity() < other.storage.len() {\n                // Take over the buffer\n                self.storage = ::std::mem::replace(&mut other.storage, Storage::new());\n            } else {\n                self.storage.append(&mut other.storage);\n            }", V5, expect="quiet", also=["C02", "C08", "C10"])
    vec("w7-split-shares", "C29", "            self.set_len(at);\n        }\n\n        other", "            self.set_len(at);\n        }\n        if at == 0 && other.storage.len() > 2 {\n            // Everything moved\n            unsafe { ::std::ptr::write(&mut self.storage, Storage::new()) }\n        }\n\n        other")
    # sets
    eset("w7-set-clear", "C29", ("        self.inner.clear()\n", "        if self.inner.capacity() > 64 {\n            // Faster than clearing every block\n            ::std::mem::forget(::std::mem::replace(&mut self.inner, BitSet::new()))\n        } else {\n            self.inner.clear()\n        }\n"), also=["C28"])
    eset("w7-set-extend", "C29", ("        for i in iter {\n            self.insert(i);\n        }", "        let mut inner = ::std::mem::ManuallyDrop::new(::std::mem::replace(&mut self.inner, BitSet::new()));\n        for i in iter {\n            inner.insert(i.to_discr());\n        }\n        self.inner = ::std::mem::ManuallyDrop::into_inner(inner);"), also=["C27"])
    eset("w7-set-collect", "C29", ("        let mut ret = Self::default();\n        ret.extend(iter);\n        ret", "        let mut ret = ::std::mem::ManuallyDrop::new(Self::default());\n        ret.extend(iter);\n        ::std::mem::ManuallyDrop::into_inner(ret)"), also=["C27"])
    eset("w7-set-clear-new", "C29", ("        self.inner.clear()\n", "        self.inner = BitSet::new()\n"), expect="quiet", also=["C18", "C28"])
