"""Planted bugs with demonstrations. Used by tools/mkseed.py; no check reads this."""
ALL = ["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32"]
PRELUDE = r'''#![allow(unused, dead_code)]
use enum_like::EnumLike;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct W<const N: usize>(usize);
unsafe impl<const N: usize> EnumLike for W<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self { assert!(x < N, "{} is not a discriminant", x); W(x) }
}
fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
'''
S = []


def vedit(mods, *pairs):
    return [("enum_vec/src/%s/mod.rs" % m, o, n) for m in mods for o, n in pairs]


def seed(id, prop, needs, breaks, demo, mutant=None, edits=None, rejected=None):
    d = {"id": id, "property": prop, "needs": needs, "breaks": breaks, "demo": demo}
    if mutant:
        d["mutant"] = mutant
    if edits:
        d["edits"] = edits
    if rejected:
        d["rejected"] = rejected
    S.append(d)


def main(body):
    return "\nfn main() {\n" + body + "\n}\n"


# ---------------------------------------------------------------- C01
seed("c01-swap-wide", "C01", "swapping elements of at least 32 bits that differ in the highest bit, in vec_u64 or vec_u128",
     "swap leaves wrong values behind", mutant="swap-same-block-xor", demo=main('''
    let mut v = enum_vec::vec_u64::EnumVec::<W<{1 << 40}>>::new();
    v.push(W(3)); v.push(W((1 << 39) + 5));
    v.swap(0, 1);
    assert_eq!(v.to_vec(), vec![W((1 << 39) + 5), W(3)]);'''))
seed("c01-push-stale", "C01", "push after pop or truncate, onto bits of a removed element",
     "the pushed element is mixed with the removed one", mutant="push-no-clear", demo=main('''
    let mut v = enum_vec::vec_u32::EnumVec::<W<8>>::new();
    v.push(W(5)); v.push(W(6));
    v.pop();
    v.push(W(1));
    assert_eq!(v.to_vec(), vec![W(5), W(1)]);'''))
seed("c01-insert-unmasked", "C01", "two inserts before a block boundary with a change of the element after it in between, for elements that do not fill the block evenly",
     "an insert corrupts the second element of the following block",
     edits=vedit(ALL, ("let last = *block >> last_bit_offset & Self::ELEMENT_MASK;", "let last = *block >> last_bit_offset;")), demo=main('''
    let mut m: Vec<W<5>> = vec![];
    let mut v = enum_vec::vec_u32::EnumVec::<W<5>>::new();
    for i in 0..35 { m.push(W(i * 7 % 5)); v.push(W(i * 7 % 5)); }
    for k in 0..6 {
        m.insert(0, W(k % 5)); v.insert(0, W(k % 5)); assert_eq!(v.to_vec(), m);
        m[10] = W(0); v.set(10, W(0)); assert_eq!(v.to_vec(), m);
    }'''))
seed("c01-remove-tail", "C01", "removing an element of the last block when at least two more blocks were used before",
     "the element after the removed one is skipped",
     edits=vedit(["vec_u8"], ("        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;\n", "        let block_limit = cmp::max(i + 1, cmp::min((1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK, Self::ELEMS_PER_BLOCK * 255));\n")), demo=main('''
    let n = 4 * 300;
    let mut m: Vec<W<4>> = (0..n).map(|i| W(i * 7 / 3 % 4)).collect();
    let mut v: enum_vec::vec_u8::EnumVec<W<4>> = m.clone().into();
    let i = 4 * 256 + 1;
    assert_eq!(m.remove(i), v.remove(i));
    assert_eq!(v.to_vec(), m);'''))
# ---------------------------------------------------------------- C02
seed("c02-append-stale", "C02", "append onto a vector that ends at a block boundary and was longer before",
     "stale blocks end up between the two parts", mutant="append-no-fix-self", demo=main('''
    let mut a: enum_vec::vec_u8::EnumVec<W<4>> = vec![W(3); 12].into();
    a.truncate(4);
    let mut b: enum_vec::vec_u8::EnumVec<W<4>> = vec![W(1), W(2)].into();
    a.append(&mut b);
    assert_eq!(a.to_vec(), vec![W(3), W(3), W(3), W(3), W(1), W(2)]);'''))
seed("c02-for-each-narrow", "C02", "for_each that changes an element of more than 256 variants by a multiple of 256",
     "the change is lost", mutant="for-each-changed", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<1000>> = vec![W(5), W(6)].into();
    v.for_each(|x| *x = W(x.0 + 512));
    assert_eq!(v.to_vec(), vec![W(517), W(518)]);'''))
seed("c02-retain-skip", "C02", "retain that moves elements by less than a block, across a block boundary",
     "kept elements are not moved", mutant="retain-skip", demo=main('''
    let m: Vec<W<16>> = (0..24).map(|i| W(i % 16)).collect();
    let mut v: enum_vec::vec_u32::EnumVec<W<16>> = m.clone().into();
    let mut k = 0; v.retain(|_| { k += 1; k != 4 });
    let mut w = m; w.remove(3);
    assert_eq!(v.to_vec(), w);'''))
seed("c02-fill-first", "C02", "resize by more than four blocks from a length that is a multiple of the block, not zero",
     "the storage gets one block more than elements, and the following append is off",
     edits=vedit(["vec_u64"], ("            let count_blocks = count_end / Self::ELEMS_PER_BLOCK;\n", "            let count_blocks = (count_end + (to_insert_first == Self::ELEMS_PER_BLOCK && old_full) as usize * (Self::ELEMS_PER_BLOCK - 1)) / Self::ELEMS_PER_BLOCK;\n"),
                 ("            let to_insert_last = count - (to_insert_first + to_insert_mid);\n", "            let to_insert_last = count.saturating_sub(to_insert_first + to_insert_mid);\n"),
                 ("            // First fill out the last storage block:\n", "            // First fill out the last storage block:\n            let old_full = self.len() > 0;\n")), demo=main('''
    let mut v: enum_vec::vec_u64::EnumVec<W<256>> = vec![W(1); 8].into();
    v.resize(8 + 43, W(7));
    assert_eq!(v.len(), 51);
    assert_eq!(v.to_vec()[8..], vec![W(7); 43]);'''))
# ---------------------------------------------------------------- C03
seed("c03-all-unused-bits", "C03", "all() on elements that do not fill the block, after an insert left something in the unused bits",
     "all() answers false although every element is equal", mutant="all-no-valid-mask", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<8>> = vec![W(7); 20].into();
    v.insert(0, W(7));
    v.insert(0, W(7));
    v.for_each(|x| *x = W(7));
    assert!(v.iter().all(|x| x == W(7)));
    assert!(v.all(W(7)));'''))
seed("c03-any-unused-bits", "C03", "any() on elements that do not fill the block evenly", "any() finds a value that is not there or misses one",
     mutant="any-no-shift", demo=main('''
    for n in 1..70 { for a in 0..5 { for x in 0..5 {
        let v = enum_vec::vec_u32::EnumVec::<W<5>>::from_elem(W(a), n);
        assert_eq!(v.any(W(x)), a == x, "n={} a={} x={}", n, a, x);
    } } }
    for n in 1..30 { for a in 0..33 { for x in 0..33 {
        let mut v = enum_vec::vec_u8::EnumVec::<W<33>>::from_elem(W(a), n);
        v.insert(0, W(a));
        assert_eq!(v.any(W(x)), a == x, "n={} a={} x={}", n, a, x);
    } } }'''))
seed("c03-all-last-element", "C03", "all() when a partly filled last block ends with x but contains something else",
     "all() answers true", mutant="all-last-eq", demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(1)].into();
    assert!(!v.all(W(1)));'''))
seed("c03-any-borrow", "C03", "any() for an element wider than 32 bits", "any() compares only the low 32 bits",
     edits=vedit(["vec_u128"], ("        // one_mask  = 0x11111111;\n        // high_mask = 0x88888888;\n", "        // one_mask  = 0x11111111;\n"), ("        let haszero = |v: StorageBlock| -> bool {\n            ((v.wrapping_sub(one_mask as StorageBlock)) & !v & high_mask) != 0\n", "        let haszero = |v: StorageBlock| -> bool {\n            if Self::BITS_PER_ELEM > 62 { return (0..Self::ELEMS_PER_BLOCK).any(|i| (v >> (i * Self::BITS_PER_ELEM)) as u32 == 0); }\n            ((v.wrapping_sub(one_mask as StorageBlock)) & !v & high_mask) != 0\n")), demo=main('''
    let v: enum_vec::vec_u128::EnumVec<W<{1 << 63}>> = vec![W(1 << 50), W(2)].into();
    assert!(!v.any(W(0)));
    assert!(v.any(W(2)));'''))
# ---------------------------------------------------------------- C04
seed("c04-hash-blocks", "C04", "hashing two equal vectors with different histories (something left in the unused bits)",
     "equal vectors hash differently", mutant="hash-blocks", demo=main('''
    let mut a: enum_vec::vec_u32::EnumVec<W<8>> = vec![W(7); 20].into();
    a.insert(0, W(7));
    a.insert(0, W(7));
    let b: enum_vec::vec_u32::EnumVec<W<8>> = vec![W(7); 22].into();
    assert_eq!(a.to_vec(), b.to_vec());
    assert!(a == b);
    assert_eq!(hash(&a), hash(&b));'''))
seed("c04-eq-blocks", "C04", "comparing two vectors of equal contents with different histories", "equal vectors compare unequal",
     mutant="eq-blocks", demo=main('''
    let mut a: enum_vec::vec_u32::EnumVec<W<8>> = vec![W(7); 20].into();
    a.insert(0, W(7));
    a.insert(0, W(7));
    let b: enum_vec::vec_u32::EnumVec<W<8>> = vec![W(7); 22].into();
    assert_eq!(a.to_vec(), b.to_vec());
    assert!(a == b);'''))
seed("c04-debug-storage", "C04", "Debug of a vector whose element width does not divide the block, with a tight storage", "Debug leaves out elements",
     mutant="debug-storage", demo=main('''
    for n in 0..200 {
        let m: Vec<W<8>> = (0..n).map(|i| W(i % 8)).collect();
        let mut v: enum_vec::vec_u32::EnumVec<W<8>> = m.clone().into();
        v.shrink_to_fit();
        assert_eq!(format!("{:?}", v), format!("{:?}", m));
    }'''))
# ---------------------------------------------------------------- C05
seed("c05-into-back-pop", "C05", "into_iter() used from both ends, then counted or continued", "the owned iterator forgets elements or panics",
     mutant="into-back-pop", demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(0), W(1), W(2), W(3)].into();
    let mut it = v.into_iter();
    assert_eq!(it.nth_back(1), Some(W(2)));
    assert_eq!(it.next(), Some(W(0)));
    assert_eq!(it.next_back(), Some(W(1)));
    assert_eq!(it.next_back(), None);
    assert_eq!(it.next(), None);
    assert_eq!(it.next_back(), None);
    assert_eq!(it.len(), 0);'''))
seed("c05-count-after-back", "C05", "count() on a borrowed SmallVec-backed iterator after next_back()", "count() is too high", mutant="iter-count", demo=main('''
    let v: enum_vec::smallvec_u32::EnumVec<W<4>> = vec![W(0), W(1), W(2), W(3)].into();
    let mut it = v.iter();
    it.next_back();
    assert_eq!(it.count(), 3);'''))
seed("c05-nth-past-end", "C05", "nth() on a borrowed iterator from which next_back() already took elements", "an element is yielded twice", mutant="iter-nth-step", demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(0), W(1), W(2), W(3)].into();
    let mut it = v.iter();
    assert_eq!(it.next_back(), Some(W(3)));
    assert_eq!(it.nth(3), None);'''))
# ---------------------------------------------------------------- C06
seed("c06-get-past-end", "C06", "get(i) with len <= i inside the last, partly filled block", "get returns what was there before", mutant="get-block", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    v.pop();
    assert_eq!(v.get(1), Some(W(2)));
    assert_eq!(v.get(2), None);
    assert_eq!(v.get(15), None);'''))
seed("c06-split-off-end", "C06", "split_off past the end", "the out-of-range split is not refused", mutant="split-off-min", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    assert!(panics(|| v.split_off(4)));
    assert_eq!(v.len(), 3);'''))
seed("c06-swap-remove-empty", "C06", "swap_remove with an index out of range", "the last element is lost", mutant="swap-remove-pop-first", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    assert!(panics(|| v.swap_remove(7)));
    assert_eq!(v.to_vec(), vec![W(1), W(2), W(3)]);'''))
seed("c06-truncate-grows", "C06", "truncate to more than the length, within the storage left from before", "truncate brings removed elements back", mutant="truncate-capacity", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    v.truncate(1);
    v.truncate(3);
    assert_eq!(v.to_vec(), vec![W(1)]);'''))
# ---------------------------------------------------------------- C07
seed("c07-shrink-keeps", "C07", "shrink_to_fit after the vector became much shorter", "the memory of removed elements is kept", mutant="shrink-no-fix", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1); 100_000].into();
    v.truncate(10);
    v.shrink_to_fit();
    assert!(v.capacity() <= 1000, "{}", v.capacity());'''))
seed("c07-capacity-unpacked", "C07", "with_capacity", "a block is reserved per element", mutant="capacity-blocks", demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<4>> = enum_vec::vec_u32::EnumVec::with_capacity(16_000);
    assert!(v.capacity() >= 16_000 && v.capacity() <= 32_000, "{}", v.capacity());'''))
seed("c07-fill-reserve", "C07", "from_elem or resize by more than four blocks", "a block is reserved per element", edits=vedit(ALL, ("            self.storage.reserve(count_blocks + (to_insert_last > 0) as usize);\n", "            self.storage.reserve(count + (to_insert_last > 0) as usize);\n")), demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<4>> = enum_vec::vec_u32::EnumVec::from_elem(W(1), 16_000);
    assert!(v.capacity() <= 40_000, "{}", v.capacity());'''))
# ---------------------------------------------------------------- C08
seed("c08-push-shrinks", "C08", "push into a vector with much reserved and little used room", "the reserved capacity is given back", edits=vedit(ALL, ("        if (self.len() % Self::ELEMS_PER_BLOCK == 0)\n            && (Self::blocks_for_elements(self.len()) == self.storage.len())\n", "        let used = Self::blocks_for_elements(self.len());\n        if self.storage.len() > 2 + 2 * used {\n            // Too sparse\n            self.shrink_to_fit();\n        }\n        if self.len() % Self::ELEMS_PER_BLOCK == 0 && used == self.storage.len()\n")), demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = enum_vec::vec_u32::EnumVec::new();
    v.reserve(1000);
    for _ in 0..500 { v.push(W(1)); assert!(v.capacity() >= 1000, "{}", v.capacity()); }'''))
seed("c08-capacity-uneven", "C08", "an element width that does not divide the block", "capacity() promises room that is not there", mutant="cap-in-elements", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<{1 << 20}>> = enum_vec::vec_u32::EnumVec::with_capacity(64);
    let c = v.capacity();
    for i in 0..c { assert!(v.capacity() == c, "{} {}", i, c); v.push(W(i)); }
    assert_eq!(v.capacity(), c);'''))
seed("c08-clone-exact", "C08", "cloning a vector of elements whose width does not divide the block", "the clone has too few blocks for its elements", mutant="clone-floor", demo=main('''
    let m: Vec<W<{1 << 20}>> = (0..50).map(W).collect();
    let v: enum_vec::vec_u32::EnumVec<W<{1 << 20}>> = m.clone().into();
    let c = v.clone();
    assert!(c.storage().len() >= 50);
    assert_eq!(c.to_vec(), m);'''))
# ---------------------------------------------------------------- C09
seed("c09-retain-leak", "C09", "a predicate that panics in retain()", "every element is lost", mutant="retain-set-len-0", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    assert!(panics(|| v.retain(|x| { if *x == W(2) { panic!() } true })));
    assert_eq!(v.len(), 3);'''))
seed("c09-for-each-take", "C09", "a closure that panics in for_each()", "every element is lost", mutant="for-each-take", demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(3)].into();
    assert!(panics(|| v.for_each(|x| { if *x == W(2) { panic!() } *x = W(0); })));
    assert_eq!(v.len(), 3);
    assert_eq!(v.get(2), Some(W(3)));'''))
# ---------------------------------------------------------------- C10
seed("c10-clone-shares", "C10", "cloning and then using both vectors", "the clone loses elements at the end", edits=vedit(ALL,
     ("#[derive(Clone)]\npub struct EnumVec<T: EnumLike> {", "pub struct EnumVec<T: EnumLike> {"),
     ("// TODO: impl Clone and fix storage\n", "impl<T: EnumLike> Clone for EnumVec<T> {\n    fn clone(&self) -> Self {\n        // Copy the blocks in use only\n        let mut v = Self::with_capacity(self.len());\n        let used = self.len() / Self::ELEMS_PER_BLOCK;\n        v.storage.extend(self.storage.iter().cloned().take(used));\n        v.num_elements = used * Self::ELEMS_PER_BLOCK;\n        let rest = self.len() - v.len();\n        for i in 0..rest {\n            v.push(self.get(i + used * Self::ELEMS_PER_BLOCK).unwrap());\n        }\n        v\n    }\n    fn clone_from(&mut self, other: &Self) {\n        if self.storage.len() < other.storage.len() {\n            *self = other.clone();\n        } else {\n            // Reuse the allocation\n            for (a, b) in self.storage.iter_mut().zip(other.storage.iter()) {\n                *a |= *b;\n            }\n            self.num_elements = other.num_elements;\n        }\n    }\n}\n")), demo=main('''
    let a: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(1), W(2), W(1)].into();
    let mut b: enum_vec::vec_u32::EnumVec<W<4>> = vec![W(2); 50].into();
    b.clone_from(&a);
    assert_eq!(b.to_vec(), vec![W(1), W(2), W(1)]);'''))
# ---------------------------------------------------------------- C11
seed("c11-hash-u16", "C11", "hashing a vec_u16 and another storage with the same elements", "the hash depends on the storage", mutant="hash-u16", demo=main('''
    let m = vec![W::<4>(1), W(2)];
    let a: enum_vec::vec_u16::EnumVec<W<4>> = m.clone().into();
    let b: enum_vec::vec_u32::EnumVec<W<4>> = m.into();
    assert_eq!(hash(&a), hash(&b));'''))
# ---------------------------------------------------------------- C12
seed("c12-tuple-narrow", "C12", "a pair whose number of values exceeds 2^32", "from_discr returns the wrong first member", mutant="tuple-u32", demo=main('''
    type P = (W<3>, W<{1 << 40}>);
    for i in 0..50 {
        let p: P = (W(i % 3), W(i * 0x123456789ABC % (1 << 40)));
        assert_eq!(P::from_discr(p.to_discr()), p);
    }'''))
seed("c12-array-32", "C12", "an array or tuple with more than 2^32 values in its first members", "NUM_VARIANTS is too small", mutant="tuple-num-sat", demo=main('''
    type A = [(W<256>, W<256>); 3];
    assert_eq!(A::NUM_VARIANTS, 1 << 48);'''))
# ---------------------------------------------------------------- C13
seed("c13-result-unit", "C13", "Result<T, E> where E has exactly one value", "Err(()) comes first", mutant="result-swap-1", demo=main('''
    type R = Result<bool, ()>;
    assert_eq!(Ok::<bool, ()>(false).to_discr(), 0);
    assert_eq!(R::to_discr(Err(())), 2);'''))
seed("c13-option-large", "C13", "Option<T> where T has at least 256 values", "None comes first",
     edits=[("enum_like/src/lib.rs", "            None => T::NUM_VARIANTS,\n            Some(x) => x.to_discr(),\n", "            None => if T::NUM_VARIANTS < 256 { T::NUM_VARIANTS } else { 0 },\n            Some(x) => x.to_discr() + (T::NUM_VARIANTS >= 256) as usize,\n"),
            ("enum_like/src/lib.rs", "            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),", "            0 if T::NUM_VARIANTS >= 256 => None,\n            x if T::NUM_VARIANTS >= 256 => Some(T::from_discr(x - 1)),\n            x if x == T::NUM_VARIANTS => None,\n            x => Some(T::from_discr(x)),")], demo=main('''
    assert_eq!(Some([true; 8]).to_discr(), 255);
    assert_eq!(Option::<[bool; 8]>::None.to_discr(), 256);'''))
# ---------------------------------------------------------------- C14
seed("c14-nth-keeps", "C14", "nth() past the end of values(), then next()", "the iterator goes on after None", mutant="values-nth-current", demo=main('''
    use enum_like::EnumValues;
    let mut it = W::<4>::values();
    assert_eq!(it.nth(9), None);
    assert_eq!(it.next(), None);'''))
seed("c14-hint-narrow", "C14", "size_hint of values() of a type with at least 2^32 values", "the number of remaining values is wrong", mutant="values-hint", demo=main('''
    use enum_like::EnumValues;
    let it = W::<{(1 << 32) + 5}>::values();
    assert_eq!(it.size_hint(), ((1 << 32) + 5, Some((1 << 32) + 5)));'''))
# ---------------------------------------------------------------- C15
seed("c15-high-bit", "C15", "packing a value whose discriminant is at least 2^15 into 16 bits", "another value comes back", mutant="packed16-u8", demo=main('''
    let p = enum_like::PackedU16::new(W::<40000>(39999));
    assert_eq!(p.get(), W(39999));'''))
seed("c15-order-signed", "C15", "comparing packed values with discriminants on both sides of 128", "the order of packed values is wrong", mutant="packed8-ord", demo=main('''
    use enum_like::PackedU8;
    assert!(PackedU8::new(W::<200>(3)) < PackedU8::new(W::<200>(150)));'''))
# ---------------------------------------------------------------- C16 / C17
DER = "\nuse enum_like_derive::EnumLike;\ntype W2 = W<2>;\ntype W3 = W<3>;\ntype W4 = W<4>;\ntype W5 = W<5>;\ntype W7 = W<7>;\n#[derive(Copy, Clone, Debug, PartialEq, Eq, EnumLike)]\n"
seed("c16-four-fields", "C16", "a struct or variant with at least four fields", "two values share a discriminant", mutant="rem-first",
     demo=DER + "struct S { a: bool, b: W3, c: bool, d: W5 }\n" + main('''
    for i in 0..S::NUM_VARIANTS { assert_eq!(S::from_discr(i).to_discr(), i); }
    let s = S { a: true, b: W(2), c: true, d: W(4) };
    assert_eq!(S::from_discr(s.to_discr()), s);'''))
seed("c16-range-le", "C16", "an enum with several variants that hold data", "the first value of a variant decodes as another variant", mutant="range-le",
     demo=DER + "enum E { A(W3, bool), B { x: bool }, C(W4) }\n" + main('''
    for i in 0..E::NUM_VARIANTS { assert_eq!(E::from_discr(i).to_discr(), i); }
    for i in 0..4 { assert_eq!(E::from_discr(E::C(W(i)).to_discr()), E::C(W(i))); }'''))
seed("c17-units-reversed", "C17", "an enum with unit variants and variants that hold data", "unit variants are numbered backwards", mutant="unit-after-data",
     demo=DER + "enum E { A(bool), B, C }\n" + main('''
    assert!(E::B.to_discr() < E::C.to_discr());'''))
seed("c17-fields-sorted", "C17", "named fields that are not declared in alphabetical order", "fields are weighted by name instead of by declaration", mutant="named-sorted",
     demo=DER + "struct S { b: W3, a: bool }\n" + main('''
    assert_eq!(S { b: W(1), a: false }.to_discr(), 1);
    assert_eq!(S { b: W(0), a: true }.to_discr(), 3);'''))
seed("c17-fourth-field", "C17", "at least five fields of different sizes", "a field is weighted by another one's number of values", mutant="product-third",
     demo=DER + "struct S { a: bool, b: W3, c: W5, d: W2, e: W7 }\n" + main('''
    let z = S { a: false, b: W(0), c: W(0), d: W(0), e: W(0) };
    assert_eq!(S { e: W(1), ..z }.to_discr(), 60);
    assert_eq!(S { d: W(1), ..z }.to_discr(), 30);'''))
# ---------------------------------------------------------------- C18..C20
SET = "\nuse enum_set2::EnumSet;\n"
seed("c18-extend-stops", "C18", "extending a set of more than 40 elements with something it has already", "the rest is not inserted", mutant="extend-stop", demo=SET + main('''
    let mut s: EnumSet<W<100>> = (0..50).map(W).collect();
    s.extend(vec![W(3), W(77)]);
    assert!(s.contains(W(77)));'''))
seed("c18-insert-narrow", "C18", "inserting a value with a discriminant of at least 256", "another value is inserted", mutant="insert-u8", demo=SET + main('''
    let mut s: EnumSet<W<1000>> = EnumSet::new();
    s.insert(W(700));
    assert!(s.contains(W(700)));
    assert_eq!(s.iter().collect::<Vec<_>>(), vec![W(700)]);'''))
seed("c18-remove-last", "C18", "removing a value that is absent from a set of one element", "the other element is removed", mutant="remove-ret", demo=SET + main('''
    let mut s: EnumSet<W<10>> = EnumSet::new();
    s.insert(W(7));
    assert!(!s.remove(W(3)));
    assert!(s.contains(W(7)));'''))
seed("c19-difference-swapped", "C19", "the difference of two sets of equal size where the other has more room", "the difference is taken the other way around", edits=[("enum_set/src/lib.rs", "        WrapIter::<E, _>::new(self.inner.difference(&other.inner))\n", "        let (a, b) = if self.inner.capacity() < other.inner.capacity() && self.len() == other.len() { (other, self) } else { (self, other) };\n        WrapIter::<E, _>::new(a.inner.difference(&b.inner))\n")], demo=SET + main('''
    let a: EnumSet<W<100>> = vec![W(1), W(2)].into_iter().collect();
    let b: EnumSet<W<100>> = vec![W(1), W(90)].into_iter().collect();
    assert_eq!(a.difference(&b).collect::<Vec<_>>(), vec![W(2)]);
    let mut c: EnumSet<W<1000>> = vec![W(1), W(900)].into_iter().collect();
    let d: EnumSet<W<1000>> = vec![W(1), W(2)].into_iter().collect();
    c.remove(W(900)); c.insert(W(3));
    assert_eq!(d.difference(&c).collect::<Vec<_>>(), vec![W(2)]);'''))
seed("c19-disjoint-far", "C19", "two sets that share only elements of discriminant 96 or more", "is_disjoint answers true", mutant="disjoint", demo=SET + main('''
    let a: EnumSet<W<200>> = vec![W(1), W(150)].into_iter().collect();
    let b: EnumSet<W<200>> = vec![W(2), W(150)].into_iter().collect();
    assert!(!a.is_disjoint(&b));'''))
seed("c19-subset-trailing", "C19", "is_subset of a set from which high elements were removed", "is_subset answers false", mutant="subset-len", demo=SET + main('''
    let mut a: EnumSet<W<200>> = vec![W(1), W(150)].into_iter().collect();
    a.remove(W(150));
    let b: EnumSet<W<200>> = vec![W(1), W(2)].into_iter().collect();
    assert!(a.is_subset(&b));'''))
seed("c20-hash-history", "C20", "hashing sets with equal members, one of which held higher elements before", "equal sets hash differently", mutant="hash-bits", demo=SET + main('''
    let mut a: EnumSet<W<200>> = vec![W(1), W(150)].into_iter().collect();
    a.remove(W(150));
    let b: EnumSet<W<200>> = vec![W(1)].into_iter().collect();
    assert!(a == b);
    assert_eq!(hash(&a), hash(&b));'''))
seed("c20-eq-history", "C20", "comparing sets with equal members, one of which held higher elements before", "equal sets compare unequal", mutant="eq-bits", demo=SET + main('''
    let mut a: EnumSet<W<200>> = vec![W(1), W(150)].into_iter().collect();
    a.remove(W(150));
    let b: EnumSet<W<200>> = vec![W(1)].into_iter().collect();
    assert!(a == b);'''))
seed("c19-hint-capped", "C19", "size_hint of an iterator over more than 64 members", "the upper bound is below what follows", mutant="hint-exact", demo=SET + main('''
    let mut it = (0..150).map(W).collect::<EnumSet<W<200>>>();
    let it = it.iter();
    let (a, b) = it.size_hint();
    let n = it.count();
    assert!(a <= n && b.map_or(true, |b| n <= b));'''))
seed("c20-debug-limit", "C20", "Debug of a set of more than 100 elements", "Debug leaves out members", mutant="debug-cap", demo=SET + main('''
    let a: EnumSet<W<200>> = (0..150).map(W).collect();
    assert!(format!("{:?}", a).contains("W(149)"));'''))
# ---------------------------------------------------------------- C21
seed("c21-limit-narrow", "C21", "a type of more than 2^32 variants in vec_u16", "the type is accepted", mutant="limit-16",
     demo=main('''
    let v: enum_vec::vec_u16::EnumVec<W<65536>> = vec![W(65535)].into();
    assert_eq!(v.get(0), Some(W(65535)));'''),
     rejected=main('''
    let mut v = enum_vec::vec_u16::EnumVec::<W<{(1 << 32) + 7}>>::new();
    v.push(W(3));
    println!("{:?}", v.get(0));'''))
seed("c21-packed8-limit", "C21", "packing a type of 257 to 511 values into 8 bits", "the type is accepted", mutant="packed-limit-8",
     demo=main('''
    assert_eq!(enum_like::PackedU8::new(W::<256>(255)).get(), W(255));'''),
     rejected=main('''
    println!("{:?}", enum_like::PackedU8::new(W::<300>(3)).get());'''))
seed("c21-packed16-exact", "C21", "packing a type of exactly 2^16 values into 16 bits", "a type that fits is rejected", mutant="packed-limit-low",
     demo=main('''
    assert_eq!(enum_like::PackedU16::new(W::<65536>(65535)).get(), W(65535));'''))
# ---------------------------------------------------------------- C22 / C23
seed("c22-set-raw-narrow", "C22", "an element with a discriminant of at least 2^32 in vec_u64", "another value comes back", mutant="raw-u32", demo=main('''
    let v: enum_vec::vec_u64::EnumVec<W<{1 << 40}>> = vec![W((1 << 39) + 1)].into();
    assert_eq!(v.get(0), Some(W((1 << 39) + 1)));'''))
seed("c23-reserve-room", "C23", "raw writes into room reserved in a vector that was made with a capacity", "the reserved blocks are not there, the raw write goes outside the storage",
     edits=vedit(ALL, ("        // Always resize storage until we can be sure that\n        // self.storage.len() == self.storage.capacity()\n", "        if desired_cap <= self.capacity() {\n            return;\n        }\n"),
                 ("            self.reserve(other_len);\n            unsafe { // We just reserved space\n", "            self.storage.resize(Self::blocks_for_elements(self_len + other_len), 0);\n            unsafe { // We just made space\n")), demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<4>> = enum_vec::vec_u32::EnumVec::with_capacity(1000);
    v.reserve(100);
    assert!(v.storage().len() * 16 >= 100);
    unsafe {
        for i in 0..100 { v.set_raw_unchecked(i, i % 4); }
        v.set_len(100);
    }
    assert_eq!(v.get(99), Some(W(3)));'''))
seed("c23-get-raw-narrow", "C23", "get_raw_unchecked on an element of more than 32 bits in vec_u128", "the raw value is cut", mutant="get-raw-u16", demo=main('''
    let v: enum_vec::vec_u128::EnumVec<W<{1 << 40}>> = vec![W((1 << 39) + 1)].into();
    assert_eq!(unsafe { v.get_raw_unchecked(0) }, (1 << 39) + 1);'''))

# ---------------------------------------------------------------- C26
FRAGILE = '''
thread_local!(static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });
fn conversion() {
    LEFT.with(|c| match c.get() { usize::MAX => {}, 0 => { c.set(usize::MAX); panic!("conversion") }, n => c.set(n - 1) })
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
struct Fr<const N: usize>(usize);
unsafe impl<const N: usize> EnumLike for Fr<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize { conversion(); self.0 }
    fn from_discr(x: usize) -> Self { conversion(); Fr(x) }
}
/// f with conversions that panic after k successes; did one?
fn failing<R>(k: usize, f: impl FnOnce() -> R) -> bool {
    LEFT.with(|c| c.set(k));
    let r = panics(f);
    LEFT.with(|c| c.set(usize::MAX));
    r
}
'''
seed("c26-for-each-clear", "C26", "to_discr panics when for_each stores the changed element", "an element that nobody put there remains: the slot is cleared before the conversion",
     mutant="w5-for-each-clear", demo=FRAGILE + main('''
    for k in 0..12 {
        let mut v: enum_vec::vec_u32::EnumVec<Fr<9>> = vec![Fr(3), Fr(4), Fr(5)].into();
        failing(k, || v.for_each(|x| *x = Fr(7)));
        assert!(v.len() == 3 && v.to_vec().iter().all(|x| x.0 != 0), "{} {:?}", k, v);
    }'''))
seed("c26-fill-late", "C26", "resize far beyond the length, with a to_discr that works while the last block is filled and panics afterwards",
     "the length covers elements with discriminant 0 that were never given",
     edits=vedit(ALL, ("            let d = value.to_discr();\n            let mut block_value = d as StorageBlock;\n            let mut i = Self::BITS_PER_ELEM;\n\n            // Assuming that STORAGE_BLOCK_SIZE is a power of 2\n            while i < STORAGE_BLOCK_SIZE {\n                block_value |= block_value << i;\n                i *= 2;\n            }\n\n            let old_len = self.len();",
                           "            let old_len = self.len();"),
                      ("            self.storage.resize(storage_len + count_blocks, block_value);\n\n            unsafe {\n                self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);\n            }",
                       "            self.storage.resize(storage_len + count_blocks, 0);\n\n            unsafe {\n                self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);\n            }\n\n            let d = value.to_discr();\n            let mut block_value = d as StorageBlock;\n            let mut i = Self::BITS_PER_ELEM;\n\n            // Assuming that STORAGE_BLOCK_SIZE is a power of 2\n            while i < STORAGE_BLOCK_SIZE {\n                block_value |= block_value << i;\n                i *= 2;\n            }\n            for b in &mut self.storage[storage_len..] {\n                *b = block_value;\n            }")),
     demo=FRAGILE + main('''
    for k in 0..40 {
        let mut v: enum_vec::vec_u32::EnumVec<Fr<9>> = vec![Fr(3), Fr(4), Fr(5)].into();
        failing(k, || v.resize(90, Fr(7)));
        let w = v.to_vec();
        assert!(w[..3] == [Fr(3), Fr(4), Fr(5)] && w[3..].iter().all(|x| *x == Fr(7)), "{} {:?}", k, v);
    }'''))
seed("c26-insert-late", "C26", "to_discr panics in insert, in a vector whose storage holds something behind the last element", "a removed element is back, or one that never was there",
     mutant="w5-insert-late", demo=FRAGILE + main('''
    for k in 0..6 {
        let mut v: enum_vec::vec_u16::EnumVec<Fr<9>> = vec![Fr(3), Fr(4), Fr(5)].into();
        v.pop();
        failing(k, || v.insert(1, Fr(7)));
        assert!(v.to_vec().iter().all(|x| [3, 4, 7].contains(&x.0)), "{} {:?}", k, v);
    }'''))
seed("c26-retain-zero", "C26", "to_discr panics when retain moves an element down", "a slot that the vector still covers is cleared: an element nobody put there",
     mutant="w5-retain-zero", demo=FRAGILE + main('''
    for k in 0..12 {
        let mut v: enum_vec::vec_u64::EnumVec<Fr<9>> = vec![Fr(3), Fr(4), Fr(5), Fr(6)].into();
        failing(k, || v.retain(|x| x.0 != 3));
        assert!(v.to_vec().iter().all(|x| x.0 != 0), "{} {:?}", k, v);
    }'''))

# ---------------------------------------------------------------- C27, C28
seed("c27-extend-take", "C27", "an iterator given to extend that panics", "all earlier members of the set are lost", mutant="w6-extend-take", demo=main('''
    let mut s: enum_set2::EnumSet<W<50>> = [W(3), W(40)].into_iter().collect();
    assert!(panics(|| s.extend((0..5).map(|i| if i == 3 { panic!("items") } else { W(i) }))));
    assert!(s.contains(W(3)) && s.contains(W(40)), "{:?}", s);'''))
seed("c27-extend-swap", "C27", "a conversion of the element type that panics during extend", "the set keeps only the new items", mutant="w6-extend-first-swap", demo=FRAGILE + main('''
    for k in 0..4 {
        let mut s: enum_set2::EnumSet<Fr<50>> = [Fr(3), Fr(40)].into_iter().collect();
        failing(k, || s.extend([Fr(7), Fr(9)]));
        assert!(s.contains(Fr(3)) && s.contains(Fr(40)), "{}", k);
    }'''))
seed("c27-extend-mark", "C27", "a conversion or an iterator that panics during extend, in a set without the last value of its type", "the set has a member nobody put there",
     mutant="w6-extend-mark", demo=FRAGILE + main('''
    for k in 0..4 {
        let mut s: enum_set2::EnumSet<Fr<50>> = [Fr(3), Fr(40)].into_iter().collect();
        failing(k, || s.extend([Fr(7), Fr(9)]));
        assert!(!s.contains(Fr(49)), "{}", k);
    }'''))
seed("c28-new-capacity", "C28", "a set of a type with very many variants", "a new set allocates one bit for each variant", mutant="w6-new-capacity", demo=main('''
    let s: enum_set2::EnumSet<W<{1 << 28}>> = enum_set2::EnumSet::new();
    assert!(s.get_ref().capacity() < 1 << 20, "{}", s.get_ref().capacity());'''))
seed("c28-shrink-keeps", "C28", "shrink_to_fit on a set of moderate size after removing its largest members", "the blocks remain", mutant="w6-shrink-keeps", demo=main('''
    let mut s: enum_set2::EnumSet<W<4000>> = [W(1), W(3000)].into_iter().collect();
    s.remove(W(3000));
    s.shrink_to_fit();
    assert_eq!(s.get_ref().get_ref().storage().len(), 1);'''))
seed("c28-union-reserve", "C28", "repeated in-place unions", "the capacity grows with every union", mutant="w6-union-reserve", demo=main('''
    let mut s: enum_set2::EnumSet<W<100>> = [W(1)].into_iter().collect();
    let t = s.clone();
    for _ in 0..12 { s.union_with(&t) }
    assert!(s.get_ref().capacity() < 4000, "{}", s.get_ref().capacity());'''))

# ---------------------------------------------------------------- C24, C25
seed("c24-mut-trims", "C24", "storage_mut on a vector whose length is not a multiple of the elements per block, after shrinking or with spare blocks", "storage_mut cuts off the last, partly used block",
     edits=vedit(ALL, ("    pub unsafe fn storage_mut(&mut self) -> &mut Storage {\n        &mut self.storage\n", "    pub unsafe fn storage_mut(&mut self) -> &mut Storage {\n        // Hand out the blocks in use only\n        let blocks = cmp::max(1, self.num_elements / Self::ELEMS_PER_BLOCK);\n        let storage = &mut self.storage;\n        storage.truncate(blocks);\n        storage\n")),
     demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<16>> = (0..20).map(|i| W(i % 16)).collect();
    let _ = unsafe { v.storage_mut() };
    assert!(v.storage().len() >= 3);'''))
seed("c24-transplant", "C24", "a vector that is given the storage of another whose last block is full, and its length by set_len, then equal-length comparison after append",
     "append to a vector that got its blocks through storage_mut loses the block that is not counted yet", mutant="w3-append-swap", demo=main('''
    let mut a: enum_vec::vec_u32::EnumVec<W<16>> = enum_vec::vec_u32::EnumVec::new();
    let mut b: enum_vec::vec_u32::EnumVec<W<16>> = (0..25).map(|i| W(i % 16)).collect();
    unsafe { b.storage_mut().push(0); }
    a.append(&mut b);
    assert_eq!(a.to_vec(), (0..25).map(|i| W(i % 16)).collect::<Vec<_>>());'''))
seed("c25-wanted-static", "C25", "two threads that ask `all` for different values at the same time", "a thread is told that not all elements are equal, though they are", mutant="w4-share-static-x", demo=main('''
    let v: enum_vec::vec_u32::EnumVec<W<16>> = vec![W(5); 4000].into();
    let w: enum_vec::vec_u32::EnumVec<W<16>> = vec![W(9); 4000].into();
    std::thread::scope(|s| {
        let a = s.spawn(|| (0..60000).all(|_| v.all(W(5))));
        let b = s.spawn(|| (0..60000).all(|_| w.all(W(9))));
        let c = s.spawn(|| (0..60000).all(|_| v.all(W(5))));
        assert!(a.join().unwrap() && b.join().unwrap() && c.join().unwrap());
    });'''))
seed("c25-set-iter-not-send", "C25", "an iterator over a set that is handed to another thread", "set iterators can no longer be moved to another thread",
     edits=[("enum_set/src/lib.rs", "    inner: I,\n    _phantom: PhantomData<E>,", "    inner: I,\n    _phantom: PhantomData<*const E>,")], demo=main('''
    let s: enum_set2::EnumSet<W<50>> = [W(3), W(40)].into_iter().collect();
    std::thread::scope(|t| { let it = s.iter(); assert_eq!(t.spawn(move || it.count()).join().unwrap(), 2) });'''))
seed("c25-packed-not-sync", "C25", "packed values shared between threads", "a packed value can no longer be shared between threads",
     edits=[("enum_like/src/lib.rs", "pub struct PackedU8<T> {\n    discr: u8,\n    _phantom: PhantomData<T>,", "pub struct PackedU8<T> {\n    discr: u8,\n    _phantom: PhantomData<*const T>,")], demo=main('''
    let p = enum_like::PackedU8::new(W::<9>(4));
    let q = &p;
    std::thread::scope(|t| { assert_eq!(t.spawn(move || q.get()).join().unwrap(), W(4)) });'''))
seed("c25-canon", "C25", "any on a vector of more than four blocks in which something was removed", "any writes to the storage behind a shared reference",
     edits=vedit(["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"], ("        if self.is_empty() {\n            return false;\n        }\n        let (last_block", "        if self.num_elements == 0 {\n            return false;\n        }\n        // Nothing may be left in the unused part of the last block\n        if self.len() % Self::ELEMS_PER_BLOCK != 0 && self.storage.len() > 4 {\n            let (b, s) = Self::block_index(self.len());\n            unsafe { *(self.storage.as_ptr() as *mut StorageBlock).add(b) &= !(!0 << s); }\n        }\n        let (last_block")),
     demo=main('''
    let mut v: enum_vec::vec_u32::EnumVec<W<16>> = (0..60).map(|i| W(i % 15 + 1)).collect();
    v.pop(); v.pop();
    let before = v.storage().clone();
    v.any(W(3));
    assert!(*v.storage() == before);'''))

# ---------------------------------------------------------------- C29
COUNTING = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn kept(mut f: impl FnMut()) -> isize {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = catch_unwind(AssertUnwindSafe(&mut f));
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..20 { let _ = catch_unwind(AssertUnwindSafe(&mut f)); }
    LIVE.load(Ordering::SeqCst) - before
}
'''


def leak(body):
    return COUNTING + main("    let n = kept(|| {" + body + "});\n    if n != 0 { eprintln!(\"{} bytes kept\", n); std::process::exit(1) }")


seed("c29-into-half", "C29", "a consuming iterator that is dropped before its end", "the vector is not given back", mutant="w7-into-half", demo=leak('''
        let v: enum_vec::EnumVec<W<50>> = (0..50).map(W).collect();
        v.into_iter().take(7).for_each(drop);'''))
seed("c29-append-forgets", "C29", "append to a vector whose last block is partly used", "the buffer of the other vector is not given back", mutant="w7-append-forgets", demo=leak('''
        let mut v: enum_vec::EnumVec<W<50>> = (0..3).map(W).collect();
        v.push(W(1));
        let mut w: enum_vec::EnumVec<W<50>> = (0..50).map(W).collect();
        v.append(&mut w);'''))
seed("c29-collect-raw", "C29", "collecting from an iterator that panics", "the elements collected so far are not given back", mutant="w7-collect-raw", demo=leak('''
        let _: enum_vec::EnumVec<W<50>> = (0..50).map(|i| if i == 40 { panic!("items") } else { W(i) }).collect();'''))
seed("c29-shrink-empty", "C29", "shrink_to_fit on a vector that was emptied", "the buffer is not given back", mutant="w7-shrink-copy", demo=leak('''
        let mut v: enum_vec::EnumVec<W<50>> = (0..50).map(W).collect();
        v.clear();
        v.shrink_to_fit();'''))
seed("c29-set-clear", "C29", "clearing a set with a large member", "the bits of the set are not given back", mutant="w7-set-clear", demo=leak('''
        let mut s: enum_set2::EnumSet<W<500>> = (0..500).map(W).collect();
        s.clear();'''))
seed("c29-set-collect", "C29", "collecting a set from an iterator that panics", "the members collected so far are not given back", mutant="w7-set-collect", demo=leak('''
        let _: enum_set2::EnumSet<W<500>> = (0..500).map(|i| if i == 400 { panic!("items") } else { W(i) }).collect();'''))

# ------------------------------------------------------- more than 2^32 bits
seed("c01-wide-index", "C01", "a vector whose bits number more than 2^32", "positions past 2^32 bits are those of the first elements",
     edits=vedit(["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"], ("        (\n            i / Self::ELEMS_PER_BLOCK,\n            (i % Self::ELEMS_PER_BLOCK) * Self::BITS_PER_ELEM,\n        )",
           "        // One shift and one mask, as the bits are numbered consecutively\n        let used = (Self::ELEMS_PER_BLOCK * Self::BITS_PER_ELEM) as u32;\n        let bit = (i * Self::BITS_PER_ELEM) as u32;\n        ((bit / used) as usize, (bit % used) as usize)")),
     demo=main('''
    let mut v = enum_vec::vec_u64::EnumVec::<W<200>>::from_elem(W(3), (1 << 29) + 9);
    v.set(1 << 29, W(77));
    assert_eq!(v.get(0), Some(W(3)));'''))
seed("c03-wide-count", "C03", "a vector of more than 2^32 elements", "any overlooks an element",
     edits=vedit(["vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128"], ("        for i in 0..last_block {\n            if haszero(", "        // Blocks of which every element is in use\n        let full = (self.len() as u32 / Self::ELEMS_PER_BLOCK as u32) as usize;\n        for i in 0..full {\n            if haszero(")),
     demo=main('''
    let mut v = enum_vec::vec_u8::EnumVec::<W<2>>::from_elem(W(1), (1 << 32) + 9);
    v.set(1 << 30, W(0));
    assert!(v.any(W(0)));'''))
seed("c18-wide-member", "C18", "a member with a discriminant past 2^32", "the set confuses it with one 2^32 before",
     edits=[("enum_set/src/lib.rs", "        let d = value.to_discr();\n        self.inner.insert(d)", "        let d = value.to_discr() as u32;\n        self.inner.insert(d as usize)"),
            ("enum_set/src/lib.rs", "        let d = value.to_discr();\n        self.inner.contains(d)", "        let d = value.to_discr() as u32;\n        self.inner.contains(d as usize)"),
            ("enum_set/src/lib.rs", "        let d = value.to_discr();\n        self.inner.remove(d)", "        let d = value.to_discr() as u32;\n        self.inner.remove(d as usize)")],
     demo=main('''
    let mut s = enum_set2::EnumSet::<W<{ (1 << 33) + 1 }>>::new();
    s.insert(W((1 << 32) + 5));
    assert!(s.contains(W((1 << 32) + 5)));
    assert!(!s.contains(W(5)));'''))
