//! Element types of the vectors under test, with their palettes.
use enum_like::EnumLike;
use std::fmt::Debug;

/// An element type: a few of its values are used (the palette).
pub trait El: EnumLike + Copy + Debug + PartialEq + 'static {
    fn pal() -> Vec<Self>;
    /// `NUM_VARIANTS` as documented, computed without the code under test
    const N: usize;
    /// where in the palette the value with discriminant 0 is
    const ZERO: usize = 0;
    /// the value with this discriminant, where the palette may be any
    fn at(_d: usize) -> Option<Self> {
        None
    }
}

/// `N` variants, numbered by the field. Accepts every number, so that a
/// number that is not a discriminant is seen and not undefined behaviour.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct D<const N: usize>(pub usize);

unsafe impl<const N: usize> EnumLike for D<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        D(x)
    }
}

/// Discriminants of a type of n values: all of them if there are at most `max`, else many near those of the palette
pub fn around<T: El>(n: usize, pal: &[T], max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let w = usize::BITS - (n - 1).leading_zeros();
    let mut v = Vec::new();
    'out: for k in 0..w {
        for x in pal {
            let d = x.to_discr();
            for c in [d ^ (1 << k), d.wrapping_add(1 << k), d.wrapping_sub(1 << k), d << k, d >> k, (1 << k) - 1] {
                if c < n {
                    v.push(c)
                }
            }
            if v.len() >= max {
                break 'out;
            }
        }
    }
    v
}

thread_local!(static CONV: std::cell::Cell<(i64, bool)> = const { std::cell::Cell::new((-1, false)) });
/// The conversions of F<N> panic after this many (never if negative)
pub fn arm(k: i64) {
    CONV.with(|c| c.set((k, false)))
}
/// Ends that; did one panic?
pub fn disarm() -> bool {
    CONV.with(|c| c.replace((-1, false)).1)
}
fn conversion() {
    CONV.with(|c| match c.get() {
        (0, _) => {
            c.set((0, true));
            std::panic::panic_any("conversion")
        }
        (k, f) if k > 0 => c.set((k - 1, f)),
        _ => {}
    })
}

/// Like D<N>, with conversions that may panic
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct F<const N: usize>(pub usize);
unsafe impl<const N: usize> EnumLike for F<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        conversion();
        self.0
    }
    fn from_discr(x: usize) -> Self {
        conversion();
        F(x)
    }
}
impl<const N: usize> El for F<N> {
    const N: usize = N;
    fn at(d: usize) -> Option<Self> {
        Some(F(d))
    }
    fn pal() -> Vec<Self> {
        D::<N>::pal().into_iter().map(|d| F(d.0)).collect()
    }
}

impl<const N: usize> El for D<N> {
    const N: usize = N;
    fn at(d: usize) -> Option<Self> {
        Some(D(d))
    }
    fn pal() -> Vec<Self> {
        let mut v: Vec<usize> = Vec::new();
        let k = 63 - N.leading_zeros() as usize;
        let mask = if N.is_power_of_two() { N - 1 } else { (1usize << k << 1).wrapping_sub(1) };
        let cand = [
            0,
            N - 1,
            1,
            0xAAAA_AAAA_AAAA_AAAA & mask,
            N / 2,
            0x5555_5555_5555_5555 & mask,
            N.wrapping_sub(2),
            (1usize << k).wrapping_sub(1),
            2,
            3,
            4,
        ];
        for &c in &cand {
            if c < N && !v.contains(&c) && v.len() < 6 {
                v.push(c);
            }
        }
        v.into_iter().map(D).collect()
    }
}

impl El for bool {
    const N: usize = 2;
    fn pal() -> Vec<Self> {
        vec![false, true]
    }
}
impl El for Option<bool> {
    const N: usize = 3;
    fn pal() -> Vec<Self> {
        vec![Some(false), None, Some(true)]
    }
}
impl El for (bool, bool, bool) {
    const N: usize = 8;
    fn pal() -> Vec<Self> {
        vec![
            (false, false, false),
            (true, true, true),
            (true, false, false),
            (false, true, false),
            (false, false, true),
        ]
    }
}
impl El for Option<Option<(bool, bool)>> {
    const N: usize = 6;
    const ZERO: usize = 2;
    fn pal() -> Vec<Self> {
        vec![
            None,
            Some(None),
            Some(Some((false, false))),
            Some(Some((true, false))),
            Some(Some((false, true))),
            Some(Some((true, true))),
        ]
    }
}
impl El for Result<[bool; 5], bool> {
    const N: usize = 34;
    const ZERO: usize = 2;
    fn pal() -> Vec<Self> {
        vec![
            Err(true),
            Err(false),
            Ok([false; 5]),
            Ok([true; 5]),
            Ok([false, false, false, false, true]),
            Ok([true, false, true, false, false]),
        ]
    }
}
