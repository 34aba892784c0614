pub fn js_str(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 32 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
/// A number as the limbs (base 10000, little-endian) of the specification
pub fn limbs(mut x: u64) -> String {
    let mut v = Vec::new();
    while x > 0 {
        v.push((x % 10000).to_string());
        x /= 10000;
    }
    format!("[{}]", v.join(","))
}
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, id: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ id.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
pub fn arg<'a>(args: &'a [String], name: &str, default: &'a str) -> &'a str {
    args.iter().position(|x| x == name).map(|i| args[i + 1].as_str()).unwrap_or(default)
}
