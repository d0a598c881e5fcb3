/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    /// 64 bit integers concentrated on the boundaries of every encoding length
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(5) {
            0 => self.next(),
            1 => self.below(300),
            _ => {
                if self.one_in(5) { return self.dict_num(); }
                let k = if self.one_in(4) { self.below(65) as u32 } else { *self.pick(&[7u32, 8, 15, 16, 31, 32, 47, 62, 63, 64]) };
                let b = if k == 64 { 0u64 } else { 1u64 << k };
                let d = self.below(5) as i64 - 2;
                let v = b.wrapping_add(d as u64);
                if self.one_in(3) { v.wrapping_neg() } else { v }
            }
        }
    }
    /// a literal of the code under check, or a neighbour of one
    pub fn dict_num(&mut self) -> u64 {
        let d = dict();
        let v = if !d.hot.is_empty() && !self.one_in(3) { *self.pick(&d.hot) } else if !d.nums.is_empty() { *self.pick(&d.nums) } else { self.next() };
        let v = match self.below(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 => v.wrapping_mul(2).wrapping_add(self.below(3)).wrapping_sub(1), _ => v };
        if self.one_in(8) { v.wrapping_neg() } else { v }
    }
    /// a size: mostly below `small`, sometimes next to a literal of the code or to a power of two, never above `cap`
    pub fn size(&mut self, small: u64, cap: u64) -> u64 {
        let d = dict();
        let hot = !d.hot.is_empty() && self.one_in(6);
        let n = if hot { let v = *self.pick(&d.hot); v.wrapping_add(self.below(5)).wrapping_sub(2) }
            else if self.one_in(40) { let v = if d.nums.is_empty() { 0 } else { *self.pick(&d.nums) }; v.wrapping_add(self.below(5)).wrapping_sub(2) }
            else if self.one_in(60) { let top = 64 - cap.leading_zeros() as u64; let k = self.below(top.max(1)); (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2) }
            else { return self.below(small.max(1)) };
        // large sizes cost time: one in four of the very large ones is kept
        if n > cap || n > 5000 && !hot && !self.one_in(4) { self.below(small.max(1)) } else { n }
    }
    /// a number of the code under check as a character, or a character that code likes to treat apart
    pub fn dict_char(&mut self) -> char {
        let d = dict();
        let c = if !d.hot.is_empty() && self.one_in(2) { *self.pick(&d.hot) } else if !d.nums.is_empty() && self.one_in(3) { *self.pick(&d.nums) } else { return *self.pick(&['\0', ' ', '\n', '\r', '\t', '"', '\'', '\\', '/', '_', '0', 'a', '\u{7f}', '\u{80}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}']); };
        char::from_u32((c & 0x1f_ffff) as u32).unwrap_or('\u{feff}')
    }
    /// a string literal of the code under check
    pub fn dict_str(&mut self) -> Option<String> {
        let d = dict();
        if !d.hot_strs.is_empty() && self.bool() { return Some(self.pick(&d.hot_strs).clone()); }
        if d.strs.is_empty() { None } else { Some(self.pick(&d.strs).clone()) }
    }
}
pub struct Dict { pub nums: Vec<u64>, pub hot: Vec<u64>, pub strs: Vec<String>, pub hot_strs: Vec<String> }
/// literals of the code under check (bin/literals.py); empty when VERIF_DICT is not set
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { nums: vec![], hot: vec![], strs: vec![], hot_strs: vec![] };
        let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            let Some((k, v)) = l.split_once(' ') else { continue };
            let unhex = || -> Option<String> { let b: Option<Vec<u8>> = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect(); String::from_utf8(b?).ok() };
            match k { "n" => if let Ok(x) = v.parse() { d.nums.push(x) }, "N" => if let Ok(x) = v.parse() { d.hot.push(x) }, "s" => if let Some(x) = unhex() { d.strs.push(x) }, "S" => if let Some(x) = unhex() { d.hot_strs.push(x) }, _ => () }
        }
        d
    })
}
