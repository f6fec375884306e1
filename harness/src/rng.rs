#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.next() % 100 < percent as u64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn pick<T: Clone>(&mut self, l: &[T]) -> T {
        l[self.below(l.len())].clone()
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => self.next() & 0xFF,
            3 => 1 << self.below(64),
            _ => self.next(),
        }
    }
    /// a string of n bytes
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n {
            let left = n - s.len();
            let c = match self.below(12) {
                0 if left >= 2 => 'ß',
                1 if left >= 3 => '語',
                2 if left >= 4 => '🦀',
                3 => '\0',
                4 => ' ',
                5 => (b'A' + self.below(26) as u8) as char,
                6 => self.pick(&['/', '.', '_', '-', ':', '*', '0', '9', '\n', '"', '\u{7f}']),
                _ => (b'a' + self.below(26) as u8) as char,
            };
            s.push(c);
        }
        s
    }
}
