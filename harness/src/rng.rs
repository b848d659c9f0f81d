//! A small deterministic generator (SplitMix64 / xoshiro256**).

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    let mut chunks = bytes.chunks_exact(8);
    for c in &mut chunks {
        h = mix(h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    let mut last = [0u8; 8];
    let rest = chunks.remainder();
    last[..rest.len()].copy_from_slice(rest);
    mix(h ^ u64::from_le_bytes(last) ^ ((bytes.len() as u64) << 56) ^ bytes.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for v in s.iter_mut() {
            z = mix(z);
            *v = z;
        }
        Rng(s)
    }

    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }

    /// A number below `n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// A number in `low..=high`.
    pub fn range(&mut self, low: i64, high: i64) -> i64 {
        low + self.below((high - low + 1) as u64) as i64
    }

    pub fn size(&mut self, low: usize, high: usize) -> usize {
        self.range(low as i64, high as i64) as usize
    }

    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }

    pub fn u16(&mut self) -> u16 {
        self.u64() as u16
    }

    /// True once in `n`.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }

    pub fn percent(&mut self, p: u64) -> bool {
        self.below(100) < p
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }

    /// Numbers of a texture: random, constant, repetitive, running, extreme.
    pub fn texture(&mut self, n: usize) -> Vec<u16> {
        const EDGES: &[u16] = &[
            0, 1, 2, 228, 229, 255, 256, 390, 391, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff,
        ];
        let style = self.below(9);
        let mut last = if self.percent(50) { *self.pick(EDGES) } else { self.u16() };
        let few = [self.u16(), *self.pick(EDGES), last, self.u8() as u16];
        let step = *self.pick(&[1u16, 0xffff, 2, 256, 0xff00]);
        (0..n)
            .map(|k| {
                last = match style {
                    0..=2 => self.u16(),
                    3 => last,
                    4 => *self.pick(&few),
                    5 if k > 0 => last.wrapping_add(step),
                    6 => *self.pick(EDGES),
                    7 if self.percent(60) => last,
                    7 => self.u8() as u16,
                    8 => self.u8() as u16,
                    _ => last,
                };
                last
            })
            .collect()
    }

    /// As above, bytes.
    pub fn texture8(&mut self, n: usize) -> Vec<u8> {
        let low = self.percent(70);
        let from = self.texture(n);
        from.into_iter().map(|v| if low { v as u8 } else { (v >> 8) as u8 }).collect()
    }

    /// Bytes of all sorts, often ones that look like a part of a font.
    pub fn noise(&mut self, n: usize) -> Vec<u8> {
        const ALPHABETS: &[&[u8]] = &[
            &[0, 1],
            &[0, 1, 2, 3, 4],
            &[0, 0xff],
            &[0, 0xff, 0x80, 0x7f],
            &[b' ', b'a', b'A', b'0', b'.'],
            &[0x0c, 0x1e, 0xff, 0x0f, 0x8b],
            &[14, 11, 10, 29, 28, 19, 139],
            &[0xc3, 0xa9, 0xe2, 0x82, 0xac, b'a', 0xef, 0xbb, 0xbf, 0xf0, 0x9f, 0],
        ];
        match self.below(10) {
            0..=2 => self.bytes(n),
            3 | 4 => self.texture8(n),
            5..=8 => {
                let alphabet = *self.pick(ALPHABETS);
                (0..n).map(|_| *self.pick(alphabet)).collect()
            }
            _ => {
                const PARTS: &[&[u8]] = &[
                    &[0, 0],
                    &[0, 1, 1, 1, 2, 65],
                    &[0, 0, 1, 1],
                    &[1, 0, 4, 1],
                    &[0, 2, 1, 1, 1, 1],
                    &[139, 15],
                    &[12, 30],
                    &[3, 0, 1, 0, 0, 0, 0, 1],
                    &[30, 0x1f],
                    &[29, 0, 0, 0, 0],
                    &[0, 3, 1, 1, 2, 3, 4, 14, 14, 14],
                    &[0xef, 0xbb, 0xbf],
                ];
                let mut bytes = vec![];
                while bytes.len() < n {
                    bytes.extend_from_slice(*self.pick(PARTS));
                }
                bytes.truncate(n);
                bytes
            }
        }
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.usize(i + 1);
            items.swap(i, j);
        }
    }
}
