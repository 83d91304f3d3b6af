//! Reference serialization (GP appendix C).
#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);

pub fn nat(x: u64) -> Vec<u8> {
    if x == 0 {
        return vec![0];
    }
    for l in 0..8u32 {
        if (x as u128) < 1u128 << (7 * (l + 1)) {
            let first = (256u32 - (1 << (8 - l)) + (x >> (8 * l)) as u32) as u8;
            let mut v = vec![first];
            v.extend_from_slice(&x.to_le_bytes()[..l as usize]);
            return v;
        }
    }
    let mut v = vec![0xff];
    v.extend_from_slice(&x.to_le_bytes());
    v
}

impl Enc {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn nat(&mut self, x: u64) -> &mut Self {
        self.0.extend(nat(x));
        self
    }
    pub fn fix(&mut self, x: u64, n: usize) -> &mut Self {
        self.0.extend_from_slice(&x.to_le_bytes()[..n]);
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.nat(b.len() as u64).raw(b)
    }
    pub fn opt<T>(&mut self, o: &Option<T>, f: impl Fn(&mut Enc, &T)) -> &mut Self {
        match o {
            None => {
                self.0.push(0);
            }
            Some(v) => {
                self.0.push(1);
                f(self, v);
            }
        }
        self
    }
    pub fn seq<'a, T: 'a>(
        &mut self,
        it: impl ExactSizeIterator<Item = &'a T>,
        f: impl Fn(&mut Enc, &T),
    ) -> &mut Self {
        self.nat(it.len() as u64);
        for x in it {
            f(self, x);
        }
        self
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

pub fn enc(f: impl FnOnce(&mut Enc)) -> Vec<u8> {
    let mut e = Enc::new();
    f(&mut e);
    e.0
}
