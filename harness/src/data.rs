//! Data descriptors: `x<hex>`, `f<byte>:<len>`, `p<seed>:<off>:<len>` (pseudo-random stream),
//! `r<word>:<len>` (a repeated 16-bit pattern).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Desc {
    Hex(Vec<u8>),
    Fill(u8, usize),
    Prng(u64, usize, usize),
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// `len` bytes of stream `seed` from `off`.
pub fn stream(seed: u64, off: usize, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let base = mix(seed);
    let mut i = off as u64;
    let end = i + len as u64;
    while i < end {
        let w = mix(base ^ (i / 8)).to_le_bytes();
        let k = (i % 8) as usize;
        let take = std::cmp::min(8 - k, (end - i) as usize);
        v.extend_from_slice(&w[k..k + take]);
        i += take as u64;
    }
    v
}
pub fn parse(t: &str) -> Desc {
    let (k, r) = t.split_at(1);
    match k {
        "x" => Desc::Hex((0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).expect("hex")).collect()),
        "f" => {
            let p: Vec<&str> = r.split(':').collect();
            Desc::Fill(p[0].parse().unwrap(), p[1].parse().unwrap())
        }
        "p" => {
            let p: Vec<&str> = r.split(':').collect();
            Desc::Prng(p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap())
        }
        _ => panic!("bad data descriptor {}", t),
    }
}
impl Desc {
    pub fn len(&self) -> usize {
        match self {
            Desc::Hex(v) => v.len(),
            Desc::Fill(_, n) => *n,
            Desc::Prng(_, _, n) => *n,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Desc::Hex(v) => v.clone(),
            Desc::Fill(b, n) => vec![*b; *n],
            Desc::Prng(s, o, n) => stream(*s, *o, *n),
        }
    }
}
