//! Reference AES-128-CBC/PKCS#7, written from FIPS 197 with computed (not tabulated) S-boxes.

fn xtime(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 { if b & 1 != 0 { r ^= a } a = xtime(a); b >>= 1; }
    r
}

pub struct Aes { rk: [[u8; 16]; 11], sbox: [u8; 256], inv: [u8; 256], m9: [u8; 256], m11: [u8; 256], m13: [u8; 256], m14: [u8; 256] }

impl Aes {
    pub fn new(key: &[u8; 16]) -> Aes {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for x in 0..=255u8 {
            // multiplicative inverse by search, then the affine map
            let i = if x == 0 { 0 } else { (1..=255u8).find(|y| mul(x, *y) == 1).unwrap() };
            let s = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            sbox[x as usize] = s;
            inv[s as usize] = x;
        }
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]); }
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                for b in &mut t { *b = sbox[*b as usize]; }
                t[0] ^= rcon;
                rcon = xtime(rcon);
            }
            for k in 0..4 { w[i][k] = w[i - 4][k] ^ t[k]; }
        }
        let mut rk = [[0u8; 16]; 11];
        for r in 0..11 { for c in 0..4 { rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]); } }
        let t = |k: u8| { let mut o = [0u8; 256]; for x in 0..=255u8 { o[x as usize] = mul(x, k); } o };
        Aes { rk, sbox, inv, m9: t(9), m11: t(11), m13: t(13), m14: t(14) }
    }
    fn add(&self, s: &mut [u8; 16], r: usize) { for i in 0..16 { s[i] ^= self.rk[r][i]; } }
    pub fn enc(&self, s: &mut [u8; 16]) {
        self.add(s, 0);
        for r in 1..=10 {
            let mut t = [0u8; 16];
            for c in 0..4 { for k in 0..4 { t[4 * c + k] = self.sbox[s[4 * ((c + k) % 4) + k] as usize]; } }
            if r < 10 {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for k in 0..4 { t[4 * c + k] = xtime(a[k]) ^ (xtime(a[(k + 1) % 4]) ^ a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; }
                }
            }
            *s = t;
            self.add(s, r);
        }
    }
    pub fn dec(&self, s: &mut [u8; 16]) {
        for r in (1..=10).rev() {
            self.add(s, r);
            if r < 10 {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]].map(|x| x as usize);
                    for k in 0..4 { s[4 * c + k] = self.m14[a[k]] ^ self.m11[a[(k + 1) % 4]] ^ self.m13[a[(k + 2) % 4]] ^ self.m9[a[(k + 3) % 4]]; }
                }
            }
            let mut t = [0u8; 16];
            for c in 0..4 { for k in 0..4 { t[4 * ((c + k) % 4) + k] = self.inv[s[4 * c + k] as usize]; } }
            *s = t;
        }
        self.add(s, 0);
    }
}

const KEY: &[u8; 16] = b"sketchwaresecure";
thread_local! { static A: Aes = Aes::new(KEY); }

pub fn encrypt(data: &[u8]) -> Vec<u8> {
    A.with(|a| {
        let pad = 16 - data.len() % 16;
        let mut d = data.to_vec();
        d.extend(std::iter::repeat(pad as u8).take(pad));
        encrypt_raw(a, &d)
    })
}
fn encrypt_raw(a: &Aes, d: &[u8]) -> Vec<u8> {
    let mut prev = *KEY;
    let mut out = Vec::with_capacity(d.len());
    for ch in d.chunks_exact(16) {
        let mut b = [0u8; 16];
        for i in 0..16 { b[i] = ch[i] ^ prev[i]; }
        a.enc(&mut b);
        prev = b;
        out.extend_from_slice(&b);
    }
    out
}
/// CBC encryption of already padded (or deliberately wrongly padded) data
pub fn encrypt_padded(d: &[u8]) -> Vec<u8> { A.with(|a| encrypt_raw(a, d)) }

/// None: not a valid ciphertext
pub fn decrypt(data: &[u8]) -> Option<Vec<u8>> {
    if data.is_empty() || data.len() % 16 != 0 { return None }
    A.with(|a| {
        let mut prev = *KEY;
        let mut out = Vec::with_capacity(data.len());
        for ch in data.chunks_exact(16) {
            let mut b: [u8; 16] = ch.try_into().unwrap();
            a.dec(&mut b);
            for i in 0..16 { b[i] ^= prev[i]; }
            prev = ch.try_into().unwrap();
            out.extend_from_slice(&b);
        }
        let pad = *out.last().unwrap() as usize;
        if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|x| *x as usize != pad) { return None }
        out.truncate(out.len() - pad);
        Some(out)
    })
}

/// FIPS 197 appendix C.1
pub fn self_test() {
    let key: [u8; 16] = core::array::from_fn(|i| i as u8);
    let a = Aes::new(&key);
    let mut s: [u8; 16] = core::array::from_fn(|i| (i * 0x11) as u8);
    let plain = s;
    a.enc(&mut s);
    assert_eq!(s, [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]);
    a.dec(&mut s);
    assert_eq!(s, plain);
}
