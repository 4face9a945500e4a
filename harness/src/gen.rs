//! Choice-sequence generation: every generated value is a pure function of a sequence of bounded
//! integer choices. The choices come from a seeded PRNG (search) or from a recorded sequence
//! (shrinking); an exhausted recording yields 0, the simplest choice.

pub struct Gen {
    src: Src,
    pub rec: Vec<u64>,
    /// scales collection sizes
    pub size: u64,
    /// names drawn earlier in this case, from which later ones are varied
    recent: Vec<String>,
}

enum Src {
    Rng(u64),
    Rec(Vec<u64>, usize),
}

const MAX_CHOICES: usize = 400_000;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Gen {
    pub fn from_seed(seed: u64, size: u64) -> Gen {
        Gen { src: Src::Rng(mix(seed)), rec: Vec::new(), size, recent: Vec::new() }
    }

    pub fn from_choices(c: Vec<u64>, size: u64) -> Gen {
        Gen { src: Src::Rec(c, 0), rec: Vec::new(), size, recent: Vec::new() }
    }

    /// A choice in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.rec.len() >= MAX_CHOICES {
            0
        } else {
            match &mut self.src {
                Src::Rng(st) => {
                    *st = st.wrapping_add(0x9e37_79b9_7f4a_7c15);
                    let r = mix(*st);
                    ((r as u128 * n as u128) >> 64) as u64
                }
                Src::Rec(c, pos) => {
                    let v = c.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                    v.min(n - 1)
                }
            }
        };
        self.rec.push(v);
        v
    }

    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.u(xs.len())]
    }

    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }

    /// a list of 0..=max elements (about `size`-scaled), drawn as continue/stop choices so that
    /// elements can be deleted by the shrinker
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let avg = (self.size).clamp(1, max.max(1) as u64);
        let mut out = Vec::new();
        while out.len() < max && self.chance(avg, avg + 1) {
            out.push(f(self));
        }
        out
    }

    /// like `vec`, but once in a while much longer than `max`
    pub fn vecx<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        if !self.chance(1, 250) { return self.vec(max, f) }
        let avg = *self.pick(&[8u64, 20, 60, 200]);
        let mut out = Vec::new();
        while out.len() < 600 && self.chance(avg, avg + 1) { out.push(f(self)); }
        out
    }

    pub fn vec1<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let mut out = vec![f(self)];
        let avg = (self.size).clamp(1, max.max(1) as u64);
        while out.len() < max && self.chance(avg, avg + 1) {
            out.push(f(self));
        }
        out
    }

    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Gen) -> T) -> Option<T> {
        if self.chance(num, den) { Some(f(self)) } else { None }
    }

    pub fn with_size<T>(&mut self, size: u64, f: impl FnOnce(&mut Gen) -> T) -> T {
        let old = self.size;
        self.size = size.max(1);
        let r = f(self);
        self.size = old;
        r
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // choice 0 everywhere = identity
        for i in (1..xs.len()).rev() {
            let j = i - self.u(i + 1);
            xs.swap(i, j);
        }
    }

    pub fn u8(&mut self) -> u8 {
        match self.below(4) {
            0 => self.below(4) as u8,
            1 => *self.pick(&[0u8, 1, 127, 128, 254, 255]),
            _ => self.below(256) as u8,
        }
    }

    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 => self.below(10) as u16,
            1 => *self.pick(&[0u16, 1, 255, 256, 600, 999, 32767, 32768, 65534, 65535]),
            _ => self.below(65536) as u16,
        }
    }

    pub fn u32(&mut self) -> u32 {
        match self.below(5) {
            0 => self.below(4) as u32,
            1 => self.below(1000) as u32,
            2 => *self.pick(&[0u32, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xff00_0000, 0x00ff_ffff, 16777216, 16777217]),
            _ => self.below(1 << 32) as u32,
        }
    }

    pub fn i32(&mut self) -> i32 {
        match self.below(5) {
            0 => self.below(4) as i32,
            1 => self.range(-20, 1000) as i32,
            2 => *self.pick(&[0i32, -1, -2, -3, 1, i32::MAX, i32::MIN, 65535, -65536]),
            _ => self.below(1 << 32) as u32 as i32,
        }
    }

    /// a 32-bit ARGB colour
    pub fn color(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0xff00_0000u32, 0xffff_ffff, 0, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, 0xff00_8dcd, 0x2000_8dcd]),
            1 => {
                // every byte from its own extremes
                let b: [u32; 4] = [0, 1, 2, 3].map(|_| *self.pick(&[0u32, 1, 0x7f, 0x80, 0xfe, 0xff]));
                b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
            }
            _ => self.below(1 << 32) as u32,
        }
    }

    /// a finite f32
    pub fn f32(&mut self) -> f32 {
        match self.below(6) {
            0 => 1.0,
            1 => 0.0,
            2 => self.range(-1000, 1000) as f32 / 10.0,
            3 => *self.pick(&[0.5f32, -1.0, 0.1, 3.4028235e38, -3.4028235e38, 1.17549435e-38, 1e-45, 16777216.0, 16777217.0, 0.33333334, 1e10, 1.5e-7]),
            _ => {
                let f = f32::from_bits(self.below(1 << 32) as u32);
                if f.is_finite() { f } else { 2.5 }
            }
        }
    }

    /// a number literal
    pub fn f64(&mut self) -> f64 {
        match self.below(6) {
            0 => self.below(10) as f64,
            1 => self.range(-100_000, 100_000) as f64,
            2 => self.range(-100_000, 100_000) as f64 / 100.0,
            3 => *self.pick(&[0.1f64, -0.5, 1e21, 1e22, 1.7976931348623157e308, 5e-324, 2147483648.0, -2147483649.0, 9007199254740993.0, 1e-7, 123456789.123456789, 3.141592653589793]),
            _ => {
                let f = f64::from_bits(self.below(u64::MAX));
                if f.is_finite() { f } else { 42.0 }
            }
        }
    }

    pub fn ch(&mut self) -> char {
        match self.weighted(&[8, 6, 4, 4, 3, 1]) {
            0 => (b'a' + self.below(26) as u8) as char,
            1 => (0x20 + self.below(95) as u8) as char,
            2 => *self.pick(&['"', '\\', '/', '=', '<', '>', '&', '\'', '@', '%', ':', '.', '{', '}', '[', ']', ',', ' ', '#', '$']),
            3 => *self.pick(&['é', 'ß', 'ñ', '中', '文', '日', 'ا', 'И', '😀', '𝒳', '\u{2028}', '\u{2029}', '\u{fffd}', '\u{200b}', '\u{a0}', '\u{feff}', '\u{301}', '€', '\u{10ffff}', '\u{3000}']),
            4 => *self.pick(&['\n', '\t', '\r', '\u{0}', '\u{1f}', '\u{7f}', '\u{8}', '\u{c}', '\u{85}']),
            _ => char::from_u32(self.below(0x11_0000) as u32).unwrap_or('?'),
        }
    }

    /// any text (for JSON string fields)
    pub fn text(&mut self) -> String {
        match self.below(6) {
            0 => String::new(),
            1 => self.ident(),
            2 => self.pick(&["@main.xml", "@x.java_var", "@images", "@sounds", "@fonts", "@firebaseDB", "@compat", "@admob", "@googleMap", "@main.xml_fab", "@MainActivity.java_events", "@x.java_components", "@x.java_func", "@x.java_list", "@x.java_onCreate_initializeLogic", "x.java_var", "}\n{", "\n@images\n", "\u{0}", "\n", "a ", "\u{feff}", "\n\n", "true", "false", "null", "0", "-1", "\\n", "\\u0041", "{\"a\":1}", "List String", "@10", "root", "%s", "default_font", "a=b&c<d>'e'", "line1\nline2", "@activity", "@customview", "http://x.y/?a=b", " leading", "trailing ", "\u{feff}bom"]).to_string(),
            3 if self.chance(1, 60) => {
                // much longer than usual
                let n = *self.pick(&[100usize, 127, 128, 255, 256, 257, 1000, 1024, 4096, 5000]);
                let mut s = self.ch().to_string().repeat(n);
                s.push(self.ch());
                s
            }
            3 => self.with_size(40, |g| g.vec(80, |g| g.ch())).into_iter().collect(),
            _ => self.with_size(5, |g| g.vec(24, |g| g.ch())).into_iter().collect(),
        }
    }

    /// a name that looks like one the format gives a meaning to: the token itself or a near miss
    /// (longer, shorter, other case)
    pub fn token(&mut self) -> String {
        const TOKENS: &[&str] = &["onCreate", "initializeLogic", "moreBlock", "root", "main", "_fab", "fab", "Activity", "activity", "customview", "java", "xml", "list", "var", "func", "components", "events", "images", "sounds", "fonts", "icons", "default_font", "default_image", "NONE", "none", "true", "null", "_drawer_", "drawer_", "drawer", "firebaseDB", "admob", "icon", "onClick", "onCreate_initializeLogic", "MainActivity", "List", "s", "d", "m", "b", "N", "Y", "end"];
        let t = *self.pick(TOKENS);
        let mut s = match self.weighted(&[3, 2, 2, 1, 1, 1, 1]) {
            0 => t.to_string(),
            1 => format!("{t}{}", self.pick(&["s", "2", "_", "X", "OptionsMenu", "_a", "0", "Activity"])),
            2 => format!("{}{t}", self.pick(&["a", "x_", "_", "my", "on", "__"])),
            3 => t.to_lowercase(),
            4 => t.to_uppercase(),
            5 => { let mut c = t.chars(); c.next_back(); c.as_str().to_string() }
            _ => { let mut c = t.chars(); let h = c.next().unwrap(); format!("{}{}", if h.is_lowercase() { h.to_ascii_uppercase() } else { h.to_ascii_lowercase() }, c.as_str()) }
        };
        if s.is_empty() { s.push('q') }
        s
    }

    /// a name of ASCII letters, digits and underscores that starts with a small letter
    pub fn ident(&mut self) -> String {
        let s = if !self.recent.is_empty() && self.chance(1, 8) {
            self.variant()
        } else if self.chance(1, 300) {
            let n = *self.pick(&[30usize, 63, 64, 65, 100, 127, 128, 255, 256, 300]);
            let h = (b'a' + self.below(26) as u8) as char;
            let t = *self.pick(&['a', '0', '_', 'Z']);
            std::iter::once(h).chain(std::iter::repeat(t).take(n)).collect()
        } else {
            self.fresh_ident()
        };
        if self.recent.len() < 32 { self.recent.push(s.clone()) } else { let k = self.rec.len() % 32; self.recent[k] = s.clone() }
        s
    }

    /// a name close to one drawn before: the same, another case, a prefix or an extension of it
    fn variant(&mut self) -> String {
        let i = self.u(self.recent.len());
        let s = self.recent[i].clone();
        match self.weighted(&[4, 2, 2, 1, 1, 1, 1]) {
            0 => s,
            1 => s.to_ascii_lowercase(),
            2 => {
                // flip the case of one letter behind the first
                let mut b = s.into_bytes();
                if b.len() > 1 {
                    let k = 1 + self.u(b.len() - 1);
                    if b[k].is_ascii_lowercase() { b[k] = b[k].to_ascii_uppercase() } else { b[k] = b[k].to_ascii_lowercase() }
                }
                String::from_utf8(b).unwrap()
            }
            3 => format!("{s}2"),
            4 => format!("{s}_{}", self.pick(&["x", "fab", "var", "events", "1"])),
            5 => if s.len() > 1 { s[..s.len() - 1].to_string() } else { s },
            _ => format!("{}{s}", self.pick(&["a", "x_", "on"])),
        }
    }

    fn fresh_ident(&mut self) -> String {
        if self.chance(1, 12) {
            let t = self.token();
            return if t.starts_with(|c: char| c.is_ascii_lowercase()) { t } else { format!("v{t}") };
        }
        const HEADS: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
        const TAILS: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789_ABCXYZ";
        let mut s = String::new();
        s.push(*self.pick(HEADS) as char);
        for c in self.with_size(4, |g| g.vec(12, |g| *g.pick(TAILS))) {
            s.push(c as char);
        }
        s
    }

    /// an identifier that may carry non-ascii letters
    pub fn uident(&mut self) -> String {
        if self.chance(1, 12) { return self.token() }
        let mut s = self.ident();
        if self.chance(1, 6) {
            s.push(*self.pick(&['é', 'ß', '中', 'И', '😀']));
            if self.bool() { s.push_str(&self.ident()); }
        }
        s
    }
}

/// Hands out names that are unique under a key function
pub struct Names(std::collections::HashSet<String>);
impl Names {
    pub fn new() -> Names { Names(Default::default()) }
    pub fn taken(&self, s: &str) -> bool { self.0.contains(s) }
    pub fn add(&mut self, s: &str) -> bool { self.0.insert(s.to_string()) }
    pub fn uniq(&mut self, s: String) -> String { self.uniq_by(s, |x| x.to_string()) }
    pub fn uniq_by(&mut self, s: String, key: impl Fn(&str) -> String) -> String {
        let mut c = s.clone();
        let mut i = 1;
        while !self.0.insert(key(&c)) {
            i += 1;
            c = format!("{s}{i}");
        }
        c
    }
}
