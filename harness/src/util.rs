//! Random numbers, JSON fragments, scratch directories.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// a number that depends on the state, which does not change
    pub fn peek(&self) -> u64 {
        self.0 >> 7
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub type Key = Vec<i64>;
pub type Entry = (Key, i64);

pub fn jkey(k: &[i64]) -> String {
    let v: Vec<String> = k.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn jlist(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}
pub fn jentries(es: &[Entry]) -> String {
    jlist(es.iter().map(|(k, v)| format!("[{},{}]", jkey(k), v)))
}
pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// A scratch directory that is removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("RDX_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = std::path::PathBuf::from(base).join(format!(
            "rdx-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
