//! Small deterministic hasher (the analyser must give the same result on every run).
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
const K: u64 = 0x51_7c_c1_b7_27_22_0a_95;
impl Fx {
    #[inline]
    fn add(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(K); }
}
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c { self.add(u64::from_le_bytes(x.try_into().unwrap())); }
        let r = c.remainder();
        if !r.is_empty() {
            let mut x = [0u8; 8];
            x[..r.len()].copy_from_slice(r);
            self.add(u64::from_le_bytes(x));
        }
    }
    #[inline]
    fn write_u8(&mut self, v: u8) { self.add(v as u64) }
    #[inline]
    fn write_u32(&mut self, v: u32) { self.add(v as u64) }
    #[inline]
    fn write_u64(&mut self, v: u64) { self.add(v) }
    #[inline]
    fn write_usize(&mut self, v: usize) { self.add(v as u64) }
    #[inline]
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type Build = BuildHasherDefault<Fx>;
pub type Map<K, V> = HashMap<K, V, Build>;
pub type Set<K> = HashSet<K, Build>;
