//! Stand-in for the `crc32fast` dependency in the symbolic build only: the same CRC-32 (IEEE, reflected), computed
//! without SIMD and without tables larger than 16 words.  The replay build links the real `crc32fast`, so every
//! sample/witness replay also compares this model with the real crate.

extern "C" {
    fn sym_is_phantom(p: *const u8) -> bool;
    fn sym_fresh_u32() -> u32;
}

const T: [u32; 16] = table();
const fn table() -> [u32; 16] {
    let mut t = [0u32; 16];
    let mut i = 0;
    while i < 16 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 4 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}

#[derive(Clone, Debug)]
pub struct Hasher {
    state: u32,
    amount: u64,
}

impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}

impl Hasher {
    pub fn new() -> Self {
        Self::new_with_initial(0)
    }
    pub fn new_with_initial(init: u32) -> Self {
        Hasher { state: !init, amount: 0 }
    }
    pub fn new_with_initial_len(init: u32, amount: u64) -> Self {
        Hasher { state: !init, amount }
    }
    pub fn update(&mut self, b: &[u8]) {
        self.amount = self.amount.wrapping_add(b.len() as u64);
        // Contents-free memory of symbolic length (zip64 harnesses): the hash becomes an unconstrained value.
        if unsafe { sym_is_phantom(b.as_ptr()) } {
            self.state = unsafe { sym_fresh_u32() };
            return;
        }
        let mut s = self.state;
        let mut i = 0;
        while i < b.len() {
            s ^= b[i] as u32;
            s = T[(s & 15) as usize] ^ (s >> 4);
            s = T[(s & 15) as usize] ^ (s >> 4);
            i += 1;
        }
        self.state = s;
    }
    pub fn finalize(self) -> u32 {
        !self.state
    }
    pub fn reset(&mut self) {
        self.state = !0;
        self.amount = 0;
    }
}

pub fn hash(b: &[u8]) -> u32 {
    let mut h = Hasher::new();
    h.update(b);
    h.finalize()
}
