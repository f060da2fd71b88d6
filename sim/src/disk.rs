//! The simulated disk: what a decoder reads is a base image after a sequence of storage faults.
//! A fault sequence is explicit data, so it can be written to a replay file and minimised.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "fault")]
pub enum Fault {
    /// the file ends early (interrupted copy, short read, lost tail)
    Trunc { at: usize },
    /// one stored bit flips
    Flip { at: usize, bit: u8 },
    /// one stored byte changes
    Set { at: usize, val: u8 },
    /// a range reads back as a constant (lost write: 0x00, erased flash: 0xff)
    Fill { at: usize, len: usize, val: u8 },
    /// a range holds stale contents
    Stale { at: usize, bytes: Vec<u8> },
    /// misdirected write: the range at `at` also lands on `dst`
    Dup { at: usize, len: usize, dst: usize },
    /// two ranges swapped (reordered blocks)
    Swap { a: usize, b: usize, len: usize },
    /// a range is missing, what follows moves up
    Drop { at: usize, len: usize },
    /// garbage spliced in, what follows moves down
    Splice { at: usize, bytes: Vec<u8> },
    /// the file continues past its end (stale preallocated blocks)
    Extend { bytes: Vec<u8> },
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Trunc { .. } => "truncate",
            Fault::Flip { .. } => "bit-flip",
            Fault::Set { .. } => "byte-set",
            Fault::Fill { .. } => "lost-write",
            Fault::Stale { .. } => "stale-block",
            Fault::Dup { .. } => "misdirected-write",
            Fault::Swap { .. } => "reordered-blocks",
            Fault::Drop { .. } => "missing-range",
            Fault::Splice { .. } => "spliced-garbage",
            Fault::Extend { .. } => "stale-tail",
        }
    }
    /// Applies the fault; false if it changed nothing.
    pub fn apply(&self, img: &mut Vec<u8>) -> bool {
        let n = img.len();
        let before = (n, crate::rng::fnv(img));
        match self {
            Fault::Trunc { at } => img.truncate(*at),
            Fault::Flip { at, bit } => {
                if *at < n {
                    img[*at] ^= 1 << (bit & 7)
                }
            }
            Fault::Set { at, val } => {
                if *at < n {
                    img[*at] = *val
                }
            }
            Fault::Fill { at, len, val } => {
                for i in *at..(at + len).min(n) {
                    img[i] = *val
                }
            }
            Fault::Stale { at, bytes } => {
                for (i, b) in bytes.iter().enumerate() {
                    if at + i < n {
                        img[at + i] = *b
                    }
                }
            }
            Fault::Dup { at, len, dst } => {
                for i in 0..*len {
                    if at + i < n && dst + i < n {
                        img[dst + i] = img[at + i]
                    }
                }
            }
            Fault::Swap { a, b, len } => {
                for i in 0..*len {
                    if a + i < n && b + i < n {
                        img.swap(a + i, b + i)
                    }
                }
            }
            Fault::Drop { at, len } => {
                if *at < n {
                    img.drain(*at..(at + len).min(n));
                }
            }
            Fault::Splice { at, bytes } => {
                let at = (*at).min(n);
                img.splice(at..at, bytes.iter().copied());
            }
            Fault::Extend { bytes } => img.extend_from_slice(bytes),
        }
        before != (img.len(), crate::rng::fnv(img))
    }
    /// Simpler variants of this fault.
    pub fn simpler(&self) -> Vec<Fault> {
        let mut v = vec![];
        match self {
            Fault::Fill { at, len, val } if *len > 1 => {
                v.push(Fault::Fill { at: *at, len: len / 2, val: *val });
                v.push(Fault::Fill { at: at + len / 2, len: len - len / 2, val: *val });
            }
            Fault::Fill { at, len: 1, val } => v.push(Fault::Set { at: *at, val: *val }),
            Fault::Stale { at, bytes } if bytes.len() > 1 => {
                let h = bytes.len() / 2;
                v.push(Fault::Stale { at: *at, bytes: bytes[..h].to_vec() });
                v.push(Fault::Stale { at: at + h, bytes: bytes[h..].to_vec() });
            }
            Fault::Stale { at, bytes } if bytes.len() == 1 => v.push(Fault::Set { at: *at, val: bytes[0] }),
            Fault::Dup { at, len, dst } if *len > 1 => {
                let h = len / 2;
                v.push(Fault::Dup { at: *at, len: h, dst: *dst });
                v.push(Fault::Dup { at: at + h, len: len - h, dst: dst + h });
            }
            Fault::Swap { a, b, len } if *len > 1 => {
                let h = len / 2;
                v.push(Fault::Swap { a: *a, b: *b, len: h });
                v.push(Fault::Swap { a: a + h, b: b + h, len: len - h });
            }
            Fault::Drop { at, len } if *len > 1 => {
                v.push(Fault::Drop { at: *at, len: len / 2 });
                v.push(Fault::Drop { at: *at, len: len - 1 });
            }
            Fault::Splice { at, bytes } if bytes.len() > 1 => {
                v.push(Fault::Splice { at: *at, bytes: bytes[..bytes.len() / 2].to_vec() })
            }
            Fault::Extend { bytes } if bytes.len() > 1 => {
                v.push(Fault::Extend { bytes: bytes[..bytes.len() / 2].to_vec() })
            }
            _ => {}
        }
        v
    }
}

/// Draws one fault for an image of `n` bytes. `hot` lists offsets where in-flight state is densest (field starts);
/// `stale` is another image whose blocks may show through.
pub fn draw(rng: &mut Rng, n: usize, hot: &[usize], stale: &[u8]) -> Fault {
    let n1 = n.max(1);
    let at = |rng: &mut Rng| -> usize {
        match rng.below(10) {
            0..=4 if !hot.is_empty() => (*rng.pick(hot)).min(n1 - 1),
            5 | 6 => rng.below(n1.min(300)),
            _ => rng.below(n1),
        }
    };
    let len = |rng: &mut Rng| -> usize {
        match rng.below(4) {
            0 | 1 => rng.range(1, 4),
            2 => rng.range(1, 16),
            _ => rng.range(1, 64),
        }
    };
    let interesting = [0u8, 1, 2, 3, 4, 5, 7, 8, 9, 16, 0x20, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    let some = |rng: &mut Rng, k: usize| -> Vec<u8> {
        if !stale.is_empty() && rng.chance(1, 2) {
            let s = rng.below(stale.len());
            stale[s..].iter().copied().take(k).collect()
        } else {
            (0..k).map(|_| if rng.chance(1, 2) { *rng.pick(&interesting) } else { rng.byte() }).collect()
        }
    };
    match rng.below(20) {
        0..=2 => {
            let p = match rng.below(3) {
                0 => at(rng),
                1 => n.saturating_sub(rng.range(1, 12)),
                _ => rng.below(n + 1),
            };
            Fault::Trunc { at: p }
        }
        3..=6 => Fault::Flip { at: at(rng), bit: rng.below(8) as u8 },
        7..=11 => {
            let val = if rng.chance(2, 3) { *rng.pick(&interesting) } else { rng.byte() };
            Fault::Set { at: at(rng), val }
        }
        12 => Fault::Fill { at: at(rng), len: len(rng), val: if rng.chance(2, 3) { 0 } else { 0xff } },
        13 => {
            let k = len(rng);
            let p = at(rng);
            Fault::Stale { at: p, bytes: some(rng, k) }
        }
        14 => Fault::Dup { at: at(rng), len: len(rng), dst: at(rng) },
        15 => Fault::Swap { a: at(rng), b: at(rng), len: len(rng) },
        16 => Fault::Drop { at: at(rng), len: len(rng) },
        17 => {
            let k = rng.range(1, 8);
            let p = at(rng);
            Fault::Splice { at: p, bytes: some(rng, k) }
        }
        _ => {
            let k = rng.range(1, 24);
            Fault::Extend { bytes: some(rng, k) }
        }
    }
}
