//! Storage damage shared by the damage scenarios.
use crate::choice::Prng;
use crate::ctx::Cx;

/// Damage `data` at random; `hot` lists byte ranges that deserve extra attention.
pub fn storage(cx: &Cx, data: &[u8], hot: &[(usize, usize)]) -> (Vec<u8>, &'static str) {
    let mut d = data.to_vec();
    let n = d.len().max(1);
    let place = |cx: &Cx, len: usize| -> usize {
        if !hot.is_empty() && cx.chance(3, 5) {
            let (a, b) = hot[cx.usize(hot.len())];
            (a + cx.below((b - a).max(1) as u64) as usize).min(len.saturating_sub(1))
        } else {
            cx.usize(len.max(1))
        }
    };
    let kind = match cx.weighted(&[6, 4, 2, 2, 2, 2, 2, 2, 2, 1]) {
        0 => {
            let at = place(cx, n);
            d[at] ^= 1 << cx.below(8);
            "bit flip"
        }
        1 => {
            for _ in 0..cx.range(1, 4) {
                let at = place(cx, n);
                d[at] = d[at].wrapping_add(1 + cx.below(255) as u8);
            }
            "bytes changed"
        }
        2 => {
            let at = place(cx, n);
            let len = 1 + cx.magnitude((n - at).min(600) as u64 - 1).min(599) as usize;
            d.drain(at..(at + len).min(n));
            "bytes removed"
        }
        3 => {
            let at = place(cx, n);
            let len = 1 + cx.magnitude(600) as usize;
            let ins = match cx.below(3) {
                0 => vec![0; len],
                1 => Prng::new(cx.seed()).bytes(len),
                _ => d[at..(at + len).min(n)].to_vec(),
            };
            d.splice(at..at, ins);
            "bytes inserted"
        }
        4 => {
            d.truncate(cx.below(n as u64) as usize);
            "truncated"
        }
        5 => {
            // last few bytes lost
            let k = 1 + cx.below(80.min(n as u64)) as usize;
            d.truncate(n.saturating_sub(k));
            "tail lost"
        }
        6 => {
            let sec = cx.pick(&[16usize, 64, 512]);
            let at = place(cx, n) / sec * sec;
            let fill = if cx.chance(1, 2) { 0 } else { 0xff };
            let to = (at + sec).min(n);
            if d[at..to].iter().all(|b| *b == fill) {
                d[at] ^= 1;
            }
            d[at..to].fill(fill);
            "sector blanked"
        }
        7 => {
            let sec = cx.pick(&[16usize, 48, 64, 512]);
            let a = place(cx, n) / sec * sec;
            let b = place(cx, n) / sec * sec;
            if a + sec <= n && b + sec <= n {
                let x = d[a..a + sec].to_vec();
                let y = d[b..b + sec].to_vec();
                d[a..a + sec].copy_from_slice(&y);
                if cx.chance(1, 2) {
                    d[b..b + sec].copy_from_slice(&x);
                }
            }
            "sectors swapped"
        }
        8 => {
            // two flips in different places
            for _ in 0..2 {
                let at = place(cx, n);
                d[at] ^= 1 << cx.below(8);
            }
            "two bit flips"
        }
        _ => {
            let extra = 1 + cx.magnitude(200) as usize;
            let seed = cx.seed();
            d.extend_from_slice(&Prng::new(seed).bytes(extra));
            "data appended"
        }
    };
    (d, kind)
}
