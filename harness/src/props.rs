//! The postconditions of the properties, evaluated on concrete executions.
use crate::rng::R;
use crate::{ensure, guard, Family};
use bitvec::prelude::*;

type Res = Result<(), String>;

pub fn families(p: &str) -> Vec<Family> {
    macro_rules! fam {
        ($n:expr, $fixed:expr, $rand:expr, $f:expr) => {
            Family { name: $n, fixed: $fixed, random: $rand, run: $f }
        };
    }
    match p {
        "C01" => vec![fam!("large", 10, false, c01_large), fam!("round_trip", 60, true, c01_round_trip)],
        #[cfg(sia_verif)]
        "C02" => vec![fam!("large", 9, false, hooked::c02_large), fam!("domain", 400, true, hooked::c02_domain), fam!("order", 600, true, hooked::c02_order)],
        #[cfg(not(sia_verif))]
        "C02" => vec![],
        #[cfg(sia_verif)]
        "C03" => vec![fam!("large", 10, false, hooked::c03_large), fam!("used", 1200, true, hooked::c03_used), fam!("capacity", 2000, true, hooked::c03_capacity)],
        #[cfg(not(sia_verif))]
        "C03" => vec![],
        "C04" => {
            let mut v = vec![fam!("fits", 260, true, c04_fits), fam!("small", 200, false, c04_small), fam!("long", 6, false, c04_long), fam!("fits_large", 24, false, c04_fits_large)];
            #[cfg(sia_verif)]
            v.push(fam!("domain_write", 200, true, hooked::c04_domain_write));
            v
        }
        "C05" => vec![fam!("tables", 5 + 87, false, c05_tables), fam!("round_trip", 700, true, c05_round_trip), fam!("damage", 160, true, c05_damage), fam!("long", 40, true, c05_long)],
        "C06" => vec![fam!("selection", 70_000, true, c06_selection)],
        #[cfg(sia_verif)]
        "C07" => vec![fam!("trailing", 12, false, hooked::c07_trailing), fam!("record", 800, true, hooked::c07_record), fam!("long", 60, true, hooked::c07_long)],
        #[cfg(not(sia_verif))]
        "C07" => vec![],
        #[cfg(sia_verif)]
        "C08" => vec![fam!("trailing", 24, false, hooked::c08_trailing), fam!("frame", 700, true, hooked::c08_frame), fam!("long", 20, true, hooked::c08_long)],
        #[cfg(not(sia_verif))]
        "C08" => vec![],
        "C09" => vec![fam!("large", 16, false, c09_large), fam!("restore", 3000, true, c09_restore)],
        "C10" => vec![fam!("large", 16, false, c10_large), fam!("quantize", 3000, true, c10_quantize)],
        "C11" => vec![fam!("large", 40, false, c11_large), fam!("pack", 700, true, c11_pack), fam!("unpack", 700, true, c11_unpack)],
        "C12" => vec![fam!("large", 16, false, c12_large), fam!("u16", 600, true, c12_u16), fam!("i64", 600, true, c12_i64)],
        "C13" => vec![
            fam!("large", 16, false, c13_large),
            fam!("round_trip", 600, true, c13_round_trip),
            fam!("short", 1 + 128 + 128 * 128, false, c13_short),
            fam!("text", 400, true, c13_text),
        ],
        "C14" => vec![fam!("large", 24, false, c14_large), fam!("sign", 64, true, c14_sign), fam!("verify", 200, true, c14_verify), fam!("malformed", 120, true, c14_malformed), fam!("generated", 8, true, c14_generated)],
        #[cfg(sia_verif)]
        "C15" => vec![
            fam!("large", 16, false, hooked::c15_large),
            fam!("inverse", 150, true, hooked::c15_inverse),
            fam!("blocks", 150, true, hooked::c15_blocks),
            fam!("local", 150, true, hooked::c15_local),
        ],
        #[cfg(not(sia_verif))]
        "C15" => vec![],
        "C16" => vec![fam!("image", 24, true, c16_image), fam!("large", 6, true, c16_large)],
        "C17" => vec![fam!("square", 60, true, c17_square), fam!("any_shape", 120, true, c17_any), fam!("large", 16, true, c17_large)],
        #[cfg(sia_verif)]
        "C18" => vec![fam!("payload", 8, true, hooked::c18_payload), fam!("judge", 16, true, hooked::c18_judge)],
        #[cfg(sia_verif)]
        "C19" => vec![fam!("authentic", 9, true, hooked::c19_case)],
        #[cfg(not(sia_verif))]
        "C18" | "C19" => vec![],
        #[cfg(feature = "web")]
        "C22" => vec![fam!("binding", 12, true, c22_binding), fam!("refused", 24, true, c22_refused)],
        "C21" => vec![fam!("tool", 14, true, c21_tool)],
        _ => vec![],
    }
}

fn rnd(family: u64, idx: u64) -> R {
    R::new(family.wrapping_mul(0x1000_0000_01b3) ^ idx)
}

fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() > 40 {
        format!("{:?}.. ({} items)", &v[..40], v.len())
    } else {
        format!("{:?}", v)
    }
}

/// (bytes of data, bytes of codeword) for a capacity; from the documentation of the codes.
pub fn code_for(capacity: usize) -> Option<(usize, usize)> {
    if capacity < 16 {
        None
    } else if capacity < 32 {
        Some((8, 16))
    } else if capacity < 64 {
        Some((16, 32))
    } else if capacity < 256 {
        Some((32, 64))
    } else if capacity < 1024 {
        Some((128, 256))
    } else {
        Some((512, 1024))
    }
}

/// Longest payload (without the 2-byte frame) whose codewords fit the capacity.
fn max_payload(capacity: usize) -> Option<usize> {
    let (k, n) = code_for(capacity)?;
    let words = capacity / n;
    Some((words * k).checked_sub(4)?.min(65533))
}

// ---------------------------------------------------------------------- C01, C04
use ndarray::Array2;

fn image(r: &mut R, w: usize, h: usize, lo: f64, hi: f64) -> Array2<u8> {
    let lo = lo.ceil().max(0.) as usize;
    let hi = hi.floor().min(255.) as usize;
    let kind = r.below(5);
    let a = r.f(0., 7.);
    let c = lo + r.below(hi - lo + 1);
    let mut img = Array2::<u8>::zeros((w, h));
    for i in 0..w {
        for j in 0..h {
            let v = match kind {
                0 => c,
                1 => {
                    let t = (((i as f64) * 0.13 + a).sin() + ((j as f64) * 0.07).cos() + 2.) / 4.;
                    lo + ((hi - lo) as f64 * t) as usize
                }
                2 => {
                    if (i / 3 + j / 5) % 2 == 0 {
                        lo
                    } else {
                        hi
                    }
                }
                _ => lo + r.below(hi - lo + 1),
            };
            img[[i, j]] = v.min(hi) as u8;
        }
    }
    img
}

fn c01_round_trip(idx: u64) -> Res {
    let mut r = rnd(1, idx);
    let levels = 1 + (idx % 4) as usize;
    let s = 1usize << levels;
    // sub-band shapes: square, wide, tall, and ones right at the code boundaries
    let shapes = [(16, 16), (8, 16), (16, 8), (32, 8), (8, 32), (11, 23), (23, 11), (40, 13), (13, 40), (1, 130), (130, 1), (2, 70), (45, 46)];
    let (mut a, mut b) = if r.below(3) > 0 { *r.pick(&shapes) } else { (r.range(1, 48), r.range(1, 48)) };
    if levels == 4 && a * b > 600 {
        a = 12;
        b = 12 + r.below(8);
    }
    if a * b < 128 {
        b = 128 / a + 1 + r.below(3);
    }
    c01_case(&mut r, a, b, levels)
}

/// Sub-bands and payloads beyond every 8- and 16-bit count, and more levels.
fn c01_large(idx: u64) -> Res {
    let mut r = rnd(101, idx);
    let (a, b, levels) = [(512, 512, 1), (300, 700, 1), (700, 300, 1), (1, 70000, 1), (70000, 1, 1), (255, 260, 2), (16, 24, 5), (24, 16, 6), (12, 18, 7), (128, 520, 2)][idx as usize];
    c01_case(&mut r, a, b, levels)
}

fn c01_case(r: &mut R, a: usize, b: usize, levels: usize) -> Res {
    let s = 1usize << levels;
    let (w, h) = (a * s, b * s);
    let cap = a * b / 8;
    let fit = match max_payload(cap) {
        Some(f) if f > 0 => f,
        _ => return Ok(()),
    };
    let len = match r.below(4) {
        0 => fit,
        1 => 1,
        _ => r.range(1, fit),
    };
    let payload = r.bytes(len);
    let depth = match r.below(4) {
        0 => 2.5 * s as f64,
        1 => 10. * s as f64,
        _ => r.f(2.5, 100.) * s as f64,
    };
    let m = 0.75 * depth / s as f64 + 1.;
    let img = image(r, w, h, m, 255. - m);
    let input = format!("{}x{} image, levels {}, depth {}, payload {}", w, h, levels, depth, short(&payload));
    let em = guard(|| embedding::embed(img.clone(), payload.clone(), depth, levels)).map_err(|p| format!("{}: embed panicked: {}", input, p))?;
    ensure!(em.dim() == (w, h), "{}: embedded image has dimensions {:?}", input, em.dim());
    let bound = 0.75 * depth / s as f64 + 0.5 + 1e-6;
    for (x, y) in img.iter().zip(em.iter()) {
        ensure!((*x as f64 - *y as f64).abs() <= bound, "{}: a pixel moved from {} to {}", input, x, y);
    }
    let out = guard(|| embedding::extract(em, depth, levels)).map_err(|p| format!("{}: extract panicked: {}", input, p))?;
    ensure!(out == payload, "{}: extracted {}", input, short(&out));
    Ok(())
}

fn embed_case(w: usize, h: usize, levels: usize, payload: &[u8], depth: f64) -> Result<Array2<u8>, String> {
    let img = Array2::<u8>::from_elem((w, h), 128);
    guard(|| embedding::embed(img, payload.to_vec(), depth, levels))
}

fn c04_fits(idx: u64) -> Res {
    let mut r = rnd(4, idx);
    let levels = r.range(1, 3);
    let caps = [16, 17, 31, 32, 33, 47, 63, 64, 65, 127, 128, 191, 192, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048];
    let cap = if r.below(4) > 0 { *r.pick(&caps) } else { r.range(16, 1300) };
    c04_case(&mut r, cap, levels)
}

fn c04_fits_large(idx: u64) -> Res {
    let mut r = rnd(42, idx);
    let caps = [4096, 8191, 8192, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 100000];
    c04_case(&mut r, caps[idx as usize % 12], 1)
}

fn c04_case(r: &mut R, cap: usize, levels: usize) -> Res {
    let s = 1usize << levels;
    // a sub-band with about this many bits
    let a = if r.bool() { r.range(1, 40) } else { (((cap * 8) as f64).sqrt() as usize).max(1) };
    let b = (cap * 8 + a - 1) / a;
    let cap = a * b / 8;
    let fit = max_payload(cap);
    let bound = fit.unwrap_or(0);
    let len = match r.below(6) {
        0 => bound,
        1 => bound + 1,
        2 => bound.saturating_sub(1),
        3 => bound + r.range(2, 600),
        4 => bound + cap,
        _ => r.below(bound + 1),
    };
    let payload = r.rbytes(len);
    let depth = 4. * s as f64;
    let fits = fit.is_some() && len <= bound;
    let res = embed_case(a * s, b * s, levels, &payload, depth);
    let input = format!("{}x{} sub-band ({} bytes), levels {}, payload of {} bytes", a, b, cap, levels, len);
    match (fits, res) {
        (true, Err(p)) => Err(format!("{}: refused although it fits: {}", input, p)),
        (false, Ok(_)) => Err(format!("{}: accepted although at most {:?} bytes fit", input, fit)),
        _ => Ok(()),
    }
}

fn c04_small(idx: u64) -> Res {
    // sub-bands of less than 16 bytes, whatever the payload
    let mut r = rnd(44, idx);
    let a = r.range(1, 12);
    let b = r.range(1, (127 / a).max(1)).min(127 / a).max(1);
    if a * b >= 128 {
        return Ok(());
    }
    let levels = r.range(1, 3);
    let s = 1 << levels;
    let len = r.below(20);
    let payload = r.rbytes(len);
    match embed_case(a * s, b * s, levels, &payload, 40.) {
        Ok(_) => Err(format!("{}x{} sub-band holds {} bytes, accepted a payload of {} bytes", a, b, a * b / 8, len)),
        Err(_) => Ok(()),
    }
}

fn c04_long(idx: u64) -> Res {
    // the largest payloads, in a sub-band of 1024 x 1064 coefficients
    let len = [65533usize, 65534, 65535, 65536, 65537, 70000][idx as usize];
    let mut r = rnd(45, idx);
    let payload = r.rbytes(len);
    let (w, h) = (2048, 2128);
    let res = embed_case(w, h, 1, &payload, 20.);
    match (len + 2 <= 65535, res) {
        (true, Err(p)) => Err(format!("payload of {} bytes in a {}x{} image refused: {}", len, w, h, p)),
        (false, Ok(_)) => Err(format!("payload of {} bytes accepted, the format records at most 65535", len)),
        (true, Ok(em)) => {
            let out = guard(|| embedding::extract(em, 20., 1)).map_err(|p| format!("extract of {} bytes panicked: {}", len, p))?;
            ensure!(out == payload, "payload of {} bytes is not what is extracted", len);
            Ok(())
        }
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------------- C05, C06
fn capacity(r: &mut R) -> usize {
    match r.below(4) {
        0 => *r.pick(&[16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4096, 8192, usize::MAX, usize::MAX / 8, usize::MAX / 8 + 1]),
        1 => r.range(16, 70),
        2 => r.range(16, 1100),
        _ => r.range(16, 20000),
    }
}

fn c05_round_trip(idx: u64) -> Res {
    let mut r = rnd(5, idx);
    let cap = capacity(&mut r);
    let (k, _) = code_for(cap).unwrap();
    let len = match r.below(8) {
        0 => (idx % 5) as usize,
        1 => k - 2,
        2 => k - 1,
        3 => 2 * k - 2 + r.below(3),
        4 => r.below(600),
        5 => 254 + r.below(6),
        _ => r.below(3 * k + 10),
    };
    let input = r.bytes(len);
    round(&mut r, input, cap)
}

fn round(r: &mut R, input: Vec<u8>, cap: usize) -> Res {
    let d = format!("capacity {}, input {}", cap, short(&input));
    let mut enc = guard(|| encoding::encode(input.clone(), cap)).map_err(|p| format!("{}: encode panicked: {}", d, p))?;
    let out = guard(|| encoding::decode(enc.clone(), cap)).map_err(|p| format!("{}: decode panicked: {}", d, p))?;
    ensure!(out == input, "{}: decoded {}", d, short(&out));
    let (_, n) = code_for(cap).unwrap();
    let more = match r.below(4) {
        0 => r.range(1, n - 1),
        1 => n,
        2 => n - 1,
        _ => r.range(1, 3 * n),
    };
    let tail = r.bytes(more);
    enc.extend_from_slice(&tail);
    let out = guard(|| encoding::decode(enc.clone(), cap)).map_err(|p| format!("{}, followed by {} bytes: decode panicked: {}", d, more, p))?;
    ensure!(out == input, "{}, followed by {} bytes: decoded {}", d, more, short(&out));
    Ok(())
}

fn c05_long(idx: u64) -> Res {
    let mut r = rnd(51, idx);
    let len = match idx {
        0 => 65535,
        1 => 65534,
        2 => 65536,
        3 => 65537,
        4 => 131072,
        5 => 32768,
        6 => 32767,
        _ => r.range(1000, 66000),
    };
    let cap = *r.pick(&[16, 40, 64, 300, 1024, 5000, 140000]);
    let input = r.rbytes(len);
    if len <= 65535 {
        round(&mut r, input, cap)
    } else {
        match guard(|| encoding::encode(input, cap)) {
            Ok(e) => Err(format!("capacity {}: {} bytes are encoded to {} bytes instead of being refused", cap, len, e.len())),
            Err(_) => Ok(()),
        }
    }
}

fn ldpc(cap: usize) -> labrador_ldpc::LDPCCode {
    use labrador_ldpc::LDPCCode::*;
    match code_for(cap).unwrap().1 {
        16 => TC128,
        32 => TC256,
        64 => TC512,
        256 => TM2048,
        _ => TM8192,
    }
}

fn c05_damage(idx: u64) -> Res {
    let mut r = rnd(52, idx);
    let cap = capacity(&mut r);
    let (k, n) = code_for(cap).unwrap();
    let len = r.range(1, 2 * k + 20);
    let input = r.rbytes(len);
    let d = format!("capacity {}, input {}", cap, short(&input));
    let enc = guard(|| encoding::encode(input.clone(), cap)).map_err(|p| format!("{}: encode panicked: {}", d, p))?;
    let code = ldpc(cap);
    let mut damaged = enc.clone();
    let mut at = vec![];
    for (i, w) in enc.chunks_exact(n).enumerate() {
        let mut x = w.to_vec();
        let mut hits = vec![];
        for _ in 0..r.range(0, if n > 200 { 9 } else { 3 }) {
            let bit = r.below(n * 8);
            x[bit / 8] ^= 1 << (bit % 8);
            hits.push(bit);
        }
        // only damage that the code itself corrects
        let mut data = vec![0u8; code.output_len()];
        let mut work = vec![0u8; code.decode_bf_working_len()];
        code.decode_bf(&x, &mut data, &mut work, 20);
        if data[..k] == w[..k] {
            damaged[i * n..(i + 1) * n].copy_from_slice(&x);
            at.push((i, hits));
        }
    }
    let out = guard(|| encoding::decode(damaged, cap)).map_err(|p| format!("{}, bits flipped {:?}: decode panicked: {}", d, at, p))?;
    ensure!(out == input, "{}, correctable bits flipped {:?}: decoded {}", d, at, short(&out));
    Ok(())
}

// the facts on the parity checks and the generators of the five codes that the proof takes as given, all of them
fn c05_tables(idx: u64) -> Res {
    use labrador_ldpc::LDPCCode::*;
    let codes = [TC128, TC256, TC512, TM2048, TM8192];
    let (code, chunk) = match idx {
        0..=4 => (codes[idx as usize], None),
        5 => (TC128, Some(0)),
        6..=7 => (TC256, Some(idx as usize - 6)),
        8..=11 => (TC512, Some(idx as usize - 8)),
        12..=27 => (TM2048, Some(idx as usize - 12)),
        _ => (TM8192, Some(idx as usize - 28)),
    };
    let (n, p) = (code.n(), code.punctured_bits());
    let edges: Vec<(usize, usize)> = code.iter_paritychecks().collect();
    let mut lost = vec![0; n + p];
    let mut degree = vec![0; n + p];
    for &(c, v) in &edges {
        ensure!(c < n + p && v < n + p, "{:?}: pair {:?}", code, (c, v));
        degree[v] += 1;
        if v >= n {
            lost[c] += 1;
        }
    }
    let mut at = vec![None; n + p];
    for &(c, v) in &edges {
        if v >= n && lost[c] == 1 {
            at[v] = Some(c);
        }
    }
    let Some(chunk) = chunk else {
        ensure!(edges.clone() == code.iter_paritychecks().collect::<Vec<_>>(), "{:?}: different pairs", code);
        ensure!(degree.iter().all(|d| *d <= 7), "{:?}: {:?}", code, degree);
        ensure!((n..n + p).all(|v| at[v].is_some()), "{:?}: a bit without a check of its own", code);
        return Ok(());
    };
    for j in 64 * chunk..64 * chunk + 64 {
        let mut data = vec![0u8; code.k() / 8];
        data[j / 8] = 1 << (7 - j % 8);
        let mut word = vec![0u8; n / 8];
        code.copy_encode(&data, &mut word);
        ensure!(word[..code.k() / 8] == data[..], "{:?}: bit {}", code, j);
        let mut bits: Vec<bool> = (0..n + p).map(|v| v < n && word[v / 8] >> (7 - v % 8) & 1 == 1).collect();
        let mut sum = vec![false; n + p];
        for &(c, v) in &edges {
            sum[c] ^= bits[v];
        }
        for v in n..n + p {
            bits[v] = sum[at[v].unwrap()];
        }
        let mut sum = vec![false; n + p];
        for &(c, v) in &edges {
            sum[c] ^= bits[v];
        }
        ensure!(!sum.contains(&true), "{:?}: the word of bit {} fails a check", code, j);
    }
    Ok(())
}

fn c06_selection(idx: u64) -> Res {
    let big = [usize::MAX, usize::MAX - 1, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 8 - 1, 1 << 61, (1 << 61) - 1, 1 << 62, 1 << 60];
    let mut r = rnd(6, idx);
    let c = if idx < 9 {
        big[idx as usize]
    } else if idx < 70_000 {
        idx as usize - 9
    } else {
        (r.u64() >> r.below(64)) as usize
    };
    let sel = |c: usize| guard(move || encoding::get_code_by_codeword_length(c).map(|x| (x.k() / 8, x.n() / 8)));
    let a = sel(c).map_err(|p| format!("capacity {}: panicked: {}", c, p))?;
    ensure!(a.is_some() == (c >= 16), "capacity {}: selected {:?}", c, a);
    if let Some((_, n)) = a {
        ensure!(n <= c, "capacity {}: codeword of {} bytes", c, n);
        for d in [c.saturating_add(1), c.saturating_mul(2), usize::MAX] {
            let b = sel(d).map_err(|p| format!("capacity {}: panicked: {}", d, p))?;
            ensure!(b.map_or(0, |x| x.1) >= n, "capacity {} selects {} bytes, the larger {} selects {:?}", c, n, d, b);
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C09, C10, C11
const LENGTHS: [usize; 16] = [255, 256, 257, 1000, 4096, 8192, 10923, 21846, 32768, 65535, 65536, 65537, 70000, 100_000, 131_073, 200_000];

fn feature_list(r: &mut R, idx: u64) -> (Vec<f64>, f64) {
    let n = if idx % 7 == 0 { 0 } else { r.range(1, 40) };
    feature_list_of(r, n)
}

fn feature_list_of(r: &mut R, n: usize) -> (Vec<f64>, f64) {
    let steps = [1., 0.5, 0.03, 0.125, 0.256, 1.125, std::f64::consts::PI, 10., 100., 0.001, 4096., 1e-3, 1e6];
    let step = if r.below(4) > 0 { *r.pick(&steps) } else { r.f(0.001, 1000.) };
    let mut f = vec![];
    for _ in 0..n {
        f.push(match r.below(11) {
            // close to the middle or an end of an interval
            9 => step * (r.below(2001) as f64 - 1000. + 0.5 + r.f(-1., 1.) * *r.pick(&[1e-8, 1e-10, 1e-12, 1e-14])),
            10 => step * (r.below(2001) as f64 - 1000. + r.f(-1., 1.) * *r.pick(&[1e-8, 1e-10, 1e-12, 1e-14])),
            0 => 0.,
            1 => step * (r.below(21) as f64 - 10.),
            2 => step * (r.below(21) as f64 - 10. + 0.5),
            3 => r.f(-8., 8.) * step,
            4 => r.f(-1., 1.) * step * 1073741823.,
            5 => r.f(-1e5, 1e5) * step,
            6 => {
                let x = step * (r.below(9) as f64 - 4.);
                f64::from_bits(x.to_bits().wrapping_add(if x == 0. { 0 } else { r.below(5) as u64 }).wrapping_sub(if x == 0. { 0 } else { 2 }))
            }
            7 => -r.f(0., 1e-9) * step,
            _ => r.f(-40., 40.) * step,
        });
    }
    (f, step)
}

fn c09_restore(idx: u64) -> Res {
    let mut r = rnd(9, idx);
    let (f, step) = feature_list(&mut r, idx);
    c09_case(&mut r, f, step)
}

fn c09_large(idx: u64) -> Res {
    let mut r = rnd(91, idx);
    let (f, step) = feature_list_of(&mut r, LENGTHS[idx as usize % 16]);
    c09_case(&mut r, f, step)
}

fn c09_case(r: &mut R, f: Vec<f64>, step: f64) -> Res {
    let d = format!("features {}, step {}", short(&f), step);
    let (q, p) = guard(|| three_bit_quantization::three_bit_quantization(&f, step)).map_err(|e| format!("{}: quantization panicked: {}", d, e))?;
    let mode = r.below(6);
    let noised: Vec<f64> = f
        .iter()
        .map(|x| {
            let u = match mode {
                0 => 0.,
                1 => 0.999,
                2 => -0.999,
                3 => *r.pick(&[0.999, -0.999, 0.5, -0.5, 0.25, -0.25, 0.9, -0.9]),
                _ => r.f(-0.999, 0.999),
            };
            x + u * step
        })
        .collect();
    let out = guard(|| three_bit_quantization::three_bit_dequantization(&noised, &p, step)).map_err(|e| format!("{}, noised {}: dequantization panicked: {}", d, short(&noised), e))?;
    if out != q {
        let i = (0..out.len().min(q.len())).find(|i| out[*i] != q[*i]).unwrap_or(out.len().min(q.len()));
        return Err(format!("{}, noised {}: restored {} values for {}, the first difference is at {}: {:?} instead of {:?} (feature {:?}, noised {:?})", d, short(&noised), out.len(), q.len(), i, out.get(i), q.get(i), f.get(i), noised.get(i)));
    }
    Ok(())
}

fn c10_quantize(idx: u64) -> Res {
    let mut r = rnd(10, idx);
    let (f, step) = feature_list(&mut r, idx);
    c10_case(f, step)
}

fn c10_large(idx: u64) -> Res {
    let mut r = rnd(110, idx);
    let (f, step) = feature_list_of(&mut r, LENGTHS[idx as usize % 16]);
    c10_case(f, step)
}

fn c10_case(f: Vec<f64>, step: f64) -> Res {
    let d = format!("features {}, step {}", short(&f), step);
    let (q, p) = guard(|| three_bit_quantization::three_bit_quantization(&f, step)).map_err(|e| format!("{}: panicked: {}", d, e))?;
    ensure!(q.len() == f.len(), "{}: {} quantized features", d, q.len());
    ensure!(p.len() == 3 * f.len(), "{}: {} perturbation bits", d, p.len());
    for i in 0..f.len() {
        let e = (f[i] / step).floor() as i64;
        ensure!(q[i] == e, "{}: feature {} is quantized to {} instead of {}", d, f[i], q[i], e);
        let middle = step * (e as f64 + 0.5);
        ensure!(p[3 * i + 2] == (f[i] >= middle), "{}: third bit of feature {} is {}", d, f[i], p[3 * i + 2]);
    }
    // one code for each residue modulo four, and different ones
    let mut code: [Option<((bool, bool), usize)>; 4] = [None; 4];
    for i in 0..f.len() {
        let c = (p[3 * i], p[3 * i + 1]);
        let k = q[i].rem_euclid(4) as usize;
        for m in 0..4 {
            if let Some((o, j)) = code[m] {
                ensure!((o == c) == (m == k), "{}: intervals {} and {}: first two bits {:?} and {:?}", d, q[i], q[j], c, o);
            }
        }
        code[k] = Some((c, i));
    }
    Ok(())
}

pub fn bits(r: &mut R, n: usize) -> BitVec<u8, Lsb0> {
    let k = r.below(4);
    let mut v: BitVec<u8, Lsb0> = BitVec::new();
    for i in 0..n {
        v.push(match k {
            0 => i % 2 == 0,
            1 => true,
            _ => r.bool(),
        });
    }
    match r.below(4) {
        // the same bits with other bits in the unused part of the storage
        0 => {
            let mut w = v.clone();
            for _ in 0..r.range(1, 9) {
                w.push(true);
            }
            w.truncate(n);
            w
        }
        // .. or not starting at the first bit of the storage
        1 => {
            let mut w: BitVec<u8, Lsb0> = BitVec::new();
            let h = r.range(1, 7);
            for _ in 0..h {
                w.push(true);
            }
            w.extend_from_bitslice(&v);
            w[h..].to_bitvec()
        }
        _ => v,
    }
}

fn c11_pack(idx: u64) -> Res {
    let mut r = rnd(11, idx);
    let n = if idx < 300 { idx as usize } else { r.below(2000) };
    c11_pack_case(&mut r, n)
}

fn c11_large(idx: u64) -> Res {
    let mut r = rnd(112, idx);
    let l = [2040, 2041, 2047, 2048, 2049, 4096, 8193, 32767, 32768, 65528, 65535, 65536, 65537, 65544, 70001, 131_072, 524_280, 524_288, 524_297, 1_000_001];
    let n = l[idx as usize % 20];
    if idx < 20 {
        c11_pack_case(&mut r, n)
    } else {
        let more = [1, 255, 256, 8192, 65536, 70000][r.below(6)];
        c11_unpack_case(&mut r, n, more)
    }
}

fn c11_pack_case(r: &mut R, n: usize) -> Res {
    let v = bits(r, n);
    let d = format!("{} bits {}", n, v.iter().map(|b| if *b { '1' } else { '0' }).take(400).collect::<String>());
    let bytes = guard(|| three_bit_quantization::perturbation_vector_as_bytes(&v)).map_err(|p| format!("{}: packing panicked: {}", d, p))?;
    ensure!(bytes.len() == (n + 7) / 8, "{}: packed to {} bytes", d, bytes.len());
    let back = guard(|| three_bit_quantization::perturbation_vector_from_bytes(&bytes, n)).map_err(|p| format!("{}: unpacking panicked: {}", d, p))?;
    ensure!(back == v, "{}: unpacked {} bits, the first difference is at {:?}", d, back.len(), (0..n.min(back.len())).find(|i| back[*i] != v[*i]));
    Ok(())
}

fn c11_unpack(idx: u64) -> Res {
    let mut r = rnd(111, idx);
    let n = if idx < 300 { idx as usize } else { r.below(1500) };
    let more = if r.below(6) == 0 { r.range(200, 9000) } else { r.below(5) };
    c11_unpack_case(&mut r, n, more)
}

fn c11_unpack_case(r: &mut R, n: usize, more: usize) -> Res {
    let v = bits(r, n);
    let d = format!("bits {}", v.iter().map(|b| if *b { '1' } else { '0' }).take(400).collect::<String>());
    let mut bytes = guard(|| three_bit_quantization::perturbation_vector_as_bytes(&v)).map_err(|p| format!("{}: packing panicked: {}", d, p))?;
    // bits beyond the length, then bytes beyond it
    if n % 8 != 0 && !bytes.is_empty() {
        let k = bytes.len() - 1;
        let mut w: BitVec<u8, Lsb0> = BitVec::new();
        w.extend_from_bitslice(&v);
        for _ in n..8 * ((n + 7) / 8) {
            w.push(r.bool());
        }
        let w = guard(|| three_bit_quantization::perturbation_vector_as_bytes(&w)).map_err(|p| format!("{}: packing panicked: {}", d, p))?;
        ensure!(w.len() == k + 1, "{}: packed to {} bytes", d, w.len());
        bytes = w;
    }
    bytes.extend(r.rbytes(more));
    let back = guard(|| three_bit_quantization::perturbation_vector_from_bytes(&bytes, n)).map_err(|p| format!("{}: unpacking {} bits of {} panicked: {}", d, n, short(&bytes), p))?;
    ensure!(back == v, "{}: unpacking {} bits of the bytes {} yields {} bits, the first difference is at {:?}", d, n, short(&bytes), back.len(), (0..n.min(back.len())).find(|i| back[*i] != v[*i]));
    Ok(())
}

// ------------------------------------------------------------------------- C12, C13
fn c12_large(idx: u64) -> Res {
    let mut r = rnd(120, idx);
    let n = [8191, 8192, 8193, 32767, 32768, 65536, 65537, 100_000][idx as usize / 2];
    if idx % 2 == 0 { c12_u16_case(&mut r, n) } else { c12_i64_case(&mut r, n) }
}

fn c12_u16(idx: u64) -> Res {
    let mut r = rnd(12, idx);
    let n = if idx < 40 { idx as usize } else { r.below(300) };
    c12_u16_case(&mut r, n)
}

fn c12_u16_case(r: &mut R, n: usize) -> Res {
    let v: Vec<u16> = (0..n).map(|_| match r.below(4) { 0 => *r.pick(&[0, 1, 255, 256, 32767, 32768, 65535, 0x1234]), _ => r.u64() as u16 }).collect();
    let d = format!("list {}", short(&v));
    let b = guard(|| utils::bytes::vec_u16_to_bytes(&v)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    let e: Vec<u8> = v.iter().flat_map(|x| vec![(*x & 255) as u8, (*x >> 8) as u8]).collect();
    ensure!(b == e, "{}: bytes {}", d, short(&b));
    let back = guard(|| utils::bytes::vec_u16_from_bytes(&b)).map_err(|p| format!("{}: back: panicked: {}", d, p))?;
    ensure!(back == v, "{}: back {}", d, short(&back));
    Ok(())
}

fn c12_i64(idx: u64) -> Res {
    let mut r = rnd(13, idx);
    let n = if idx < 40 { idx as usize } else { r.below(300) };
    c12_i64_case(&mut r, n)
}

fn c12_i64_case(r: &mut R, n: usize) -> Res {
    let v: Vec<i64> = (0..n).map(|_| match r.below(4) { 0 => *r.pick(&[0, 1, -1, i64::MIN, i64::MAX, 255, 256, -256, 0x0102030405060708]), 1 => r.u64() as i64 >> r.below(64), _ => r.u64() as i64 }).collect();
    let d = format!("list {}", short(&v));
    let b = guard(|| utils::bytes::vec_i64_to_bytes(&v)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    let e: Vec<u8> = v.iter().flat_map(|x| (0..8).map(|k| (*x >> (8 * k)) as u8).collect::<Vec<u8>>()).collect();
    ensure!(b == e, "{}: bytes {}", d, short(&b));
    let back = guard(|| utils::bytes::vec_i64_from_bytes(&b)).map_err(|p| format!("{}: back: panicked: {}", d, p))?;
    ensure!(back == v, "{}: back {}", d, short(&back));
    Ok(())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{}{}", char::from_digit((*x >> 4) as u32, 16).unwrap(), char::from_digit((*x & 15) as u32, 16).unwrap())).collect()
}

fn c13_round_trip(idx: u64) -> Res {
    let mut r = rnd(14, idx);
    let b = if idx < 256 { vec![idx as u8] } else { let n = r.below(200); r.bytes(n) };
    c13_case(&mut r, b)
}

fn c13_large(idx: u64) -> Res {
    let mut r = rnd(140, idx);
    let n = [255, 256, 257, 1024, 32767, 32768, 65536, 100_000][idx as usize % 8];
    let b = r.rbytes(n);
    if idx < 8 {
        return c13_case(&mut r, b);
    }
    // a long text with one wrong character, or one too many
    let mut t = hex(&b).into_bytes();
    let i = r.below(t.len());
    if r.bool() {
        t[i] = *r.pick(b"gG+- /:@`");
    } else {
        t.push(b'0');
    }
    hex_decode(&String::from_utf8(t).unwrap())
}

fn c13_case(r: &mut R, b: Vec<u8>) -> Res {
    let d = format!("bytes {}", short(&b));
    let h = guard(|| utils::format::encode_hex(&b)).map_err(|p| format!("{}: encode panicked: {}", d, p))?;
    ensure!(h == hex(&b), "{}: hex {:?}", d, h.chars().take(300).collect::<String>());
    let mut t = h.clone();
    if r.bool() {
        t = h.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect();
    }
    hex_decode(&t)
}

fn hex_decode(t: &str) -> Res {
    let expect: Option<Vec<u8>> = if t.len() % 2 == 0 && t.bytes().all(|c| c.is_ascii_hexdigit()) {
        let v = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        Some(t.as_bytes().chunks(2).map(|c| v(c[0]) * 16 + v(c[1])).collect())
    } else {
        None
    };
    let got = guard(|| utils::format::decode_hex(t).ok()).map_err(|p| format!("text {:?}: decode panicked: {}", t.chars().take(300).collect::<String>(), p))?;
    ensure!(got == expect, "text {:?} ({} bytes): decoded {} instead of {}", t.chars().take(300).collect::<String>(), t.len(), got.map_or("an error".into(), |g| short(&g)), expect.map_or("an error".into(), |g| short(&g)));
    Ok(())
}

fn c13_short(idx: u64) -> Res {
    let t = if idx == 0 {
        String::new()
    } else if idx <= 128 {
        ((idx - 1) as u8 as char).to_string()
    } else {
        let k = idx - 129;
        format!("{}{}", (k / 128) as u8 as char, (k % 128) as u8 as char)
    };
    hex_decode(&t)
}

fn c13_text(idx: u64) -> Res {
    let mut r = rnd(15, idx);
    let n = r.below(12);
    let digits: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
    let odd: Vec<char> = "gG+- xX_.é漢😀\u{0}/:@`\u{7f}１".chars().collect();
    let bad = r.below(4);
    let mut t: String = (0..n).map(|_| *r.pick(&digits)).collect();
    for _ in 0..bad.saturating_sub(1) {
        let mut c: Vec<char> = t.chars().collect();
        let p = r.below(c.len() + 1);
        c.insert(p, *r.pick(&odd));
        t = c.into_iter().collect();
    }
    hex_decode(&t)
}

// ------------------------------------------------------------------------------ C14
use ed25519_dalek::{Keypair, PublicKey, SecretKey, Signer, Verifier};

pub fn key(r: &mut R) -> Keypair {
    let s = r.rbytes(32);
    let secret = SecretKey::from_bytes(&s).unwrap();
    let public = PublicKey::from(&secret);
    Keypair { secret, public }
}

fn message(r: &mut R, idx: u64) -> Vec<u8> {
    let n = if idx < 40 { idx as usize } else { r.below(300) };
    r.bytes(n)
}

fn c14_sign(idx: u64) -> Res {
    let mut r = rnd(16, idx);
    let kp = key(&mut r);
    let m = message(&mut r, idx);
    c14_sign_case(kp, m)
}

fn c14_large(idx: u64) -> Res {
    let mut r = rnd(160, idx);
    let kp = key(&mut r);
    let n = [512, 1023, 1024, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 100_000, 1_000_000][idx as usize % 12];
    let m = r.rbytes(n);
    if idx < 12 {
        return c14_sign_case(kp, m);
    }
    // one byte of a long message changed, the last one included
    let sig = kp.sign(&m).to_bytes().to_vec();
    let mut data = m.clone();
    let at = if r.bool() { n - 1 } else { r.below(n) };
    data[at] ^= 1 << r.below(8);
    let p = hex(&kp.public.to_bytes());
    let d = format!("message of {} bytes, byte {} changed, public key {}", n, at, p);
    let ok = guard(|| signature::verify(&data, &sig, &p)).map_err(|e| format!("{}: verify panicked: {}", d, e))?;
    ensure!(!ok, "{}: the signature of the unchanged message is accepted", d);
    Ok(())
}

fn c14_sign_case(kp: Keypair, m: Vec<u8>) -> Res {
    let (s, p) = (hex(&kp.secret.to_bytes()), hex(&kp.public.to_bytes()));
    let d = format!("message {}, private key {}, public key {}", short(&m), s, p);
    let sig = guard(|| signature::sign(&m, &s, &p)).map_err(|e| format!("{}: sign panicked: {}", d, e))?;
    ensure!(sig == kp.sign(&m).to_bytes().to_vec(), "{}: signature {}", d, hex(&sig));
    let ok = guard(|| signature::verify(&m, &sig, &p)).map_err(|e| format!("{}: verify panicked: {}", d, e))?;
    ensure!(ok, "{}: signature {} is not accepted", d, hex(&sig));
    Ok(())
}

fn c14_verify(idx: u64) -> Res {
    let mut r = rnd(17, idx);
    let kp = key(&mut r);
    let other = key(&mut r);
    let m = message(&mut r, idx);
    let mut data = m.clone();
    let mut sig = kp.sign(&m).to_bytes().to_vec();
    let mut public = kp.public;
    match r.below(13) {
        7 => data.extend(vec![0; r.range(1, 24)]),
        8 => data.insert(0, 0),
        9 => data.truncate(data.len() - data.len() % 8),
        10 => data.clear(),
        // signatures with special parts
        11 => {
            let c = *r.pick(&[0u8, 1, 0xff]);
            let (a, b) = *r.pick(&[(0, 64), (0, 32), (32, 64)]);
            sig[a..b].iter_mut().for_each(|x| *x = c);
            sig[63] &= 0x1f;
        }
        12 if data.len() > 1 => data.reverse(),
        0 if !data.is_empty() => {
            let i = r.below(data.len());
            data[i] ^= 1 << r.below(8);
        }
        1 => data.push(r.u64() as u8),
        2 => {
            data.pop();
        }
        3 => {
            let b = r.below(512);
            sig[b / 8] ^= 1 << (b % 8);
        }
        4 => public = other.public,
        5 => sig = other.sign(&m).to_bytes().to_vec(),
        6 => sig = r.rbytes(64),
        _ => {}
    }
    let e = match ed25519::Signature::from_bytes(&sig) {
        Ok(x) => public.verify(&data, &x).is_ok(),
        Err(_) => return Ok(()),
    };
    let p = hex(&public.to_bytes());
    let d = format!("message {}, signature {}, public key {}", short(&data), hex(&sig), p);
    let ok = guard(|| signature::verify(&data, &sig, &p)).map_err(|e| format!("{}: verify panicked: {}", d, e))?;
    ensure!(ok == e, "{}: verify returns {}, Ed25519 {}", d, ok, e);
    Ok(())
}

// keys and signatures that are not well formed
fn c14_malformed(idx: u64) -> Res {
    let mut r = rnd(170, idx);
    let kp = key(&mut r);
    let m = message(&mut r, idx);
    let mut sig = kp.sign(&m).to_bytes().to_vec();
    let (mut s, mut p) = (hex(&kp.secret.to_bytes()), hex(&kp.public.to_bytes()));
    let spoil = |r: &mut R, x: &mut String| match r.below(10) {
        6 => x.push_str(*r.pick(&[" ", "\n", "\r\n", "\t", "\0", ";", "  ", "\u{feff}", "h", "="])),
        7 => x.insert_str(0, *r.pick(&[" ", "\n", "0x", "0X", "\t", "+", "#", "\\x", "\u{feff}", "00"])),
        8 => *x = format!("{}{}{}", r.pick(&["\"", "(", " ", "'"]), x, r.pick(&["\"", ")", " ", "'"])),
        9 => {
            let i = r.below(x.len());
            x.insert_str(i, *r.pick(&[" ", "_", ":", "-", "\n", ",", "  ", "\0"]));
        }
        0 => {
            x.pop();
        }
        1 => x.push(*r.pick(&['0', 'a', 'f'])),
        2 => x.push_str("00"),
        3 => {
            let i = r.below(x.len());
            x.replace_range(i..i + 1, *r.pick(&["g", "+", " ", "-", "G", "x"]));
        }
        4 => x.truncate(62),
        _ => *x = format!("0x{}", &x[2..]),
    };
    match idx % 4 {
        0 => spoil(&mut r, &mut s),
        1 => spoil(&mut r, &mut p),
        2 => {
            spoil(&mut r, &mut p);
            sig = r.rbytes(64);
        }
        _ => match r.below(5) {
            0 => sig.truncate(r.below(64)),
            1 => sig.push(0),
            2 => sig[63] |= *r.pick(&[0x20u8, 0x40, 0x80]),
            3 => sig.clear(),
            _ => sig.extend_from_slice(&sig.clone()),
        },
    }
    let good = |x: &str| x.len() % 2 == 0 && x.bytes().all(|b| b.is_ascii_hexdigit());
    if idx % 4 < 3 && (!good(&s) || !good(&p) || s.len() + p.len() != 128) {
        if let Ok(x) = guard(|| signature::sign(&m, &s, &p)) {
            return Err(format!("private key {:?}, public key {:?} of {} bytes together: sign returns {} bytes", s, p, (s.len() + p.len()) / 2, x.len()));
        }
    }
    let key_ok = good(&p) && p.len() == 64;
    let sig_ok = sig.len() == 64 && sig[63] < 32;
    if !key_ok || !sig_ok {
        let ok = guard(|| signature::verify(&m, &sig, &p)).unwrap_or(false);
        ensure!(!ok, "message {}, signature {}, public key {:?}: malformed, but accepted", short(&m), hex(&sig), p);
    }
    Ok(())
}

#[cfg(not(sia_verif))]
fn c14_generated(_: u64) -> Res {
    Ok(())
}
#[cfg(sia_verif)]
fn c14_generated(idx: u64) -> Res {
    let mut r = rnd(171, idx);
    let (s, p) = signature::verif_hooks::generate();
    let hexdigits = |x: &str| x.len() == 64 && x.bytes().all(|b| b.is_ascii_hexdigit());
    ensure!(hexdigits(&s) && hexdigits(&p), "generated pair {:?}, {:?}: not 64 hex digits each", s, p);
    let m = message(&mut r, idx);
    let d = format!("generated pair {}, {}, message {}", s, p, short(&m));
    let sig = guard(|| signature::sign(&m, &s, &p)).map_err(|e| format!("{}: sign panicked: {}", d, e))?;
    let ok = guard(|| signature::verify(&m, &sig, &p)).map_err(|e| format!("{}: verify panicked: {}", d, e))?;
    ensure!(ok, "{}: the signature is not accepted", d);
    let secret: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    let public = PublicKey::from(&SecretKey::from_bytes(&secret).unwrap());
    ensure!(hex(&public.to_bytes()) == p.to_lowercase(), "{}: the public key belongs to another secret key", d);
    Ok(())
}

// ------------------------------------------------------------------------------ C16
use image::{DynamicImage, GenericImageView, GrayImage, ImageBuffer};

fn c16_image(idx: u64) -> Res {
    let mut r = rnd(18, idx);
    // the coarsest of three levels must hold the record: 192 bytes in codewords of 64
    let (a, b) = *r.pick(&[(40u32, 40u32), (39, 42), (48, 34), (34, 48), (64, 24), (41, 41)]);
    let (w, h) = (a * 8, b * 8);
    let kind = idx % 12;
    let rough = r.bool();
    c16_case(r, w, h, kind, rough, idx)
}

/// Pictures larger than the usual test ones.
fn c16_large(idx: u64) -> Res {
    let mut r = rnd(118, idx);
    let (a, b) = *r.pick(&[(68u32, 66u32), (100, 20), (18, 110), (80, 80), (130, 16), (33, 129)]);
    let kind = [0u64, 3, 9, 1, 10, 2][(idx % 6) as usize];
    let rough = r.bool();
    c16_case(r, a * 8, b * 8, kind, rough, idx)
}

fn c16_case(mut r: R, w: u32, h: u32, kind: u64, rough: bool, idx: u64) -> Res {
    let n = (w * h) as usize;
    let mut px = |r: &mut R, i: usize| -> u8 {
        if rough {
            r.u64() as u8
        } else {
            (60 + (i * 7 / 5) % 120) as u8
        }
    };
    let img = match kind {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, (0..n).map(|i| px(&mut r, i)).collect()).unwrap()),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, (0..2 * n).map(|i| px(&mut r, i)).collect()).unwrap()),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, (0..3 * n).map(|i| px(&mut r, i)).collect()).unwrap()),
        3 | 4 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, (0..4 * n).map(|i| px(&mut r, i)).collect()).unwrap()),
        5 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, (0..3 * n).map(|_| r.u64() as u16).collect()).unwrap()),
        6 => DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, (0..4 * n).map(|_| r.u64() as u16).collect()).unwrap()),
        7 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, (0..n).map(|_| r.u64() as u16).collect()).unwrap()),
        8 => DynamicImage::ImageLumaA16(ImageBuffer::from_raw(w, h, (0..2 * n).map(|_| r.u64() as u16).collect()).unwrap()),
        // channels that are equal, fully transparent pixels
        9 => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, (0..3 * n).map(|i| px(&mut r, i / 3)).collect()).unwrap()),
        10 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, (0..4 * n).map(|i| if i % 4 == 3 { if i % 3 == 0 { 0 } else { 255 } } else { px(&mut r, i) }).collect()).unwrap()),
        _ => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, (0..n).map(|i| px(&mut r, i)).collect()).unwrap()),
    };
    let depth = *r.pick(&[20., 30., 45.]);
    let step = *r.pick(&[0.5, 1., 2.]);
    let feats = r.range(1, 2);
    let d = format!("{:?} image {}x{}, depth {}, step {}, {} features, case {}", img.color(), w, h, depth, step, feats, idx);
    let out = guard(|| watermarking::watermark(img.clone(), depth, step, feats)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    ensure!(out.dimensions() == (w, h), "{}: output is {:?}", d, out.dimensions());
    let color = img.color();
    use image::ColorType::*;
    let want = match (color.has_color(), color.has_alpha()) {
        (false, false) => L8,
        (false, true) => La8,
        (true, false) => Rgb8,
        (true, true) => Rgba8,
    };
    ensure!(out.color() == want, "{}: output colour type {:?}", d, out.color());
    let channels = if color.has_color() { 3 } else { 1 };
    for c in 0..channels {
        let raw: Vec<u8> = (0..n).map(|i| img.get_pixel(i as u32 % w, i as u32 / w).0[c]).collect();
        let alone = GrayImage::from_raw(w, h, raw).unwrap();
        let alone = guard(|| watermarking::watermark(DynamicImage::ImageLuma8(alone), depth, step, feats)).map_err(|p| format!("{}: channel {} alone panicked: {}", d, c, p))?;
        for i in 0..n {
            let (x, y) = (i as u32 % w, i as u32 / w);
            let (g, e) = (out.get_pixel(x, y).0[c], alone.get_pixel(x, y).0[0]);
            ensure!(g == e, "{}: channel {} at ({}, {}) is {}, watermarked alone {}", d, c, x, y, g, e);
        }
        #[cfg(sia_verif)]
        {
            let raw: Vec<u8> = (0..n).map(|i| img.get_pixel(i as u32 % w, i as u32 / w).0[c]).collect();
            let g = GrayImage::from_raw(w, h, raw).unwrap();
            let direct = guard(|| watermarking::verif_hooks::watermark_channel(&g, depth, step, feats, 3)).map_err(|p| format!("{}: channel {}: panicked: {}", d, c, p))?;
            ensure!(direct.as_raw() == alone.as_bytes(), "{}: the grey image of channel {} is not watermarked like the channel", d, c);
        }
    }
    if color.has_alpha() {
        for i in 0..n {
            let (x, y) = (i as u32 % w, i as u32 / w);
            let (g, e) = (out.get_pixel(x, y).0[3], img.get_pixel(x, y).0[3]);
            ensure!(g == e, "{}: alpha at ({}, {}) changed from {} to {}", d, x, y, e, g);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C17
fn zernike(image: &Array2<u8>, order: i64, rep: i64) -> f64 {
    let (w, _) = image.dim();
    let fact = |n: i64| (1..=n).fold(1f64, |a, k| a * k as f64);
    let dim = w as f64;
    let (mut re, mut im) = (0f64, 0f64);
    for i in 0..w {
        for j in 0..w {
            let cx = std::f64::consts::FRAC_1_SQRT_2 * (1. + dim - 2. * (i as f64 + 1.)) / (1. - dim);
            let cy = std::f64::consts::FRAC_1_SQRT_2 * (1. + dim - 2. * (j as f64 + 1.)) / (1. - dim);
            let rho = (cx * cx + cy * cy).sqrt();
            let th = cy.atan2(cx);
            let mut rad = 0f64;
            for s in 0..=((order - rep) / 2) {
                let c = fact(order - s) / (fact(s) * fact((order + rep) / 2 - s) * fact((order - rep) / 2 - s));
                let t = c * rho.powi((order - 2 * s) as i32);
                rad += if s % 2 == 0 { t } else { -t };
            }
            let p = image[[i, j]] as f64;
            re += p * rad * (rep as f64 * th).cos();
            im -= p * rad * (rep as f64 * th).sin();
        }
    }
    let m = (order as f64 + 1.) / std::f64::consts::PI / (dim * dim);
    (re * m).hypot(im * m)
}

fn rand_image(r: &mut R, w: usize, h: usize) -> Array2<u8> {
    let k = r.below(4);
    Array2::from_shape_fn((w, h), |(i, j)| match k {
        0 => 200,
        1 => (i * 13 + j * 29) as u8,
        _ => r.u64() as u8,
    })
}

fn c17_square(idx: u64) -> Res {
    let mut r = rnd(19, idx);
    let w = r.range(2, 24);
    let n = if idx < 12 { idx as usize + 1 } else { r.range(1, 9) };
    let n = n.min(9);
    let img = rand_image(&mut r, w, w);
    let d = format!("{}x{} image {}, {} features", w, w, short(img.as_slice().unwrap()), n);
    let f = guard(|| image_features::calculate_features(&img, image_features::feature_types::FeaturesType::MomentsZernike, n)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    ensure!(f.len() == n, "{}: {} features", d, f.len());
    for k in 1..=n {
        let e = zernike(&img, 2 * n as i64 - 1, 2 * k as i64 - 1);
        ensure!((f[k - 1] - e).abs() <= 1e-4 * (1. + e), "{}: feature {} is {}, the moment of order {} and repetition {} is {}", d, k, f[k - 1], 2 * n - 1, 2 * k - 1, e);
    }
    Ok(())
}

fn c17_any(idx: u64) -> Res {
    let mut r = rnd(20, idx);
    let (w, h) = (r.range(2, 30), r.range(2, 30));
    let n = if idx < 20 { idx as usize + 1 } else { r.range(1, 20) };
    let img = rand_image(&mut r, w, h);
    let d = format!("{}x{} image {}, {} features", w, h, short(img.as_slice().unwrap()), n);
    let f = guard(|| image_features::calculate_features(&img, image_features::feature_types::FeaturesType::MomentsZernike, n)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    ensure!(f.len() == n, "{}: {} features", d, f.len());
    ensure!(f.iter().all(|x| x.is_finite() && *x >= 0.), "{}: features {:?}", d, f);
    Ok(())
}

/// Pictures of ordinary size, with few features.
fn c17_large(idx: u64) -> Res {
    let mut r = rnd(120, idx);
    let (w, h) = *r.pick(&[(200usize, 2usize), (2, 200), (257, 255), (128, 128), (255, 256), (300, 90), (512, 40), (33, 600), (320, 320), (131, 131)]);
    let n = *r.pick(&[1usize, 2, 3, 5, 12]);
    let n = n.min(4);
    let img = rand_image(&mut r, w, h);
    let d = format!("{}x{} image (case {}), {} features", w, h, idx, n);
    let f = guard(|| image_features::calculate_features(&img, image_features::feature_types::FeaturesType::MomentsZernike, n)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    ensure!(f.len() == n, "{}: {} features", d, f.len());
    ensure!(f.iter().all(|x| x.is_finite() && *x >= 0.), "{}: features {:?}", d, f);
    if w == h && n <= 5 {
        for k in 1..=n {
            let e = zernike(&img, 2 * n as i64 - 1, 2 * k as i64 - 1);
            ensure!((f[k - 1] - e).abs() <= 1e-4 * (1. + e), "{}: feature {} is {}, the moment of order {} and repetition {} is {}", d, k, f[k - 1], 2 * n - 1, 2 * k - 1, e);
        }
    }
    Ok(())
}

#[cfg(sia_verif)]
pub mod hooked {
    use super::*;
    use embedding::verif_hooks as eh;
    use watermarking::verif_hooks as wh;

    fn domain_shape(r: &mut R) -> (usize, usize) {
        match r.below(5) {
            0 => (r.range(1, 4), r.range(1, 60)),
            1 => (r.range(1, 60), r.range(1, 4)),
            2 => {
                let n = r.range(1, 24);
                (n, n)
            }
            _ => (r.range(1, 24), r.range(1, 24)),
        }
    }

    fn coefficient(r: &mut R, depth: f64) -> f64 {
        match r.below(8) {
            0 => 0.,
            1 => depth * (r.below(41) as f64 - 20.),
            2 => depth * (r.below(41) as f64 - 20.) + depth * 0.5,
            3 => depth * (r.below(41) as f64 - 20.) + depth * 0.5 - depth * 1e-12,
            4 => r.f(-1e6, 1e6) * depth,
            5 => r.f(-1., 1.) * depth,
            6 => -r.f(0., 1e-7) * depth,
            _ => r.f(-50., 50.) * depth,
        }
    }

    pub fn c02_domain(idx: u64) -> Res {
        let mut r = rnd(2, idx);
        let (w, h) = domain_shape(&mut r);
        c02_case(&mut r, w, h, idx)
    }

    const SHAPES: [(usize, usize); 10] = [(256, 256), (257, 255), (1, 66000), (66000, 1), (300, 300), (513, 257), (2, 40000), (1024, 1030), (4096, 4112), (3, 5_600_000)];

    pub fn c02_large(idx: u64) -> Res {
        let mut r = rnd(201, idx);
        let (w, h) = SHAPES[idx as usize];
        c02_case(&mut r, w, h, idx)
    }

    fn c02_case(r: &mut R, w: usize, h: usize, idx: u64) -> Res {
        let cap = w * h / 8;
        let depth = match r.below(5) {
            0 => 1.,
            1 => 30.,
            2 => 0.001,
            3 => 1e6,
            _ => r.f(0.5, 500.),
        };
        let mut m = Array2::from_shape_fn((w, h), |_| coefficient(r, depth));
        let len = if w * h > 1000 || r.bool() { cap } else { r.below(cap + 1) };
        let payload = r.bytes(len);
        let before = m.clone();
        let d = format!("{}x{} domain, depth {}, bytes {}, case {}", w, h, depth, short(&payload), idx);
        guard(|| eh::write(&mut m.view_mut(), payload.clone(), depth)).map_err(|p| format!("{}: write panicked: {}", d, p))?;
        for (a, b) in before.iter().zip(m.iter()) {
            ensure!((a - b).abs() <= 0.75 * depth * (1. + 1e-6), "{}: a coefficient moved from {} to {}", d, a, b);
        }
        let mode = r.below(4);
        for x in m.iter_mut() {
            let u = match mode {
                0 => 0.,
                1 => 0.24,
                2 => -0.24,
                _ => r.f(-0.24, 0.24),
            };
            *x += u * depth;
        }
        let out = guard(|| eh::read(&m.view_mut(), depth)).map_err(|p| format!("{}: read panicked: {}", d, p))?;
        ensure!(out.len() >= len && out[..len] == payload[..], "{}: read {}", d, short(&out));
        Ok(())
    }

    /// Bit i of the payload, least significant first, sits in coefficient i in row order.
    pub fn c02_order(idx: u64) -> Res {
        let mut r = rnd(21, idx);
        let (w, h) = domain_shape(&mut r);
        let cap = w * h / 8;
        let depth = 10.;
        let mut m = Array2::from_shape_fn((w, h), |_| (r.below(21) as f64 - 10.) * depth);
        let len = if r.bool() { cap } else { r.below(cap + 1) };
        let payload = r.rbytes(len);
        let d = format!("{}x{} domain, depth {}, bytes {}, case {}", w, h, depth, short(&payload), idx);
        guard(|| eh::write(&mut m.view_mut(), payload.clone(), depth)).map_err(|p| format!("{}: write panicked: {}", d, p))?;
        for i in 0..8 * len {
            let x = m[[i / h, i % h]] / depth;
            let bit = (payload[i / 8] >> (i % 8)) & 1 == 1;
            ensure!((x - x.round() > 0.) == bit, "{}: bit {} is not in coefficient ({}, {})", d, i, i / h, i % h);
        }
        Ok(())
    }

    pub fn c03_used(idx: u64) -> Res {
        let mut r = rnd(3, idx);
        let (w, h) = if idx < 900 { ((idx / 30) as usize + 1, (idx % 30) as usize + 1) } else { domain_shape(&mut r) };
        c03_case(&mut r, w, h)
    }

    pub fn c03_large(idx: u64) -> Res {
        let mut r = rnd(301, idx);
        let (w, h) = SHAPES[idx as usize];
        c03_case(&mut r, w, h)
    }

    fn c03_case(r: &mut R, w: usize, h: usize) -> Res {
        let cap = w * h / 8;
        let depth = *r.pick(&[1., 8., 30., 100.]);
        // every write changes such a coefficient
        let mut inner = Array2::from_shape_fn((w + 2, h + 3), |_| (r.below(41) as f64 - 20.) * depth + 0.0625 * depth);
        let len = if w * h > 1000 || r.below(3) > 0 { cap } else { r.below(cap + 1) };
        let payload = r.bytes(len);
        let before = inner.clone();
        let d = format!("{}x{} domain, depth {}, {} bytes", w, h, depth, len);
        let sub = r.bool();
        guard(|| {
            use ndarray::{s, Axis};
            if sub {
                // as embed does it: a corner of a larger matrix
                let mut v = inner.view_mut().split_at(Axis(0), w).0.split_at(Axis(1), h).0;
                eh::write(&mut v, payload.clone(), depth)
            } else {
                let mut v = inner.slice_mut(s![1..1 + w, 2..2 + h]);
                eh::write(&mut v, payload.clone(), depth)
            }
        })
        .map_err(|p| format!("{}: write panicked: {}", d, p))?;
        let mut changed = 0;
        for i in 0..w + 2 {
            for j in 0..h + 3 {
                if before[[i, j]] != inner[[i, j]] {
                    changed += 1;
                    let (x, y) = if sub { (i as isize, j as isize) } else { (i as isize - 1, j as isize - 2) };
                    let inside = x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h;
                    ensure!(inside, "{}: coefficient ({}, {}) outside the domain changed", d, x, y);
                }
            }
        }
        ensure!(changed == 8 * len, "{}: {} coefficients carry the {} bits", d, changed, 8 * len);
        Ok(())
    }

    pub fn c03_capacity(idx: u64) -> Res {
        let mut r = rnd(31, idx);
        let (w, h) = if idx < 1600 {
            ((idx / 40) as usize, (idx % 40) as usize)
        } else {
            let (a, b) = (r.range(1, 24), r.range(1, 24));
            (r.below(1 << a), r.below(1 << b))
        };
        let c = guard(|| eh::get_capacity(w, h)).map_err(|p| format!("{}x{}: panicked: {}", w, h, p))?;
        if w * h >= 1 << 53 {
            return Ok(());
        }
        ensure!(c == w * h / 8, "{}x{} domain: capacity {}", w, h, c);
        Ok(())
    }

    pub fn c04_domain_write(idx: u64) -> Res {
        let mut r = rnd(41, idx);
        let (w, h) = domain_shape(&mut r);
        let cap = w * h / 8;
        let len = match r.below(4) {
            0 => cap,
            1 => cap + 1,
            2 => r.below(cap + 1),
            _ => cap + r.range(1, 100),
        };
        let payload = r.rbytes(len);
        let mut m = Array2::from_shape_fn((w, h), |_| r.f(-100., 100.));
        let res = guard(|| eh::write(&mut m.view_mut(), payload, 10.));
        match (len <= cap, res) {
            (true, Err(p)) => Err(format!("{}x{} domain refuses {} bytes: {}", w, h, len, p)),
            (false, Ok(_)) => Err(format!("{}x{} domain accepts {} bytes", w, h, len)),
            _ => Ok(()),
        }
    }

    fn text(r: &mut R, bytes: usize) -> String {
        let cs: Vec<char> = "aZ0 é漢😀ß~\u{7f}\u{0}".chars().collect();
        let mut t = String::new();
        while t.len() < bytes {
            let c = match r.below(4) {
                0 => char::from_u32(r.below(0x300) as u32).unwrap(),
                1 => *r.pick(&['\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{2028}', '\u{200b}', '\u{a0}', '\u{3000}', '\u{301}', 'İ', 'ﬁ', '\r', '\n', '\t']),
                _ => *r.pick(&cs),
            };
            if t.len() + c.len_utf8() <= bytes {
                t.push(c);
            } else {
                t.push('x');
            }
        }
        t
    }

    pub fn c07_record(idx: u64) -> Res {
        let mut r = rnd(7, idx);
        let len = |r: &mut R| match r.below(4) {
            0 => 255,
            1 => 0,
            2 => r.range(247, 255),
            _ => r.below(256),
        };
        let p = if idx < 256 { idx as usize } else { len(&mut r) };
        let (s, t) = (len(&mut r), len(&mut r));
        let w = { let (p, s) = (bits(&mut r, p), r.bytes(s)); wh::Watermark { perturbation_vector: p, signature: s, text: text(&mut r, t) } };
        let d = format!("record {:?}", w);
        let mut b = guard(|| w.serialize()).map_err(|e| format!("{}: serialize panicked: {}", d, e))?;
        let back = guard(|| wh::deserialize(&b)).map_err(|e| format!("{}: deserialize panicked: {}", d, e))?;
        ensure!(back == w, "{}: deserialized {:?}", d, back);
        let more = r.range(1, 300);
        b.extend(r.bytes(more));
        let back = guard(|| wh::deserialize(&b)).map_err(|e| format!("{}: deserialize with {} more bytes panicked: {}", d, more, e))?;
        ensure!(back == w, "{}: deserialized with {} more bytes {:?}", d, more, back);
        Ok(())
    }

    pub fn c07_trailing(idx: u64) -> Res {
        let mut r = rnd(72, idx);
        let (p, s, t) = (r.range(0, 255), r.range(0, 255), r.range(0, 255));
        let w = { let (p, s) = (bits(&mut r, p), r.bytes(s)); wh::Watermark { perturbation_vector: p, signature: s, text: text(&mut r, t) } };
        let mut b = guard(|| w.serialize()).map_err(|e| format!("record {:?}: serialize panicked: {}", w, e))?;
        let more = [1, 255, 256, 65535, 65536, 70000][idx as usize % 6];
        b.extend(r.bytes(more));
        let back = guard(|| wh::deserialize(&b)).map_err(|e| format!("record {:?}: deserialize with {} more bytes panicked: {}", w, more, e))?;
        ensure!(back == w, "record {:?}: deserialized with {} more bytes {:?}", w, more, back);
        Ok(())
    }

    pub fn c07_long(idx: u64) -> Res {
        let mut r = rnd(71, idx);
        let over = match r.below(3) {
            0 => 256,
            1 => 512 + r.below(300),
            _ => r.range(256, 1000),
        };
        let mut l = [r.below(256), r.below(256), r.below(256)];
        l[(idx % 3) as usize] = over;
        let w = wh::Watermark { perturbation_vector: bits(&mut r, l[0]), signature: r.bytes(l[1]), text: text(&mut r, l[2]) };
        match guard(|| w.serialize()) {
            Ok(_) => Err(format!("a record with {} bits, {} signature bytes and {} text bytes is serialized", l[0], l[1], l[2])),
            Err(_) => Ok(()),
        }
    }

    pub fn c08_frame(idx: u64) -> Res {
        let mut r = rnd(8, idx);
        let n = match idx {
            0..=299 => idx as usize + 1,
            300 => 65535,
            301 => 65534,
            302 => 32768,
            303 => 32767,
            _ => match r.below(8) {
                0 => r.range(1, 65535),
                _ => r.range(1, 1200),
            },
        };
        let p = r.bytes(n);
        let d = format!("payload {}", short(&p));
        let data = eh::Data { bytes: p.clone() };
        let mut f = guard(|| data.serialize()).map_err(|e| format!("{}: serialize panicked: {}", d, e))?;
        ensure!(f.len() == n + 2, "{}: framed to {} bytes", d, f.len());
        let back = guard(|| eh::deserialize(&f)).map_err(|e| format!("{}: deserialize panicked: {}", d, e))?;
        ensure!(back.bytes == p, "{}: unframed {}", d, short(&back.bytes));
        let more = r.range(1, 600);
        f.extend(r.bytes(more));
        let back = guard(|| eh::deserialize(&f)).map_err(|e| format!("{}: deserialize with {} more bytes panicked: {}", d, more, e))?;
        ensure!(back.bytes == p, "{}: unframed with {} more bytes {}", d, more, short(&back.bytes));
        Ok(())
    }

    pub fn c08_trailing(idx: u64) -> Res {
        let mut r = rnd(82, idx);
        let n = [1, 2, 255, 256, 4000, 65533, 65534, 65535][idx as usize % 8];
        let more = [1, 65535, 65536, 70000, 131072, 200_000][r.below(6)];
        let p = r.rbytes(n);
        let data = eh::Data { bytes: p.clone() };
        let mut f = guard(|| data.serialize()).map_err(|e| format!("payload of {} bytes: serialize panicked: {}", n, e))?;
        f.extend(r.rbytes(more));
        let back = guard(|| eh::deserialize(&f)).map_err(|e| format!("payload of {} bytes with {} more bytes: deserialize panicked: {}", n, more, e))?;
        ensure!(back.bytes == p, "payload of {} bytes {}, unframed with {} more bytes to {} bytes {}", n, short(&p), more, back.bytes.len(), short(&back.bytes));
        Ok(())
    }

    pub fn c08_long(idx: u64) -> Res {
        let mut r = rnd(81, idx);
        let n = match idx {
            0 => 65536,
            1 => 65537,
            2 => 131072,
            3 => 65536 + 255,
            _ => r.range(65536, 200_000),
        };
        let data = eh::Data { bytes: r.rbytes(n) };
        match guard(|| data.serialize()) {
            Ok(_) => Err(format!("a payload of {} bytes is framed", n)),
            Err(_) => Ok(()),
        }
    }

    // ------------------------------------------------------------------------- C15
    fn matrix(r: &mut R, idx: u64) -> (Array2<f64>, usize) {
        let level = 1 + (idx % 5) as usize;
        let s = 1usize << level;
        let (a, b) = match r.below(4) {
            0 => (1, r.range(1, 4)),
            1 => (r.range(1, 4), 1),
            _ => (r.range(1, 4), r.range(1, 4)),
        };
        let k = r.below(3);
        let m = Array2::from_shape_fn((a * s, b * s), |(i, j)| match k {
            0 => (r.u64() as u8) as f64,
            1 => r.f(-1e4, 1e4),
            _ => (i * 1000 + j) as f64,
        });
        (m, level)
    }

    pub fn c15_large(idx: u64) -> Res {
        let mut r = rnd(220, idx);
        let (a, b, level) = [(1, 1, 6), (2, 1, 6), (1, 2, 7), (1, 1, 8), (3, 2, 6), (300, 5, 1), (5, 300, 1), (200, 210, 1), (130, 3, 2), (1, 130, 2), (64, 64, 3), (1, 3, 8), (70000, 1, 1), (1, 70000, 1), (1, 1, 9), (20, 33, 4)][idx as usize];
        let s = 1usize << level;
        let m = Array2::from_shape_fn((a * s, b * s), |_| (r.u64() as u8) as f64);
        c15_inverse_case(&m, level, idx)?;
        c15_blocks_case(&m, level, idx)?;
        c15_local_case(&mut r, &m, level, idx)
    }

    fn scale(m: &Array2<f64>) -> f64 {
        m.iter().fold(1f64, |a, b| a.max(b.abs()))
    }

    pub fn c15_inverse(idx: u64) -> Res {
        let mut r = rnd(22, idx);
        let (m, level) = matrix(&mut r, idx);
        c15_inverse_case(&m, level, idx)
    }

    fn c15_inverse_case(m: &Array2<f64>, level: usize, idx: u64) -> Res {
        let d = format!("{:?} matrix, {} levels, case {}", m.dim(), level, idx);
        let f = guard(|| eh::dwt_2d(m.clone(), level, false)).map_err(|p| format!("{}: forward panicked: {}", d, p))?;
        ensure!(f.dim() == m.dim(), "{}: transform is {:?}", d, f.dim());
        let b = guard(|| eh::dwt_2d(f, level, true)).map_err(|p| format!("{}: inverse panicked: {}", d, p))?;
        ensure!(b.dim() == m.dim(), "{}: inverse is {:?}", d, b.dim());
        let tol = 1e-9 * scale(m) * (1 << level) as f64;
        for ((i, x), y) in m.indexed_iter().zip(b.iter()) {
            ensure!((x - y).abs() <= tol, "{}: element {:?} is {}, restored {}", d, i, x, y);
        }
        Ok(())
    }

    pub fn c15_blocks(idx: u64) -> Res {
        let mut r = rnd(23, idx);
        let (m, level) = matrix(&mut r, idx);
        c15_blocks_case(&m, level, idx)
    }

    fn c15_blocks_case(m: &Array2<f64>, level: usize, idx: u64) -> Res {
        let s = 1usize << level;
        let d = format!("{:?} matrix, {} levels, case {}", m.dim(), level, idx);
        let f = guard(|| eh::dwt_2d(m.clone(), level, false)).map_err(|p| format!("{}: forward panicked: {}", d, p))?;
        let tol = 1e-9 * scale(m) * (s * s) as f64;
        for i in 0..m.dim().0 / s {
            for j in 0..m.dim().1 / s {
                let mut sum = 0.;
                for x in 0..s {
                    for y in 0..s {
                        sum += m[[i * s + x, j * s + y]];
                    }
                }
                let e = sum / s as f64;
                ensure!((f[[i, j]] - e).abs() <= tol, "{}: coefficient ({}, {}) is {}, block sum over {} is {}", d, i, j, f[[i, j]], s, e);
            }
        }
        Ok(())
    }

    pub fn c15_local(idx: u64) -> Res {
        let mut r = rnd(24, idx);
        let (m, level) = matrix(&mut r, idx);
        c15_local_case(&mut r, &m, level, idx)
    }

    fn c15_local_case(r: &mut R, m: &Array2<f64>, level: usize, idx: u64) -> Res {
        let s = 1usize << level;
        let (w, h) = m.dim();
        let (i, j) = (r.below(w / s), r.below(h / s));
        let delta = r.f(-500., 500.);
        let d = format!("{:?} matrix, {} levels, coefficient ({}, {}) changed by {}, case {}", m.dim(), level, i, j, delta, idx);
        let mut n = m.clone();
        n[[i, j]] += delta;
        let a = guard(|| eh::dwt_2d(m.clone(), level, true)).map_err(|p| format!("{}: inverse panicked: {}", d, p))?;
        let b = guard(|| eh::dwt_2d(n, level, true)).map_err(|p| format!("{}: inverse panicked: {}", d, p))?;
        ensure!(a.dim() == m.dim() && b.dim() == m.dim(), "{}: dimensions {:?}", d, a.dim());
        let tol = 1e-9 * (scale(m) + 500.) * (s * s) as f64;
        for ((x, y), v) in a.indexed_iter() {
            let e = if x / s == i && y / s == j { delta / s as f64 } else { 0. };
            ensure!((b[[x, y]] - v - e).abs() <= tol, "{}: element ({}, {}) changed by {} instead of {}", d, x, y, b[[x, y]] - v, e);
        }
        Ok(())
    }

    // ------------------------------------------------------------------------- C18
    // one case in eight has many features, and a small channel
    fn count(r: &mut R, idx: u64) -> usize {
        if idx % 8 == 3 { r.range(9, 20) } else { r.range(1, 3) }
    }

    fn channel(r: &mut R, idx: u64) -> (GrayImage, usize, f64) {
        let levels = if idx % 8 == 3 { 2 } else { 2 + r.below(2) };
        let s = 1u32 << levels;
        let (a, b) = if idx % 8 == 5 {
            *r.pick(&[(90u32, 61u32), (61, 90), (20, 100), (100, 20), (160, 12), (12, 160), (72, 72)])
        } else {
            *r.pick(&[(40u32, 40u32), (39, 42), (48, 34), (34, 48)])
        };
        let depth = 8. * s as f64;
        let img = image(r, (a * s) as usize, (b * s) as usize, 10., 245.);
        (GrayImage::from_raw(a * s, b * s, img.into_raw_vec()).unwrap(), levels, depth)
    }

    fn features_of(c: &GrayImage, n: usize) -> Vec<f64> {
        let (w, h) = c.dimensions();
        let e = imageproc::contrast::equalize_histogram(c);
        let a = Array2::from_shape_vec((w as usize, h as usize), e.into_raw()).unwrap();
        image_features::calculate_features(&a, image_features::feature_types::FeaturesType::MomentsZernike, n)
    }

    fn array_of(c: &GrayImage) -> Array2<u8> {
        let (w, h) = c.dimensions();
        Array2::from_shape_vec((w as usize, h as usize), c.as_raw().clone()).unwrap()
    }

    fn le(v: &[i64]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
    }

    fn public() -> PublicKey {
        let k = wh::VERIF_PUBLIC_KEY;
        let b: Vec<u8> = (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect();
        PublicKey::from_bytes(&b).unwrap()
    }

    pub fn c18_payload(idx: u64) -> Res {
        let mut r = rnd(25, idx);
        let (c, levels, depth) = channel(&mut r, idx);
        let n = count(&mut r, idx);
        let step = *r.pick(&[0.25, 0.5, 1., 3.]);
        let d = format!("{:?} channel, depth {}, step {}, {} features, {} levels, case {}", c.dimensions(), depth, step, n, levels, idx);
        let out = guard(|| wh::watermark_channel(&c, depth, step, n, levels)).map_err(|p| format!("{}: watermarking panicked: {}", d, p))?;
        ensure!(out.dimensions() == c.dimensions(), "{}: output {:?}", d, out.dimensions());
        let (q, p) = three_bit_quantization::three_bit_quantization(&features_of(&c, n), step);
        let payload = guard(|| embedding::extract(array_of(&out), depth, levels)).map_err(|p| format!("{}: extract panicked: {}", d, p))?;
        let rec = guard(|| wh::deserialize(&payload)).map_err(|p| format!("{}: record: panicked: {}", d, p))?;
        ensure!(rec.perturbation_vector == p, "{}: perturbation bits {:?}, of the features {:?}", d, rec.perturbation_vector, p);
        ensure!(rec.text == "Hello world!", "{}: text {:?}", d, rec.text);
        ensure!(rec.serialize() == payload, "{}: payload {} is not the record", d, short(&payload));
        let sig = ed25519::Signature::from_bytes(&rec.signature).map_err(|_| format!("{}: signature {:?}", d, rec.signature))?;
        ensure!(public().verify(&le(&q), &sig).is_ok(), "{}: the signature does not belong to the quantized features {:?}", d, q);
        Ok(())
    }

    // what was watermarked is authentic when its features stayed within 0.999 steps; with other features restored it is not
    pub fn c19_case(idx: u64) -> Res {
        let mut r = rnd(27, idx);
        let (c, levels, depth) = channel(&mut r, idx);
        let n = count(&mut r, idx);
        let step = *r.pick(&[0.25, 1., 4., 20.]);
        let d = format!("{:?} channel, depth {}, step {}, {} features, {} levels, case {}", c.dimensions(), depth, step, n, levels, idx);
        let f = features_of(&c, n);
        let mut out = guard(|| wh::watermark_channel(&c, depth, step, n, levels)).map_err(|p| format!("{}: watermarking panicked: {}", d, p))?;
        let rec = guard(|| wh::deserialize(&embedding::extract(array_of(&out), depth, levels))).map_err(|p| format!("{}: the record cannot be read: {}", d, p))?;
        let tampered = idx % 3 != 0;
        if tampered {
            // move pixels without crossing a coefficient's decision border too often
            let a = r.range(1, 6) as i32;
            let every = r.range(1, 5);
            for (i, p) in out.iter_mut().enumerate() {
                if i % every == 0 {
                    *p = (*p as i32 + if r.bool() { a } else { -a }).clamp(0, 255) as u8;
                }
            }
            match guard(|| wh::deserialize(&embedding::extract(array_of(&out), depth, levels))) {
                Ok(x) if x == rec => {}
                _ => return Ok(()),
            }
        }
        let g = features_of(&out, n);
        let near = f.iter().zip(&g).all(|(a, b)| (a - b).abs() <= 0.999 * step);
        let (q, p) = three_bit_quantization::three_bit_quantization(&f, step);
        let restored = three_bit_quantization::three_bit_dequantization(&g, &p, step);
        let res = guard(|| wh::authenticate_channel(&out, depth, step, n, levels)).map_err(|p| format!("{}: authentication panicked: {}", d, p))?;
        if near {
            ensure!(res, "{}: features {:?} became {:?}, less than a step away, and it is not authentic", d, f, g);
        } else if restored != q {
            ensure!(!res, "{}: features {:?} became {:?}, restored as {:?} instead of {:?}, and it is authentic", d, f, g, restored, q);
        }
        Ok(())
    }

    pub fn c18_judge(idx: u64) -> Res {
        let mut r = rnd(26, idx);
        let (c, levels, depth) = channel(&mut r, idx);
        let n = count(&mut r, idx);
        let step = *r.pick(&[0.25, 1., 4., 20.]);
        let d = format!("{:?} channel, depth {}, step {}, {} features, {} levels, case {}", c.dimensions(), depth, step, n, levels, idx);
        // a record signed for this or for another channel
        let signed_for = if r.bool() { c.clone() } else { GrayImage::from_raw(c.width(), c.height(), c.as_raw().iter().rev().map(|x| 255 - x / 2).collect()).unwrap() };
        let src = guard(|| {
            let s = wh::watermark_channel(&signed_for, depth, step, n, levels);
            wh::deserialize(&embedding::extract(array_of(&s), depth, levels))
        });
        let mut rec = match src {
            Ok(x) => x,
            Err(_) => return Ok(()),
        };
        let (_, p) = three_bit_quantization::three_bit_quantization(&features_of(&c, n), step);
        match r.below(8) {
            5 => {
                let c = *r.pick(&[0u8, 1, 0xff]);
                let (a, b) = *r.pick(&[(0, 64), (0, 32), (32, 64)]);
                if rec.signature.len() == 64 {
                    rec.signature[a..b].iter_mut().for_each(|x| *x = c);
                    rec.signature[63] &= 0x1f;
                }
            }
            6 => rec.perturbation_vector = p.iter().map(|_| idx % 2 == 0).collect(),
            7 => rec.signature.reverse(),
            0 => {
                let b = r.below(3 * n);
                if b < p.len() {
                    let mut x = p.clone();
                    let v = x[b];
                    x.set(b, !v);
                    rec.perturbation_vector = x;
                }
            }
            1 => rec.perturbation_vector = p,
            2 => {
                let b = r.below(256);
                if rec.signature.len() == 64 {
                    rec.signature[b / 8] ^= 1 << (b % 8);
                }
            }
            3 => rec.text = "another text".into(),
            _ => {}
        }
        let carrier = guard(|| embedding::embed(array_of(&c), rec.serialize(), depth, levels)).map_err(|p| format!("{}: embed panicked: {}", d, p))?;
        let carrier = GrayImage::from_raw(c.width(), c.height(), carrier.into_raw_vec()).unwrap();
        let got = guard(|| embedding::extract(array_of(&carrier), depth, levels)).map_err(|p| format!("{}: extract panicked: {}", d, p))?;
        if got != rec.serialize() {
            return Ok(()); // outside the range in which the record survives
        }
        let restored = three_bit_quantization::three_bit_dequantization(&features_of(&carrier, n), &rec.perturbation_vector, step);
        let sig = match ed25519::Signature::from_bytes(&rec.signature) {
            Ok(s) => s,
            Err(_) => return Ok(()),
        };
        let expect = public().verify(&le(&restored), &sig).is_ok();
        let res = guard(|| wh::authenticate_channel(&carrier, depth, step, n, levels)).map_err(|p| format!("{}: authentication panicked: {}", d, p))?;
        ensure!(res == expect, "{}: authentication returns {}, the signature over the restored features {:?} is {}", d, res, restored, if expect { "valid" } else { "invalid" });
        Ok(())
    }
}

// ------------------------------------------------------------------------------ C21
/// Every file below a folder with its content.
fn tree(d: &std::path::Path, out: &mut std::collections::BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            tree(&p, out);
        } else {
            out.insert(p.to_str().unwrap().to_string(), std::fs::read(&p).unwrap());
        }
    }
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn c21_tool(idx: u64) -> Res {
    use image::ImageFormat::*;
    let mut r = rnd(21, idx);
    let base = std::env::current_exe().unwrap().parent().unwrap().join(format!("c21-{}-{}", std::process::id(), idx));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("in/deep.er")).unwrap();
    let base = Scratch(base.canonicalize().unwrap());
    let b = &base.0;
    let kinds = [("png", Png), ("bmp", Bmp), ("tiff", Tiff), ("tif", Tiff), ("ppm", Pnm), ("pgm", Pnm), ("jpg", Jpeg), ("jpeg", Jpeg), ("gif", Gif), ("PNG", Png), ("Bmp", Bmp)];
    let stems = ["a", "photo", "two.dots", "with space", "dash-ed", "v1.2.3", "b\u{e4}r", ".hidden", "x-s"];
    // one picture takes seconds
    let count = if idx == 3 || idx == 5 { 2 } else if idx > 13 { r.range(1, 2) } else { 1 };
    let mut inputs: Vec<String> = vec![];
    let mut names: Vec<(String, String, image::ImageFormat)> = vec![];
    for k in 0..count {
        let (ext, f) = if idx < 11 && k == 0 { kinds[idx as usize] } else { *r.pick(&kinds) };
        let stem = format!("{}{}", if idx < 9 && k == 0 { stems[idx as usize] } else { *r.pick(&stems) }, if k == 0 { "".to_string() } else { k.to_string() });
        let dir = *r.pick(&["", "in/", "in/deep.er/", "./", "ABS"]);
        let dir = if dir == "ABS" { format!("{}/in/", b.to_str().unwrap()) } else { dir.to_string() };
        let (w, h) = (320u32, 320u32);
        let n = (w * h) as usize;
        let (p, q) = (r.range(3, 11), r.range(5, 17));
        let v = |i: usize| (50 + (i / 320 * p + i % 320 * q) / 7 % 150) as u8;
        let grey = ext == "pgm" || (f != Gif && (idx < 14 || r.below(4) > 0));
        let img = if grey {
            DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, (0..n).map(v).collect()).unwrap())
        } else {
            DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, (0..3 * n).map(|i| v(i / 3).wrapping_add((i % 3 * 9) as u8)).collect()).unwrap())
        };
        let path = format!("{}{}.{}", dir, stem, ext);
        let full = b.join(&path);
        let mut file = std::fs::File::create(&full).unwrap();
        img.write_to(&mut file, f).unwrap();
        inputs.push(path);
        names.push((stem, ext.to_string(), f));
    }
    let suffix = *r.pick(&["wm", "s", "a.b", "", "-", "two words", "png"]);
    let with_suffix = idx % 7 != 6;
    let folder: Option<String> = match r.below(5) {
        0 => None,
        1 => Some("out".into()),
        2 => Some("new/nested.d/out".into()),
        3 => Some(b.join("abs out").to_str().unwrap().to_string()),
        _ => Some("in/".into()),
    };
    let mut args: Vec<String> = vec![];
    let suf_form = r.below(2);
    let tail = r.bool();
    let mut opts: Vec<String> = vec![];
    if with_suffix {
        if suf_form == 0 || suffix.is_empty() {
            opts.push("-s".into());
            opts.push(suffix.into());
        } else {
            opts.push(format!("-s{}", suffix));
        }
    }
    if let Some(f) = &folder {
        opts.push("-o".into());
        opts.push(f.clone());
    }
    if tail {
        args.extend(inputs.iter().cloned());
        args.extend(opts);
    } else {
        args.extend(opts);
        args.extend(inputs.iter().cloned());
    }
    let mut want = std::collections::BTreeMap::new();
    tree(b, &mut want);
    let before = want.clone();
    if with_suffix {
        let made: Vec<Vec<u8>> = std::thread::scope(|s| {
            let hs: Vec<_> = inputs
                .iter()
                .zip(&names)
                .map(|(input, (_, _, f))| {
                    s.spawn(move || {
                        let wm = watermarking::watermark(image::open(b.join(input)).unwrap(), 100.0, 1.0, 11);
                        let mut bytes = std::io::Cursor::new(vec![]);
                        wm.write_to(&mut bytes, *f).unwrap();
                        bytes.into_inner()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (bytes, (stem, ext, _)) in made.into_iter().zip(&names) {
            let dir = match &folder {
                Some(f) => b.join(f),
                None => b.to_path_buf(),
            };
            // paths are compared by their plain form below the scratch folder
            let out = dir.components().collect::<std::path::PathBuf>().join(format!("{}-{}.{}", stem, suffix, ext));
            let out = out.to_str().unwrap().to_string();
            if before.contains_key(&out) || want.contains_key(&out) {
                return Ok(()); // two files of one name: not covered by the property
            }
            // every other case finds an older and longer file of that name
            if idx % 2 == 0 {
                std::fs::create_dir_all(std::path::Path::new(&out).parent().unwrap()).unwrap();
                std::fs::write(&out, vec![0xa5u8; 2 * bytes.len() + 1000]).unwrap();
            }
            want.insert(out, bytes);
        }
    }
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("cli_under_test");
    let o = std::process::Command::new(&exe).args(&args).current_dir(b).stdin(std::process::Stdio::null()).output().map_err(|e| format!("{:?}: {}", exe, e));
    let d = format!("arguments {:?}, case {}", args, idx);
    let o = match o {
        Ok(o) => o,
        Err(_) => return Ok(()), // the tool was not built
    };
    ensure!(o.status.success(), "{}: ended with {}: {}", d, o.status, String::from_utf8_lossy(&o.stderr));
    let mut got = std::collections::BTreeMap::new();
    tree(b, &mut got);
    let short = |p: &str| p.replace(b.to_str().unwrap(), "");
    for (p, v) in &want {
        ensure!(got.contains_key(p), "{}: {} is missing; there are {:?}", d, short(p), got.keys().map(|k| short(k)).collect::<Vec<_>>());
        ensure!(&got[p] == v, "{}: {} {}", d, short(p), if before.contains_key(p) { "changed" } else { "does not hold the watermarked picture" });
    }
    for p in got.keys() {
        ensure!(want.contains_key(p), "{}: {} was written", d, short(p));
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C22
/// The picture as rows of red, green, blue and alpha.
#[cfg(feature = "web")]
fn rgba_bytes(i: &DynamicImage) -> Vec<u8> {
    use image::GenericImageView;
    let mut v = vec![];
    for y in 0..i.height() {
        for x in 0..i.width() {
            v.extend_from_slice(&i.get_pixel(x, y).0);
        }
    }
    v
}

#[cfg(feature = "web")]
fn c22_binding(idx: u64) -> Res {
    use image::ImageFormat::*;
    let mut r = rnd(22, idx);
    let kinds = [(Png, "Png"), (Bmp, "Bmp"), (Tiff, "Tiff"), (Jpeg, "Jpeg"), (Gif, "Gif")];
    let (f, name) = if idx < 10 { kinds[idx as usize % 5] } else { *r.pick(&kinds) };
    // one channel takes about a second
    let colors: &[u8] = match f {
        Png => &[0, 1, 2, 3, 4, 5, 6, 7],
        Tiff => &[0, 2, 3, 4, 6, 7],
        Bmp => &[0, 2, 3],
        Jpeg => &[0, 2],
        _ => &[3],
    };
    let color = colors[if idx < 10 { (idx as usize / 5) % colors.len() } else { r.below(colors.len()) }];
    let (w, h) = *r.pick(&[(320u32, 320u32), (320, 336), (336, 320), (640, 160)]);
    let n = (w * h) as usize;
    let (p, q) = (r.range(3, 11), r.range(5, 17));
    let v = |i: usize, c: usize| (50 + (i / w as usize * p + i % w as usize * q) / 7 % 150 + c * 9) as u8;
    let alpha = |i: usize| if i % 5 == 0 { (i % 251) as u8 } else { 255 };
    let many = |k: usize, a: bool| -> Vec<u8> { (0..k * n).map(|i| if a && i % k == k - 1 { alpha(i / k) } else { v(i / k, i % k) }).collect() };
    let many16 = |k: usize, a: bool| -> Vec<u16> { many(k, a).into_iter().enumerate().map(|(i, x)| (x as u16) << 8 | (i % 256) as u16).collect() };
    let img = match color {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, many(1, false)).unwrap()),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, many(2, true)).unwrap()),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, many(3, false)).unwrap()),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, many(4, f != Bmp && f != Gif)).unwrap()),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, many16(1, false)).unwrap()),
        5 => DynamicImage::ImageLumaA16(ImageBuffer::from_raw(w, h, many16(2, true)).unwrap()),
        6 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, many16(3, false)).unwrap()),
        _ => DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, many16(4, true)).unwrap()),
    };
    let mut bytes = std::io::Cursor::new(vec![]);
    if img.write_to(&mut bytes, f).is_err() {
        return Ok(());
    }
    let bytes = bytes.into_inner();
    let depth = *r.pick(&[100.0, 100.0, 80.0, 60.0]);
    let step = *r.pick(&[1.0, 1.0, 0.5, 2.0]);
    let source = image::load_from_memory_with_format(&bytes, f).unwrap();
    let want = match guard(|| watermarking::watermark(source.clone(), depth, step, 11)) {
        Ok(x) => x,
        Err(_) => return Ok(()), // outside the range of C16
    };
    let d = format!("{} of {}x{}, {:?}, depth {}, step {}, case {}", name, w, h, source.color(), depth, step, idx);
    let blob = js_sys::Uint8Array::from(&bytes[..]);
    let mut got = guard(|| web::get_watermarking_process(blob.clone(), depth, step)).map_err(|p| format!("{}: panicked: {}", d, p))?;
    ensure!(blob.to_vec() == bytes, "{}: the given array was changed", d);
    ensure!(got.get_source_format() == name, "{}: the format is reported as {}", d, got.get_source_format());
    let (mut a, b) = (got.get_source(), got.get_watermarked());
    for (m, pic, what) in [(&a, &source, "source"), (&b, &want, "watermarked picture")] {
        ensure!(m.get_width() == pic.width() && m.get_height() == pic.height(), "{}: the {} is reported as {}x{}", d, what, m.get_width(), m.get_height());
        let (x, y) = (m.get_data().to_vec(), rgba_bytes(pic));
        ensure!(x.len() == y.len(), "{}: the {} has {} bytes instead of {}", d, what, x.len(), y.len());
        if let Some(i) = (0..x.len()).find(|&i| x[i] != y[i]) {
            return Err(format!("{}: byte {} of the {} is {} instead of {}", d, i, what, x[i], y[i]));
        }
    }
    // the setters change their own field
    let other = js_sys::Uint8Array::from(&[1u8, 2, 3][..]);
    let keep = a.get_data().to_vec();
    a.set_width(7);
    ensure!(a.get_width() == 7 && a.get_height() == source.height() && a.get_data().to_vec() == keep, "{}: set_width", d);
    a.set_height(9);
    ensure!(a.get_width() == 7 && a.get_height() == 9 && a.get_data().to_vec() == keep, "{}: set_height", d);
    a.set_data(other);
    ensure!(a.get_width() == 7 && a.get_height() == 9 && a.get_data().to_vec() == [1, 2, 3], "{}: set_data", d);
    let same = |x: &js_sys::Uint8Array, y: &[u8]| x.to_vec() == y;
    got.set_source(a);
    ensure!(got.get_source().get_width() == 7 && got.get_source().get_height() == 9 && same(&got.get_source().get_data(), &[1, 2, 3]), "{}: set_source", d);
    ensure!(same(&got.get_watermarked().get_data(), &rgba_bytes(&want)) && got.get_source_format() == name, "{}: set_source changes another field", d);
    let s = got.get_source();
    got.set_source(b);
    got.set_watermarked(s);
    ensure!(same(&got.get_watermarked().get_data(), &[1, 2, 3]) && same(&got.get_source().get_data(), &rgba_bytes(&want)) && got.get_source_format() == name, "{}: set_watermarked", d);
    got.set_source_format("x y".into());
    ensure!(got.get_source_format() == "x y" && got.get_watermarked().get_width() == 7 && got.get_source().get_width() == w, "{}: set_source_format", d);
    Ok(())
}
#[cfg(feature = "web")]
fn c22_refused(idx: u64) -> Res {
    let mut r = rnd(122, idx);
    let f = *r.pick(&[image::ImageFormat::Png, image::ImageFormat::Bmp, image::ImageFormat::Jpeg, image::ImageFormat::Gif]);
    let img = DynamicImage::ImageRgba8(ImageBuffer::from_raw(16, 16, (0..1024).map(|i| (i * 7 % 256) as u8).collect()).unwrap());
    let img = if f == image::ImageFormat::Jpeg { DynamicImage::ImageRgb8(img.to_rgb8()) } else { img };
    let mut bytes = std::io::Cursor::new(vec![]);
    img.write_to(&mut bytes, f).unwrap();
    let good = bytes.into_inner();
    let bad: Vec<u8> = match idx % 6 {
        0 => vec![],
        1 => (0..r.range(1, 200)).map(|_| 65 + r.below(20) as u8).collect(),
        2 => good[..4.min(good.len())].to_vec(),
        3 => good[1..].to_vec(),
        4 => good[..r.range(8, 40)].to_vec(),
        _ => good.iter().map(|x| x ^ 0x55).collect(),
    };
    let known = image::guess_format(&bad).ok().map_or(false, |f| image::load_from_memory_with_format(&bad, f).is_ok());
    if known {
        return Ok(());
    }
    let blob = js_sys::Uint8Array::from(&bad[..]);
    match guard(|| web::get_watermarking_process(blob.clone(), 100.0, 1.0)) {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("{} bytes {} are no picture, but the result is a {} of {}x{}", bad.len(), short(&bad), x.get_source_format(), x.get_source().get_width(), x.get_source().get_height())),
    }
}
