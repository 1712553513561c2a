//! Input classes of the scenarios: from a class name to concrete bytes.
//! This is the adversary's and the environment's side; nothing here judges a result.
use crate::prng::Prng;
use ntrust_native::CRYPTO_ALGNAME;

pub struct Par {
    pub n: usize,
    pub logq: usize,
    pub hrss: bool,
}

pub fn par() -> Par {
    let (n, logq, hrss) = match std::env::var("KEMDRIVE_VARIANT").as_deref().unwrap_or(CRYPTO_ALGNAME) {
        "ntruhps2048509" => (509, 11, false),
        "ntruhps2048677" => (677, 11, false),
        "ntruhps4096821" => (821, 12, false),
        "ntruhrss701" => (701, 13, true),
        x => {
            eprintln!("unknown variant {x}");
            std::process::exit(3)
        }
    };
    Par { n, logq, hrss }
}

impl Par {
    pub fn q(&self) -> usize {
        1 << self.logq
    }
    pub fn qbytes(&self) -> usize {
        (self.logq * (self.n - 1) + 7) / 8
    }
    pub fn ftbytes(&self) -> usize {
        (30 * (self.n - 1) + 7) / 8
    }
}

fn num(s: &str) -> i64 {
    s.parse().unwrap_or_else(|_| {
        eprintln!("bad number {s}");
        std::process::exit(3)
    })
}
pub fn bad(s: &str) -> ! {
    eprintln!("bad plan item {s}");
    std::process::exit(3)
}

/// n-1 ternary coefficients
pub fn tern(p: &Par, c: &str, rnd: &Prng) -> Vec<u8> {
    let d = p.n - 1;
    let a: Vec<&str> = c.split(':').collect();
    let i = |k: usize| num(a[k]) as usize;
    let mut v = vec![0u8; d];
    match a[0] {
        "rand" => {
            let mut r = Prng::new(&[rnd.clone().next(), i(1) as u64, 1]);
            v.iter_mut().for_each(|x| *x = r.below(3) as u8)
        }
        "raw" => v.iter_mut().for_each(|x| *x = (i(1) % 3) as u8),
        "const" => v.iter_mut().for_each(|x| *x = i(1) as u8),
        "mono" => v[i(1) % d] = i(2) as u8,
        "but" => {
            v.iter_mut().for_each(|x| *x = i(1) as u8);
            v[i(2) % d] = i(3) as u8
        }
        "alt" => (0..d).for_each(|k| v[k] = i(1 + k % 2) as u8),
        "per" => (0..d).for_each(|k| v[k] = i(1 + k % (a.len() - 1)) as u8),
        "prefix" => (0..d).for_each(|k| v[k] = if k < i(1) { i(2) as u8 } else { 0 }),
        "suffix" => (0..d).for_each(|k| v[k] = if k + i(1) >= d { i(2) as u8 } else { 0 }),
        "sparse" => {
            let mut r = Prng::new(&[rnd.clone().next(), i(2) as u64, 2]);
            for _ in 0..i(1) {
                let k = r.below(d);
                v[k] = 1 + r.below(2) as u8
            }
        }
        "dense" => {
            let mut r = Prng::new(&[rnd.clone().next(), i(2) as u64, 3]);
            v.iter_mut().for_each(|x| *x = 1 + r.below(2) as u8);
            for _ in 0..i(1) {
                v[r.below(d)] = 0
            }
        }
        // exactly `1` ones and `2` twos in random places
        "w" => {
            let mut r = Prng::new(&[rnd.clone().next(), i(3) as u64, 4]);
            let (o, t) = (i(1), i(2));
            for (k, x) in v.iter_mut().enumerate() {
                *x = if k < o { 1 } else if k < o + t { 2 } else { 0 }
            }
            for k in (1..d).rev() {
                let j = r.below(k + 1);
                v.swap(k, j)
            }
        }
        // correlation with the own shift exactly `1`: separated equal / opposite pairs
        "corr" => {
            let c = num(a[1]);
            let mut r = Prng::new(&[rnd.clone().next(), i(2) as u64, 5]);
            let slots = d / 3;
            let extra = r.below((slots - c.unsigned_abs() as usize) / 2 + 1);
            let (mut pos, mut neg) = (extra, extra);
            if c >= 0 {
                pos += c as usize
            } else {
                neg += (-c) as usize
            }
            let mut kind = vec![0; slots];
            for (k, x) in kind.iter_mut().enumerate() {
                *x = if k < pos { 1 } else if k < pos + neg { 2 } else { 0 }
            }
            for k in (1..slots).rev() {
                let j = r.below(k + 1);
                kind.swap(k, j)
            }
            for (s, k) in kind.iter().enumerate() {
                let x = 1 + r.below(2) as u8;
                match k {
                    1 => {
                        v[3 * s] = x;
                        v[3 * s + 1] = x
                    }
                    2 => {
                        v[3 * s] = x;
                        v[3 * s + 1] = 3 - x
                    }
                    _ => v[3 * s] = if r.below(2) == 0 { x } else { 0 },
                }
            }
        }
        _ => bad(c),
    }
    v
}

/// bytes whose residues modulo 3 are the given coefficients
fn tern_bytes(v: &[u8], r: &mut Prng) -> Vec<u8> {
    v.iter()
        .map(|&t| match r.below(8) {
            0 => t,
            1 => if t == 0 { 255 } else { 252 + t },
            2 => 252 + t,
            _ => {
                let k = r.below(if t == 0 { 86 } else { 85 }) as u16;
                (3 * k + t as u16) as u8
            }
        })
        .collect()
}

/// n-1 words of 30 bits
fn words(p: &Par, c: &str, rnd: &Prng) -> Vec<u32> {
    let d = p.n - 1;
    const M: u32 = (1 << 30) - 1;
    let a: Vec<&str> = c.split(':').collect();
    let i = |k: usize| num(a[k]) as usize;
    let last = || num(a[a.len() - 1]) as u64;
    let g = rnd.clone().next();
    match a[0] {
        "rand" => {
            let mut r = Prng::new(&[g, last(), 11]);
            (0..d).map(|_| r.next() as u32 & M).collect()
        }
        // sorted increasing / decreasing as signed words
        "asc" => (0..d).map(|k| (k as u32).wrapping_mul(M / d as u32).wrapping_add(1 << 29) & M).collect(),
        "desc" => (0..d).rev().map(|k| (k as u32).wrapping_mul(M / d as u32).wrapping_add(1 << 29) & M).collect(),
        "tie" => vec![i(1) as u32 & M; d],
        "two" => {
            let mut r = Prng::new(&[g, last(), 12]);
            (0..d).map(|_| i(1 + r.below(2)) as u32 & M).collect()
        }
        "ext" => {
            let mut r = Prng::new(&[g, last(), 13]);
            const E: [u32; 8] = [0, 1, M, M - 1, 1 << 29, (1 << 29) - 1, (1 << 29) + 1, 1 << 28];
            (0..d).map(|_| E[r.below(8)]).collect()
        }
        "few" => {
            let mut r = Prng::new(&[g, last(), 14]);
            let base = r.next() as u32 & M;
            (0..d).map(|_| base.wrapping_add(r.below(i(1)) as u32) & M).collect()
        }
        // small permuted values
        "perm" => {
            let mut r = Prng::new(&[g, last(), 15]);
            let mut v: Vec<u32> = (0..d as u32).collect();
            for k in (1..d).rev() {
                let j = r.below(k + 1);
                v.swap(k, j)
            }
            v.iter().map(|x| x.wrapping_sub(d as u32 / 2) & M).collect()
        }
        // 0-1 principle: step at a position, either direction
        "step" => (0..d).map(|k| if (k < i(1)) == (a[2] == "0") { 5 } else { M - 5 }).collect(),
        "one" => (0..d).map(|k| if k == i(1) % d { i(2) as u32 & M } else { 77 }).collect(),
        "swap" => {
            let mut v: Vec<u32> = (0..d as u32).collect();
            v.swap(i(1) % d, i(2) % d);
            v
        }
        // orders that are regular at some power of two, so that every comparison of a sorting
        // network decides the outcome for some of them
        "net" => {
            let mut r = Prng::new(&[g, last(), 16]);
            let p = 1usize << r.below(10);
            let (rot, up, noise) = (r.below(d), r.below(2) == 0, r.below(4));
            let (m1, m2) = (r.below(d), r.below(d));
            let t: Vec<u32> = (0..1024).map(|_| r.below(1 << 12) as u32).collect();
            let kind = r.below(8);
            (0..d)
                .map(|k| {
                    let v = r.next() as u32 & M;
                    let turned = (k + rot) % d;
                    let x = match kind {
                        0 => v,
                        1 => {
                            let x = ((k % p) * 1024 + k / p) as u32;
                            (if up { x } else { (1 << 20) - x }) << 9
                        }
                        2 => (t[k % p] * 1024 + (k / p) as u32) << 7,
                        3 => (t[k / p] * 1024 + (if up { k % p } else { 1023 - k % p }) as u32) << 7,
                        4 => ((if up { turned } else { d - turned }) as u32) << 20,
                        5 => ((if k == m1 { 0 } else if k == m2 { 2000 } else { k + 1 }) as u32) << 18,
                        6 => ((t[k % p] & 1) * 500_000 + (if up { k } else { 1000 - k }) as u32 * 100) << 8,
                        _ => ((if (k / p) % 2 == 1 { k } else { d - k }) as u32) << 18,
                    };
                    let x = match noise {
                        0 => x.wrapping_add(v % 1024),
                        1 if v % 50 == 0 => v / 8,
                        _ => x,
                    };
                    x & M
                })
                .collect()
        }
        // one bit of one word set, all others in the middle
        "bit" => (0..d).map(|k| if k == i(1) % d { 1u32 << (i(2) % 30) } else { 0 }).collect(),
        _ => bad(c),
    }
}

fn pack_words(p: &Par, w: &[u32]) -> Vec<u8> {
    let mut out = vec![0u8; p.ftbytes()];
    for (k, x) in w.iter().enumerate() {
        for b in 0..30 {
            if (x >> b) & 1 == 1 {
                let o = 30 * k + b;
                out[o / 8] |= 1 << (o % 8);
            }
        }
    }
    out
}

/// bytes of a "fixed type" or second ternary sample; class prefix `raw:` gives constant bytes
fn second(p: &Par, c: &str, rnd: &mut Prng) -> Vec<u8> {
    let len = if p.hrss { p.n - 1 } else { p.ftbytes() };
    if let Some(b) = c.strip_prefix("raw:") {
        return vec![num(b) as u8; len];
    }
    if let Some(s) = c.strip_prefix("rawrnd:") {
        return Prng::new(&[rnd.next(), num(s) as u64]).bytes(len);
    }
    if c.starts_with("cyc:") {
        return block(c, len, rnd);
    }
    if p.hrss {
        let t = tern(p, c, rnd);
        tern_bytes(&t, rnd)
    } else {
        let mut v = pack_words(p, &words(p, c, rnd));
        // unused bits of the last byte are arbitrary
        let used = (30 * (p.n - 1)) % 8;
        if used != 0 {
            let l = v.len() - 1;
            v[l] |= (rnd.next() as u8) << used;
        }
        v
    }
}

fn first(p: &Par, c: &str, rnd: &mut Prng) -> Vec<u8> {
    if let Some(b) = c.strip_prefix("raw:") {
        return vec![num(b) as u8; p.n - 1];
    }
    if let Some(s) = c.strip_prefix("rawrnd:") {
        return Prng::new(&[rnd.next(), num(s) as u64]).bytes(p.n - 1);
    }
    if c.starts_with("cyc:") {
        return block(c, p.n - 1, rnd);
    }
    let t = tern(p, c, rnd);
    tern_bytes(&t, rnd)
}

/// random bytes for key generation: f class, g class
pub fn fg(p: &Par, f: &str, g: &str, rnd: &mut Prng) -> Vec<u8> {
    let mut v = first(p, f, rnd);
    v.extend(second(p, g, rnd));
    v
}
/// random bytes for encapsulation: r class, m class.  Class `match:T:S` chooses signs such that
/// the coefficient of x^T of what decapsulation has to reduce becomes as large (S=1) or as small
/// (S=-1) as this key pair allows.
pub fn rm(p: &Par, r: &str, m: &str, key: Option<(&[u8], &[u8])>, rnd: &mut Prng) -> Vec<u8> {
    let mut v = match r.strip_prefix("match:") {
        Some(x) => {
            let (pk, sk) = key.unwrap_or_else(|| bad(r));
            let t = signs(p, &noise_r(p, pk, sk), x, rnd);
            tern_bytes(&t, rnd)
        }
        None => first(p, r, rnd),
    };
    match m.strip_prefix("match:") {
        Some(x) => {
            let (_, sk) = key.unwrap_or_else(|| bad(m));
            v.extend(match_m(p, sk, x, rnd))
        }
        None => v.extend(second(p, m, rnd)),
    }
    v
}

fn unpack_f(p: &Par, sk: &[u8]) -> Vec<i64> {
    (0..p.n)
        .map(|k| if k == p.n - 1 { 0 } else { (sk[k / 5] as i64 / 3i64.pow(k as u32 % 5)) % 3 })
        .map(|t| if t == 2 { -1 } else { t })
        .collect()
}
/// the integer polynomial that r is multiplied with: f*h, centered
fn noise_r(p: &Par, pk: &[u8], sk: &[u8]) -> Vec<i64> {
    let (f, h, q) = (unpack_f(p, sk), unpack_h(p, pk), p.q() as i64);
    let mut w = vec![0i64; p.n];
    for (i, &fi) in f.iter().enumerate() {
        if fi != 0 {
            for j in 0..p.n {
                w[(i + j) % p.n] += fi * h[j]
            }
        }
    }
    w.iter().map(|x| (x + q / 2).rem_euclid(q) - q / 2).collect()
}
/// ternary u with u_i = S * sign(w_(T-i)), random where w is zero
fn signs(p: &Par, w: &[i64], ts: &str, rnd: &mut Prng) -> Vec<u8> {
    let (t, s) = ts.split_once(':').unwrap_or_else(|| bad(ts));
    let (t, s) = (num(t) as usize, num(s));
    (0..p.n - 1)
        .map(|i| match (s * w[(t + p.n - i) % p.n]).signum() {
            1 => 1,
            -1 => 2,
            _ => rnd.below(3) as u8,
        })
        .collect()
}
fn match_m(p: &Par, sk: &[u8], ts: &str, rnd: &mut Prng) -> Vec<u8> {
    let f = unpack_f(p, sk);
    let n = p.n;
    if p.hrss {
        // Lift(m) = (x-1) v with v free: match v to (x-1) f, then m = (x-1) v modulo 3
        let w: Vec<i64> = (0..n).map(|k| f[(k + n - 1) % n] - f[k]).collect();
        let mut v: Vec<i64> = signs(p, &w, ts, rnd).iter().map(|&x| x as i64).collect();
        v.push(0);
        let m: Vec<i64> = (0..n).map(|k| v[(k + n - 1) % n] - v[k]).collect();
        let m: Vec<u8> = (0..n - 1).map(|k| (m[k] - m[n - 1]).rem_euclid(3) as u8).collect();
        return tern_bytes(&m, rnd);
    }
    let half = (p.q() / 8 - 2) / 2;
    let u = signs(p, &f, ts, rnd);
    let (t, _) = ts.split_once(':').unwrap_or_else(|| bad(ts));
    let t = num(t) as usize;
    // matched places first (in random order), then those where f is zero, then the others
    let mut order: Vec<usize> = (0..n - 1).collect();
    for k in (1..n - 1).rev() {
        order.swap(k, rnd.below(k + 1))
    }
    order.sort_by_key(|&i| f[(t + n - i) % n] == 0);
    let mut m = vec![0u8; n - 1];
    let mut left = [0, half, half];
    for &i in &order {
        if left[u[i] as usize] > 0 {
            m[i] = u[i];
            left[u[i] as usize] -= 1
        }
    }
    for &i in &order {
        for c in 1..3u8 {
            if m[i] == 0 && left[c as usize] > 0 {
                m[i] = c;
                left[c as usize] -= 1
            }
        }
    }
    pack_words(p, &words_for(p, &m, rnd))
}
/// words whose sorted order puts the tags where m has its coefficients
fn words_for(p: &Par, m: &[u8], rnd: &mut Prng) -> Vec<u32> {
    let d = p.n - 1;
    let half = (p.q() / 8 - 2) / 2;
    let mut next = [2 * half, 0, half];
    let step = ((1u64 << 30) - 1) / d as u64;
    let mut w = vec![0u32; d];
    for (k, &c) in m.iter().enumerate() {
        let i = next[c as usize];
        next[c as usize] += 1;
        let x = k as u64 * step + rnd.below(step as usize) as u64;
        w[i] = ((x + (1 << 29)) & ((1 << 30) - 1)) as u32
    }
    w
}

pub fn block(c: &str, n: usize, rnd: &Prng) -> Vec<u8> {
    let a: Vec<&str> = c.split(':').collect();
    match a[0] {
        "rnd" => Prng::new(&[rnd.clone().next(), num(a[1]) as u64, 21]).bytes(n),
        "fill" => vec![num(a[1]) as u8; n],
        "cnt" => (0..n).map(|x| x as u8).collect(),
        "le" => {
            let mut v = vec![0; n];
            v[..4].copy_from_slice(&(num(a[1]) as u32).to_le_bytes());
            v
        }
        // `1` random bytes over and over
        "cyc" => {
            let v = Prng::new(&[num(a[1]) as u64, num(a[2]) as u64, 24]).bytes(num(a[1]) as usize);
            (0..n).map(|x| v[x % v.len()]).collect()
        }
        // one bit set
        "bit" => {
            let mut v = vec![0; n];
            let b = num(a[1]) as usize % (8 * n);
            v[b / 8] = 1 << (b % 8);
            v
        }
        // random bytes with one byte forced
        "byte" => {
            let mut v = Prng::new(&[rnd.clone().next(), num(a[3]) as u64, 22]).bytes(n);
            let l = v.len();
            v[num(a[1]) as usize % l] = num(a[2]) as u8;
            v
        }
        // a big-endian counter whose last `1` bytes are all ones, minus `2`
        "carry" => {
            let k = num(a[1]) as usize;
            let mut v = Prng::new(&[rnd.clone().next(), num(a[3]) as u64, 23]).bytes(n);
            if k < n {
                v[n - k - 1] &= 0x7f
            }
            let l = v.len();
            for x in v[l - k..].iter_mut() {
                *x = 255
            }
            v[l - 1] = v[l - 1].wrapping_sub(num(a[2]) as u8);
            v
        }
        _ => bad(c),
    }
}

/// the adversary's own arithmetic, for crafting ciphertexts
fn unpack_h(p: &Par, b: &[u8]) -> Vec<i64> {
    let (q, d) = (p.q() as i64, p.n - 1);
    let mut h = vec![0i64; p.n];
    for (k, x) in h.iter_mut().enumerate().take(d) {
        for t in 0..p.logq {
            let o = k * p.logq + t;
            *x |= (((b[o / 8] >> (o % 8)) & 1) as i64) << t
        }
    }
    let s: i64 = h.iter().sum();
    h[d] = (-s).rem_euclid(q);
    h
}
fn pack_c(p: &Par, c: &[i64]) -> Vec<u8> {
    let mut out = vec![0u8; p.qbytes()];
    for k in 0..p.n - 1 {
        let x = c[k].rem_euclid(p.q() as i64);
        for t in 0..p.logq {
            if (x >> t) & 1 == 1 {
                let o = k * p.logq + t;
                out[o / 8] |= 1 << (o % 8)
            }
        }
    }
    out
}
fn lift(p: &Par, m: &[u8]) -> Vec<i64> {
    let n = p.n;
    let sg = |t: i64| if t == 2 { -1 } else { t };
    let mut v = vec![0i64; n];
    if !p.hrss {
        for k in 0..n - 1 {
            v[k] = sg(m[k] as i64)
        }
        return v;
    }
    // w with (x-1) w = m in S_3: w = m * (sum i x^i)/n
    let ninv = if n % 3 == 1 { 1 } else { 2 };
    let mut w = vec![0i64; n];
    for (i, &mi) in m.iter().enumerate() {
        if mi != 0 {
            for j in 0..n {
                let k = (i + j) % n;
                w[k] += mi as i64 * ((ninv * j as i64) % 3)
            }
        }
    }
    let t = w[n - 1];
    let w: Vec<i64> = w.iter().map(|x| sg((x - t).rem_euclid(3))).collect();
    for k in 0..n {
        v[k] = w[(k + n - 1) % n] - w[k]
    }
    v
}
/// r * h + Lift(m) for an arbitrary integer polynomial r
fn craft(p: &Par, pk: &[u8], r: &[i64], m: &[u8]) -> Vec<u8> {
    let (h, n, q) = (unpack_h(p, pk), p.n, p.q() as i64);
    let mut c = lift(p, m);
    for (i, &ri) in r.iter().enumerate() {
        if ri != 0 {
            for j in 0..n {
                let k = (i + j) % n;
                c[k] = (c[k] + ri * h[j]).rem_euclid(q)
            }
        }
    }
    // the multiple of 1+x+...+x^(n-1) that makes the coefficients sum to zero, as decoding assumes
    let s = c.iter().sum::<i64>().rem_euclid(q);
    if s != 0 {
        let ninv = (1..q).step_by(2).find(|v| v * n as i64 % q == 1).unwrap_or_else(|| bad("n"));
        let k = (-s * ninv).rem_euclid(q);
        c.iter_mut().for_each(|x| *x = (*x + k).rem_euclid(q))
    }
    pack_c(p, &c)
}

/// BASE{,MOD}: BASE one of `craft:RCLASS|pos=val+pos=val|MCLASS`, `fill:B`, `rnd:S`, or given bytes
pub fn ciphertext(p: &Par, spec: &str, base: Option<Vec<u8>>, pk: &[u8], rnd: &Prng) -> Vec<u8> {
    let mut it = spec.split(',');
    let b = it.next().unwrap();
    let mut ct = if let Some(v) = base {
        v
    } else if let Some(x) = b.strip_prefix("craft:") {
        let parts: Vec<&str> = x.split('|').collect();
        let mut r: Vec<i64> = tern(p, parts[0], rnd).iter().map(|&t| if t == 2 { -1 } else { t as i64 }).collect();
        for m in parts[1].split('+').filter(|s| !s.is_empty()) {
            let (k, v) = m.split_once('=').unwrap_or_else(|| bad(m));
            r[num(k) as usize % (p.n - 1)] = num(v)
        }
        craft(p, pk, &r, &tern(p, parts[2], &Prng::new(&[rnd.clone().next(), 77])))
    } else {
        block(b, p.qbytes(), rnd)
    };
    let last = ct.len() - 1;
    let padbits = (8 - (p.logq * (p.n - 1)) % 8) % 8;
    for m in it {
        let a: Vec<&str> = m.split(':').collect();
        let i = |k: usize| num(a[k]) as usize;
        match a[0] {
            "pad" => ct[last] = (ct[last] & (0xffu16 >> padbits) as u8) | (((i(1) as u16) << (8 - padbits)) & 0xff) as u8,
            "flip" => ct[i(1) / 8 % (last + 1)] ^= 1 << (i(1) % 8),
            "byte" => ct[i(1) % (last + 1)] = i(2) as u8,
            "coef" | "add" => {
                let mut c = unpack_h(p, &ct);
                let k = i(1) % (p.n - 1);
                c[k] = num(a[2]) + if a[0] == "add" { c[k] } else { 0 };
                let pad = if padbits == 0 { 0 } else { ct[last] >> (8 - padbits) };
                ct = pack_c(p, &c);
                if padbits != 0 {
                    ct[last] |= pad << (8 - padbits)
                }
            }
            // multiply by x^k (a valid-looking shift)
            "rot" => {
                let c = unpack_h(p, &ct);
                let k = i(1) % p.n;
                let d: Vec<i64> = (0..p.n).map(|j| c[(j + p.n - k) % p.n]).collect();
                ct = pack_c(p, &d)
            }
            _ => bad(m),
        }
    }
    ct
}
