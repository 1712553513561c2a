//! kemdrive: executes call scenarios against the public API of the KEM and records them.
//!
//!   kemdrive PLAN TRACE SEED THREADS
//!
//! PLAN has one session per line: `id op args ; op args ; ...`.  TRACE receives one JSON object
//! per session with the recorded calls.  Results are recorded, never judged.
mod gen;
mod prng;
mod watch;

#[global_allocator]
static ALLOCATOR: watch::Pools = watch::Pools;

use gen::{bad, Par};
use ntrust_native::{
    crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, AesState, RNGState, CRYPTO_ALGNAME, CRYPTO_BYTES,
    CRYPTO_CIPHERTEXTBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES,
};
use prng::Prng;
use std::collections::BTreeMap;
use std::error::Error;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

type Pk = [u8; CRYPTO_PUBLICKEYBYTES];
type Sk = [u8; CRYPTO_SECRETKEYBYTES];
type Ct = [u8; CRYPTO_CIPHERTEXTBYTES];
type Ss = [u8; CRYPTO_BYTES];

fn fit<const L: usize>(v: &[u8]) -> [u8; L] {
    let mut a = [0u8; L];
    let n = L.min(v.len());
    a[..n].copy_from_slice(&v[..n]);
    a
}
fn filled<const L: usize>(pre: &str, rnd: &mut Prng) -> [u8; L] {
    if pre == "r" {
        fit(&rnd.bytes(L))
    } else {
        [pre.parse().unwrap_or_else(|_| bad(pre)); L]
    }
}

#[derive(Clone)]
struct Req {
    n: usize,
    ok: bool,
    b: Vec<u8>,
}

/// a generator that delivers prepared bytes and may fail at a given request
struct Script {
    bytes: Vec<u8>,
    pos: usize,
    fail_at: usize,
    scribble: bool,
    more: Prng,
    reqs: Vec<Req>,
    inits: usize,
}
impl Script {
    fn new(bytes: Vec<u8>, more: Prng) -> Script {
        Script { bytes, pos: 0, fail_at: 0, scribble: false, more, reqs: vec![], inits: 0 }
    }
}
#[derive(Debug)]
struct Fault(String);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for Fault {}
fn fault_text(i: usize) -> String {
    format!("injected generator fault {i}")
}
impl RNGState for Script {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let i = self.reqs.len() + 1;
        if self.fail_at == i {
            if self.scribble {
                x.iter_mut().for_each(|b| *b = 0xA5)
            }
            self.reqs.push(Req { n: x.len(), ok: false, b: vec![] });
            return Err(Box::new(Fault(fault_text(i))));
        }
        for b in x.iter_mut() {
            *b = if self.pos < self.bytes.len() { self.bytes[self.pos] } else { self.more.next() as u8 };
            self.pos += 1
        }
        self.reqs.push(Req { n: x.len(), ok: true, b: x.to_vec() });
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {
        self.inits += 1
    }
}
/// a recording wrapper of the bundled generator
struct Rec<'a> {
    inner: &'a mut AesState,
    reqs: Vec<Req>,
    inits: usize,
}
impl RNGState for Rec<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let r = self.inner.randombytes(x);
        self.reqs.push(Req { n: x.len(), ok: r.is_ok(), b: x.to_vec() });
        r
    }
    fn randombytes_init(&mut self, e: [u8; 48]) {
        self.inits += 1;
        self.inner.randombytes_init(e)
    }
}

/// "ok", "err: text" or "panic: text"
fn outcome(r: std::thread::Result<Result<(), Box<dyn Error>>>) -> String {
    match r {
        Ok(Ok(())) => "ok".into(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(p) => {
            let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("panic: {}", t.unwrap_or_default())
        }
    }
}
fn guard<F: FnOnce() -> Result<(), Box<dyn Error>>>(f: F) -> String {
    outcome(catch_unwind(AssertUnwindSafe(f)))
}

// ---- JSON -----------------------------------------------------------------
fn jb(o: &mut String, k: &str, v: &[u8]) {
    let _ = write!(o, ",\"{k}\":[");
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            o.push(',')
        }
        let _ = write!(o, "{b}");
    }
    o.push(']')
}
fn js(o: &mut String, k: &str, v: &str) {
    let _ = write!(o, ",\"{k}\":\"");
    for c in v.chars() {
        match c {
            '"' => o.push('\''),
            '\\' => o.push('/'),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"')
}
fn ji<T: std::fmt::Display>(o: &mut String, k: &str, v: T) {
    let _ = write!(o, ",\"{k}\":{v}");
}
fn jst(o: &mut String, k: &str, s: &AesState) {
    let mut t = String::new();
    jb(&mut t, "key", &s.key);
    jb(&mut t, "v", &s.v);
    ji(&mut t, "rc", s.reseed_counter);
    let _ = write!(o, ",\"{k}\":{{{}}}", &t[1..]);
}
fn jreq(o: &mut String, reqs: &[Req], bytes: bool) {
    o.push_str(",\"req\":[");
    for (i, r) in reqs.iter().enumerate() {
        let mut t = String::new();
        ji(&mut t, "n", r.n);
        ji(&mut t, "ok", r.ok);
        jb(&mut t, "b", if bytes { &r.b } else { &[] });
        let _ = write!(o, "{}{{{}}}", if i > 0 { "," } else { "" }, &t[1..]);
    }
    o.push(']')
}
fn hex(v: &[u8]) -> String {
    let mut s = String::new();
    for b in v {
        let _ = write!(s, "{b:02x}");
    }
    s
}

// ---- sessions ---------------------------------------------------------------
#[derive(Clone)]
enum Call {
    Kp(Vec<u8>),
    Enc(Vec<u8>, Box<Pk>),
    Dec(Box<Ct>, Box<Sk>),
}

impl Call {
    fn letter(&self) -> char {
        match self {
            Call::Kp(_) => 'k',
            Call::Enc(..) => 'e',
            Call::Dec(..) => 'd',
        }
    }
}

struct Sess<'a> {
    p: &'a Par,
    rnd: Prng,
    rngs: BTreeMap<String, AesState>,
    keys: BTreeMap<String, (Box<Pk>, Box<Sk>)>,
    encs: BTreeMap<String, (Box<Ct>, Box<Ss>)>,
    calls: BTreeMap<usize, Call>,
    ev: Vec<String>,
    watch: bool,
}

impl Sess<'_> {
    fn rng(&mut self, h: &str) -> &mut AesState {
        self.rngs.get_mut(h).unwrap_or_else(|| bad(h))
    }

    /// a scripted generator `s:C1/C2/C3` with an optional fault suffix `!i` (fail at request i) or
    /// `!i!` (scribble over the buffer first)
    fn script(&mut self, spec: &str, enc: bool, key: Option<(Box<Pk>, Box<Sk>)>) -> Script {
        let (c, fault) = spec.split_once('!').map(|(a, b)| (a, Some(b))).unwrap_or((spec, None));
        let parts: Vec<&str> = c[2..].split('/').collect();
        let mut bytes = if enc {
            gen::rm(self.p, parts[0], parts[1], key.as_ref().map(|k| (&k.0[..], &k.1[..])), &mut self.rnd)
        } else {
            gen::fg(self.p, parts[0], parts[1], &mut self.rnd)
        };
        if !enc {
            bytes.extend(gen::block(parts[2], 32, &self.rnd));
        }
        let mut s = Script::new(bytes, Prng::new(&[self.rnd.next()]));
        if let Some(x) = fault {
            s.scribble = x.ends_with('!');
            s.fail_at = x.trim_end_matches('!').parse().unwrap_or_else(|_| bad(spec));
        }
        s
    }

    fn op(&mut self, line: &str) {
        let a: Vec<&str> = line.split_whitespace().collect();
        let mut o = String::new();
        let idx = self.ev.len() + 1;
        js(&mut o, "op", a[0]);
        match a[0] {
            "rnew" | "rdef" => {
                let s = if a[0] == "rnew" { AesState::new() } else { AesState::default() };
                ji(&mut o, "r", a[1]);
                jst(&mut o, "st", &s);
                self.rngs.insert(a[1].into(), s);
            }
            "rset" => {
                let mut s = AesState::new();
                s.key = fit(&gen::block(a[2], 32, &self.rnd));
                s.v = fit(&gen::block(a[3], 16, &self.rnd));
                s.reseed_counter = a[4].parse().unwrap_or_else(|_| bad(line));
                ji(&mut o, "r", a[1]);
                jst(&mut o, "st", &s);
                self.rngs.insert(a[1].into(), s);
            }
            "rinit" => {
                let seed = gen::block(a[2], 48, &self.rnd);
                let s = self.rng(a[1]);
                let res = guard(|| {
                    s.randombytes_init(fit(&seed));
                    Ok(())
                });
                js(&mut o, "res", &res);
                ji(&mut o, "r", a[1]);
                jb(&mut o, "seed", &seed);
                jst(&mut o, "st", s);
            }
            "rclone" => {
                let s = self.rng(a[2]).clone();
                ji(&mut o, "r", a[1]);
                ji(&mut o, "from", a[2]);
                ji(&mut o, "eq", s == *self.rng(a[2]));
                jst(&mut o, "st", &s);
                self.rngs.insert(a[1].into(), s);
            }
            "req" => {
                let s = self.rng(a[1]).clone();
                ji(&mut o, "r", a[1]);
                ji(&mut o, "q", a[2]);
                ji(&mut o, "eq", s == *self.rng(a[2]));
            }
            "rb" => {
                let n: usize = a[2].parse().unwrap_or_else(|_| bad(line));
                let mut x = self.rnd.bytes(n);
                let s = self.rng(a[1]);
                let res = guard(|| s.randombytes(&mut x));
                js(&mut o, "res", &res);
                ji(&mut o, "r", a[1]);
                ji(&mut o, "n", n);
                jb(&mut o, "out", &x);
                jst(&mut o, "st", s);
            }
            "kset" => {
                let (pl, sl) = (CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES);
                let pick = |x: &str, n: usize, me: &Self| -> Vec<u8> {
                    // key bytes of an existing pair, possibly with one byte or bit changed
                    if let Some(t) = x.strip_prefix("of:") {
                        let b: Vec<&str> = t.split(',').collect();
                        let k = me.keys.get(b[0]).unwrap_or_else(|| bad(line));
                        let mut v = if n == pl { k.0.to_vec() } else { k.1.to_vec() };
                        for m in &b[1..] {
                            let w: Vec<&str> = m.split(':').collect();
                            let i: usize = w[1].parse().unwrap_or_else(|_| bad(line));
                            match w[0] {
                                "flip" => v[i / 8 % n] ^= 1 << (i % 8),
                                "flipend" => v[n - 1 - i / 8 % n] ^= 0x80 >> (i % 8),
                                "byte" => v[i % n] = w[2].parse().unwrap_or_else(|_| bad(line)),
                                "alias" => {
                                    // another byte with the same meaning in the base-3 parts
                                    let (d, t) = (gen::par().n - 1, (gen::par().n + 3) / 5);
                                    let w3 = |k: usize| if k % t == t - 1 && d % 5 != 0 { 3usize.pow((d % 5) as u32) } else { 243 };
                                    let c: Vec<usize> = (0..2 * t).filter(|&k| v[k] as usize + w3(k) < 256).collect();
                                    if !c.is_empty() {
                                        let k = if w[2] == "last" { *c.iter().rev().find(|&&k| w3(k) != 243).unwrap_or(&c[0]) } else { c[i % c.len()] };
                                        v[k] += w3(k) as u8
                                    }
                                }
                                "from" => {
                                    let c = w[2].parse().unwrap_or_else(|_| bad(line));
                                    v[i.min(n)..].iter_mut().for_each(|b| *b = c)
                                }
                                "upto" => {
                                    let c = w[2].parse().unwrap_or_else(|_| bad(line));
                                    v[..i.min(n)].iter_mut().for_each(|b| *b = c)
                                }
                                _ => bad(line),
                            }
                        }
                        v
                    } else {
                        gen::block(x, n, &me.rnd)
                    }
                };
                let pk: Pk = fit(&pick(a[2], pl, self));
                let sk: Sk = fit(&pick(a[3], sl, self));
                ji(&mut o, "k", a[1]);
                jb(&mut o, "pk", &pk);
                jb(&mut o, "sk", &sk);
                self.keys.insert(a[1].into(), (Box::new(pk), Box::new(sk)));
            }
            "kp" => {
                let mut pk: Box<Pk> = Box::new(filled(a[3], &mut self.rnd));
                let mut sk: Box<Sk> = Box::new(filled(a[3], &mut self.rnd));
                let (pk0, sk0) = (pk.clone(), sk.clone());
                ji(&mut o, "k", a[1]);
                let (res, reqs, inits);
                if let Some(h) = a[2].strip_prefix("aes:") {
                    let s = self.rng(h);
                    let mut rec = Rec { inner: s, reqs: vec![], inits: 0 };
                    res = guard(|| crypto_kem_keypair(&mut pk, &mut sk, &mut rec));
                    reqs = rec.reqs;
                    inits = rec.inits;
                    ji(&mut o, "r", h);
                    jst(&mut o, "st", s);
                } else {
                    let mut s = self.script(a[2], false, None);
                    res = guard(|| crypto_kem_keypair(&mut pk, &mut sk, &mut s));
                    reqs = s.reqs;
                    inits = s.inits;
                    ji(&mut o, "r", 0);
                    js(&mut o, "fault", &if s.fail_at > 0 { format!("err: {}", fault_text(s.fail_at)) } else { String::new() });
                }
                js(&mut o, "res", &res);
                jreq(&mut o, &reqs, true);
                ji(&mut o, "inits", inits);
                ji(&mut o, "clean", pk == pk0 && sk == sk0);
                jb(&mut o, "pk", &pk[..]);
                jb(&mut o, "sk", &sk[..]);
                self.calls.insert(idx, Call::Kp(reqs.iter().flat_map(|r| r.b.clone()).collect()));
                self.keys.insert(a[1].into(), (pk, sk));
            }
            "enc" => {
                let mut ct: Box<Ct> = Box::new(filled(a[4], &mut self.rnd));
                let mut ss: Box<Ss> = Box::new(filled(a[4], &mut self.rnd));
                let (ct0, ss0) = (ct.clone(), ss.clone());
                let pk = self.keys.get(a[2]).unwrap_or_else(|| bad(line)).0.clone();
                let pk1 = pk.clone();
                ji(&mut o, "e", a[1]);
                ji(&mut o, "k", a[2]);
                let (res, reqs, inits);
                if let Some(h) = a[3].strip_prefix("aes:") {
                    let s = self.rng(h);
                    let mut rec = Rec { inner: s, reqs: vec![], inits: 0 };
                    res = guard(|| crypto_kem_enc(&mut ct, &mut ss, &pk, &mut rec));
                    reqs = rec.reqs;
                    inits = rec.inits;
                    ji(&mut o, "r", h);
                    jst(&mut o, "st", s);
                } else {
                    let key = self.keys.get(a[2]).cloned();
                    let mut s = self.script(a[3], true, key);
                    res = guard(|| crypto_kem_enc(&mut ct, &mut ss, &pk, &mut s));
                    reqs = s.reqs;
                    inits = s.inits;
                    ji(&mut o, "r", 0);
                    js(&mut o, "fault", &if s.fail_at > 0 { format!("err: {}", fault_text(s.fail_at)) } else { String::new() });
                }
                js(&mut o, "res", &res);
                jreq(&mut o, &reqs, true);
                ji(&mut o, "inits", inits);
                ji(&mut o, "clean", ct == ct0 && ss == ss0);
                ji(&mut o, "intact", pk == pk1);
                jb(&mut o, "ct", &ct[..]);
                jb(&mut o, "ss", &ss[..]);
                self.calls.insert(idx, Call::Enc(reqs.iter().flat_map(|r| r.b.clone()).collect(), pk));
                self.encs.insert(a[1].into(), (ct, ss));
            }
            "dec" => {
                let (pk, sk) = self.keys.get(a[1]).unwrap_or_else(|| bad(line)).clone();
                let mut e = "0";
                let ct: Ct = if let Some(x) = a[2].strip_prefix("e:") {
                    let (id, rest) = x.split_once(',').map(|(i, r)| (i, Some(r))).unwrap_or((x, None));
                    let c = self.encs.get(id).unwrap_or_else(|| bad(line)).0.to_vec();
                    match rest {
                        None => {
                            e = id;
                            fit(&c)
                        }
                        Some(_) => fit(&gen::ciphertext(self.p, a[2], Some(c), &pk[..], &self.rnd)),
                    }
                } else {
                    // crafting uses the public key of another handle when `@k` is appended
                    let (s, k) = a[2].split_once('@').unwrap_or((a[2], a[1]));
                    let ck = self.keys.get(k).unwrap_or_else(|| bad(line)).0.clone();
                    fit(&gen::ciphertext(self.p, s, None, &ck[..], &self.rnd))
                };
                let (ct1, sk1) = (ct, sk.clone());
                let mut ss: Ss = filled(a[3], &mut self.rnd);
                let res = guard(|| crypto_kem_dec(&mut ss, &ct, &sk));
                ji(&mut o, "k", a[1]);
                ji(&mut o, "e", e);
                js(&mut o, "res", &res);
                ji(&mut o, "intact", ct == ct1 && sk == sk1);
                jb(&mut o, "ct", if e == "0" { &ct[..] } else { &[] });
                jb(&mut o, "ss", &ss);
                self.calls.insert(idx, Call::Dec(Box::new(ct), sk));
            }
            // repeat the call recorded as event i of this session, with other buffer contents
            "again" => {
                let i: usize = a[1].parse().unwrap_or_else(|_| bad(line));
                let call = self.calls.get(&i).unwrap_or_else(|| bad(line)).clone();
                let out = perform(&call, a[2], &mut self.rnd);
                ji(&mut o, "of", i);
                js(&mut o, "res", &out.0);
                jb(&mut o, "x", &out.1);
                jb(&mut o, "y", &out.2);
            }
            // n encapsulation/decapsulation cycles with random bytes; `new` first makes a key pair
            "burst" => {
                let n: usize = a[2].parse().unwrap_or_else(|_| bad(line));
                let mut r = Prng::new(&[self.rnd.next(), a[3].parse().unwrap_or_else(|_| bad(line))]);
                let mut res = "ok".to_string();
                if a[1] == "new" {
                    let (mut pk, mut sk): (Box<Pk>, Box<Sk>) = (Box::new(filled("0", &mut r)), Box::new(filled("0", &mut r)));
                    let mut s = Script::new(vec![], Prng::new(&[r.next()]));
                    res = guard(|| crypto_kem_keypair(&mut pk, &mut sk, &mut s));
                    self.keys.insert("new".into(), (pk, sk));
                }
                let (pk, sk) = self.keys.get(a[1]).unwrap_or_else(|| bad(line)).clone();
                let (mut es, mut ds) = (vec![], vec![]);
                for _ in 0..n {
                    let mut s = Script::new(vec![], Prng::new(&[r.next()]));
                    let mut ct: Ct = filled("0", &mut r);
                    let (mut k1, mut k2): (Ss, Ss) = (filled("1", &mut r), filled("2", &mut r));
                    let x = guard(|| crypto_kem_enc(&mut ct, &mut k1, &pk, &mut s));
                    let y = guard(|| crypto_kem_dec(&mut k2, &ct, &sk));
                    for z in [x, y] {
                        if res == "ok" {
                            res = z
                        }
                    }
                    es.push(hex(&k1));
                    ds.push(hex(&k2));
                }
                js(&mut o, "res", &res);
                let _ = write!(o, ",\"enc\":[\"{}\"],\"dec\":[\"{}\"]", es.join("\",\""), ds.join("\",\""));
            }
            "par" => self.par(&a, &mut o),
            "nest" => self.nest(&a, &mut o),
            // effects of the recorder's own, in watch mode
            "probe" => watch::probe(),
            "info" => {
                js(&mut o, "name", CRYPTO_ALGNAME);
                ji(&mut o, "pkb", CRYPTO_PUBLICKEYBYTES);
                ji(&mut o, "skb", CRYPTO_SECRETKEYBYTES);
                ji(&mut o, "ctb", CRYPTO_CIPHERTEXTBYTES);
                ji(&mut o, "ssb", CRYPTO_BYTES);
            }
            _ => bad(line),
        }
        if self.watch {
            // only what the call did to the outside, text it left in a buffer included
            let _ = std::io::stdout().flush();
            let fx: Vec<String> = watch::drain(watch::current()).iter().map(|x| x.to_string()).collect();
            o.clear();
            js(&mut o, "op", a[0]);
            let _ = write!(o, ",\"fx\":[{}]", fx.join(","));
        }
        self.ev.push(format!("{{{}}}", &o[1..]));
    }

    /// `par T R S [OPS]`: T threads concurrently make R calls each out of the calls recorded so far.
    /// The log holds <<thread, call, result>>; result 0: the call begins, k: it returns the k-th value.
    fn par(&mut self, a: &[&str], o: &mut String) {
        let t: usize = a[1].parse().unwrap_or_else(|_| bad("par"));
        let n: usize = a[2].parse().unwrap_or_else(|_| bad("par"));
        let ops = a.get(4).copied().unwrap_or("ked");
        let calls: Vec<(usize, Call)> = self.calls.iter().filter(|(_, c)| ops.contains(c.letter())).map(|(i, c)| (*i, c.clone())).collect();
        let clock = AtomicU64::new(0);
        let start = Barrier::new(t);
        let logs: Vec<Vec<(u64, usize, usize, Option<Answer>)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..t)
                .map(|id| {
                    let (clock, start, calls) = (&clock, &start, &calls);
                    let mut r = Prng::new(&[self.rnd.clone().next(), a[3].parse().unwrap_or(0), id as u64]);
                    let tag = watch::current();
                    sc.spawn(move || {
                        watch::tag(tag);
                        let mut l = vec![];
                        start.wait();
                        for _ in 0..n {
                            let (i, c) = &calls[r.below(calls.len())];
                            l.push((clock.fetch_add(1, Ordering::SeqCst), id + 1, *i, None));
                            let x = perform(c, "r", &mut r);
                            l.push((clock.fetch_add(1, Ordering::SeqCst), id + 1, *i, Some(x)));
                        }
                        l
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("par"))).collect()
        });
        let mut l: Vec<_> = logs.into_iter().flatten().collect();
        l.sort_by_key(|x| x.0);
        let mut vals: Vec<(usize, Answer)> = vec![];
        let mut out = vec![];
        for (_, id, i, x) in l {
            let v = match x {
                None => 0,
                Some(x) => match vals.iter().position(|y| y.0 == i && y.1 == x) {
                    Some(p) => p + 1,
                    None => {
                        vals.push((i, x));
                        vals.len()
                    }
                },
            };
            out.push(format!("[{id},{i},{v}]"));
        }
        let vs: Vec<String> = vals
            .iter()
            .map(|(_, x)| {
                let mut s = String::new();
                js(&mut s, "res", &x.0);
                jb(&mut s, "x", &x.1);
                jb(&mut s, "y", &x.2);
                format!("{{{}}}", &s[1..])
            })
            .collect();
        ji(o, "threads", t);
        let _ = write!(o, ",\"vals\":[{}],\"log\":[{}]", vs.join(","), out.join(","));
    }

    /// `nest A K B..`: repeats call A; before its generator answers request K it makes the calls B
    fn nest(&mut self, a: &[&str], o: &mut String) {
        let id = |x: &str| -> usize { x.parse().unwrap_or_else(|_| bad("nest")) };
        let get = |i: usize| -> Call { self.calls.get(&i).cloned().unwrap_or_else(|| bad("nest")) };
        let inner: Vec<(usize, Call)> = a[3..].iter().map(|x| (id(x), get(id(x)))).collect();
        let (Call::Kp(b) | Call::Enc(b, _)) = get(id(a[1])) else { bad("nest") };
        let rnd = self.rnd.clone();
        let mut s = Nested { script: Script::new(b, Prng::new(&[1])), at: id(a[2]), inner, rnd, got: vec![] };
        let mut r = self.rnd.clone();
        let x = match get(id(a[1])) {
            Call::Kp(_) => {
                let (mut pk, mut sk): (Box<Pk>, Box<Sk>) = (Box::new(filled("r", &mut r)), Box::new(filled("r", &mut r)));
                let q = guard(|| crypto_kem_keypair(&mut pk, &mut sk, &mut s));
                (q, pk.to_vec(), sk.to_vec())
            }
            Call::Enc(_, pk) => {
                let (mut ct, mut ss): (Ct, Ss) = (filled("r", &mut r), filled("r", &mut r));
                let q = guard(|| crypto_kem_enc(&mut ct, &mut ss, &pk, &mut s));
                (q, ct.to_vec(), ss.to_vec())
            }
            _ => bad("nest"),
        };
        let mut all = vec![(id(a[1]), x)];
        all.extend(s.got);
        let vs: Vec<String> = all
            .iter()
            .map(|(i, x)| {
                let mut s = String::new();
                ji(&mut s, "of", i);
                js(&mut s, "res", &x.0);
                jb(&mut s, "x", &x.1);
                jb(&mut s, "y", &x.2);
                format!("{{{}}}", &s[1..])
            })
            .collect();
        ji(o, "inner", a.len() - 3);
        let _ = write!(o, ",\"vals\":[{}]", vs.join(","));
    }
}

type Answer = (String, Vec<u8>, Vec<u8>);

/// a generator that uses the library itself before answering
struct Nested {
    script: Script,
    at: usize,
    inner: Vec<(usize, Call)>,
    rnd: Prng,
    got: Vec<(usize, Answer)>,
}

impl RNGState for Nested {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        self.at = self.at.wrapping_sub(1);
        if self.at == 0 {
            for (i, c) in &self.inner {
                self.got.push((*i, perform(c, "r", &mut self.rnd)));
            }
        }
        self.script.randombytes(x)
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

/// repeats a recorded call with the recorded random bytes
fn perform(c: &Call, pre: &str, rnd: &mut Prng) -> (String, Vec<u8>, Vec<u8>) {
    match c {
        Call::Kp(b) => {
            let (mut pk, mut sk): (Box<Pk>, Box<Sk>) = (Box::new(filled(pre, rnd)), Box::new(filled(pre, rnd)));
            let mut s = Script::new(b.clone(), Prng::new(&[1]));
            let r = guard(|| crypto_kem_keypair(&mut pk, &mut sk, &mut s));
            (r, pk.to_vec(), sk.to_vec())
        }
        Call::Enc(b, pk) => {
            let (mut ct, mut ss): (Ct, Ss) = (filled(pre, rnd), filled(pre, rnd));
            let mut s = Script::new(b.clone(), Prng::new(&[1]));
            let r = guard(|| crypto_kem_enc(&mut ct, &mut ss, pk, &mut s));
            (r, ct.to_vec(), ss.to_vec())
        }
        Call::Dec(ct, sk) => {
            let mut ss: Ss = filled(pre, rnd);
            let r = guard(|| crypto_kem_dec(&mut ss, ct, sk));
            (r, vec![], ss.to_vec())
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: kemdrive PLAN TRACE SEED THREADS");
        std::process::exit(3)
    }
    let plan = std::fs::read_to_string(&a[1]).expect("plan");
    let seed: u64 = a[3].parse().expect("seed");
    let threads: usize = a[4].parse().expect("threads");
    let verbose = std::env::var("KEMDRIVE_VERBOSE").is_ok();
    let limit: u64 = std::env::var("KEMDRIVE_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let watch = std::env::var("KEMDRIVE_WATCH").is_ok();
    if watch {
        watch::handle();
    }
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let lines: Vec<&str> = plan.lines().filter(|l| !l.trim().is_empty()).collect();
    let p = gen::par();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let running: Mutex<BTreeMap<usize, (usize, String, Instant)>> = Mutex::new(BTreeMap::new());
    let live = AtomicUsize::new(threads);
    let save = |hung: Option<(usize, String)>| {
        let mut v = out.lock().unwrap().clone();
        if let Some((i, op)) = hung {
            let id = lines[i].split_whitespace().next().unwrap_or("0");
            let mut s = String::new();
            js(&mut s, "call", &op);
            v.push((i, format!("{{\"id\":{id},\"ev\":[{{\"op\":\"hang\"{s}}}]}}")));
        }
        v.sort();
        let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("trace"));
        for (_, l) in v {
            f.write_all(l.as_bytes()).unwrap();
            f.write_all(b"\n").unwrap();
        }
        f.flush().unwrap();
    };
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (lines, next, out, running, p, live) = (&lines, &next, &out, &running, &p, &live);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    if watch {
                        watch::tag(w + 1);
                        watch::start();
                    }
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= lines.len() {
                            break;
                        }
                        let (id, ops) = lines[i].split_once(' ').unwrap_or_else(|| bad(lines[i]));
                        let mut s = Sess {
                            p,
                            rnd: Prng::new(&[seed, id.parse().unwrap_or_else(|_| bad(id))]),
                            rngs: BTreeMap::new(),
                            keys: BTreeMap::new(),
                            encs: BTreeMap::new(),
                            calls: BTreeMap::new(),
                            ev: vec![],
                            watch,
                        };
                        for op in ops.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()) {
                            running.lock().unwrap().insert(w, (i, op.to_string(), Instant::now()));
                            if verbose {
                                eprintln!("{id}: {op}")
                            }
                            s.op(op);
                        }
                        running.lock().unwrap().remove(&w);
                        out.lock().unwrap().push((i, format!("{{\"id\":{id},\"ev\":[{}]}}", s.ev.join(","))));
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // a call that does not return is recorded as such
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let hung = running
                .lock()
                .unwrap()
                .values()
                .find(|(_, _, t)| t.elapsed() > Duration::from_secs(limit))
                .map(|(i, op, _)| (*i, op.clone()));
            if hung.is_some() {
                save(hung);
                std::process::exit(0)
            }
        }
    });
    save(None);
}
