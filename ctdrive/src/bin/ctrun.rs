//! ctrun: makes one call between two marks, to be run under valgrind's lackey.
//!
//! Input (stdin): one letter for the operation, then pk, sk, ct and 8192 random bytes, always all
//! of them so that the process looks the same whatever is called.  `ctrun x` prints the address of
//! the mark.
use ntrust_native::*;
use std::error::Error;
use std::io::Read;

static mut MARK: u64 = 0;
#[inline(never)]
fn mark(x: u64) {
    unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(MARK), x) }
}
const RND: usize = 8192;

struct Feed<'a>(&'a [u8]);
impl RNGState for Feed<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let (a, b) = self.0.split_at(x.len().min(self.0.len()));
        x[..a.len()].copy_from_slice(a);
        self.0 = b;
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

fn main() {
    if std::env::args().len() > 1 {
        println!("{:x}", std::ptr::addr_of!(MARK) as usize);
        println!("{} {} {}", CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES);
        return;
    }
    let mut op = [0u8; 1];
    let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
    let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
    let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
    let mut rnd = [0u8; RND];
    let mut k = [0u8; CRYPTO_BYTES];
    let mut i = std::io::stdin();
    for b in [&mut op[..], &mut pk[..], &mut sk[..], &mut ct[..], &mut rnd[..]] {
        if i.read_exact(b).is_err() {
            std::process::exit(3)
        }
    }
    let mut g = AesState::new();
    g.key.copy_from_slice(&rnd[..32]);
    g.v.copy_from_slice(&rnd[32..48]);
    let mut seed = [0u8; 48];
    seed.copy_from_slice(&rnd[48..96]);
    let n = u16::from_le_bytes([ct[0], ct[1]]) as usize;
    let mut out = [0u8; RND];
    let mut f = Feed(&rnd);
    let r = match op[0] {
        b'k' => {
            mark(1);
            let r = crypto_kem_keypair(&mut pk, &mut sk, &mut f);
            mark(2);
            r
        }
        b'e' => {
            mark(1);
            let r = crypto_kem_enc(&mut ct, &mut k, &pk, &mut f);
            mark(2);
            r
        }
        b'd' => {
            mark(1);
            let r = crypto_kem_dec(&mut k, &ct, &sk);
            mark(2);
            r
        }
        // a request for n bytes (n public) and a seeding
        b'b' => {
            mark(1);
            let r = g.randombytes(&mut out[..n.min(RND)]);
            mark(2);
            r
        }
        b's' => {
            mark(1);
            g.randombytes_init(seed);
            mark(2);
            Ok(())
        }
        _ => std::process::exit(3),
    };
    std::process::exit(if r.is_ok() { 0 } else { 4 })
}
