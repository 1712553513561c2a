//! ctfilt ADDR: reads lackey's memory trace from stdin and prints, for the part between the two
//! stores to ADDR, digests of consecutive pieces of the instruction and of the data address stream.
use std::io::{BufRead, Write};

const PIECE: u64 = 1 << 14;

struct Stream {
    h: u64,
    n: u64,
    out: Vec<u32>,
}
impl Stream {
    fn new() -> Stream {
        Stream { h: 0xcbf2_9ce4_8422_2325, n: 0, out: vec![] }
    }
    fn cut(&mut self) {
        self.out.push(((self.h ^ (self.h >> 31)) & 0x7fff_ffff) as u32);
        self.h = 0xcbf2_9ce4_8422_2325
    }
    fn add(&mut self, l: &[u8]) {
        for b in l {
            self.h = (self.h ^ *b as u64).wrapping_mul(0x100_0000_01b3)
        }
        self.n += 1;
        if self.n % PIECE == 0 {
            self.cut()
        }
    }
}

fn main() {
    let addr = std::env::args().nth(1).expect("address");
    let addr = u64::from_str_radix(addr.trim(), 16).expect("address");
    let mut inp = std::io::BufReader::with_capacity(1 << 20, std::io::stdin());
    let (mut ins, mut mem) = (Stream::new(), Stream::new());
    let (mut l, mut marks) = (vec![], 0);
    loop {
        l.clear();
        if inp.read_until(b'\n', &mut l).unwrap_or(0) == 0 {
            break;
        }
        if l.len() < 5 || l[0] == b'=' {
            continue;
        }
        if l[1] == b'S' {
            let a = l[3..].iter().take_while(|c| c.is_ascii_hexdigit()).fold(0u64, |x, c| x << 4 | (*c as char).to_digit(16).unwrap() as u64);
            if a == addr {
                marks += 1;
                continue;
            }
        }
        if marks == 1 {
            match l[0] {
                b'I' => ins.add(&l),
                _ => mem.add(&l),
            }
        }
    }
    ins.cut();
    mem.cut();
    let j = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut o = std::io::stdout();
    let _ = writeln!(o, "\"marks\":{marks},\"ni\":{},\"nm\":{},\"ins\":[{}],\"mem\":[{}]", ins.n, mem.n, j(&ins.out), j(&mem.out));
}
