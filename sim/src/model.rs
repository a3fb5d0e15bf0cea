//! Reference model: a small sequential implementation of the five public
//! algorithms, written from their specifications. It shares no code with the
//! library. The four third-party hashes the chains use (BLAKE-256,
//! Keccak-256, Skein-512-256, Groestl-256) are called from the same external
//! crates, which lie outside the repository and are trusted.

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

const B: usize = 12; // words per block of the sponge's full rate

fn gmix(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize) {
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}

fn round(v: &mut [u64; 16]) {
    for i in 0..4 {
        gmix(v, i, 4 + i, 8 + i, 12 + i);
    }
    for i in 0..4 {
        gmix(v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
}

fn full(v: &mut [u64; 16]) {
    for _ in 0..12 {
        round(v);
    }
}

/// What the specification says about a call.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// The call must return exactly these bytes.
    Digest(Vec<u8>),
    /// The arguments are documented as refused: the call must unwind.
    Refuse,
    /// Outside the documented domain: the call may do anything to itself.
    Unspecified,
}

/// Column visits a call makes, as a measure of the work its arguments ask for.
pub fn lyra2_cols(t: u64, r: u64, c: u64) -> u64 {
    let mut rows = r;
    for tau in 1..=t {
        let step = if tau % 2 == 0 { -1i64 } else { (r / 2) as i64 - 1 };
        let mut row = 0i64;
        loop {
            rows += 1;
            row = (row + step) & (r as i64 - 1);
            if row == 0 {
                break;
            }
        }
    }
    rows * c
}

/// Do the padded arguments fit the memory matrix?
pub fn fits(plen: usize, slen: usize, r: u64, c: u64) -> bool {
    let blocks = (plen + slen + 48) / 64 + 1;
    (blocks * 8) as u128 <= r as u128 * c as u128 * B as u128
}

fn lyra2_core(k: usize, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64, modified: bool) -> Vec<u8> {
    let (rows, cols) = (r as usize, c as usize);
    // pad(pwd || salt || basil): only whole 8-byte words of pwd and salt are
    // absorbed (see DESIGN.md, finding F2; pinned by the repository's tests).
    let nblocks = (pwd.len() + salt.len() + 48) / 64 + 1;
    let mut input: Vec<u64> = Vec::new();
    for part in [pwd, salt] {
        for w in part.chunks_exact(8) {
            input.push(u64::from_le_bytes(w.try_into().unwrap()));
        }
    }
    input.extend_from_slice(&[k as u64, pwd.len() as u64, salt.len() as u64, t, r, c, 0x80]);
    input.resize(nblocks * 8, 0);
    *input.last_mut().unwrap() ^= 1 << 56;

    let mut s = [0u64; 16];
    s[8..].copy_from_slice(&IV);
    for blk in input.chunks(8) {
        for i in 0..8 {
            s[i] ^= blk[i];
        }
        full(&mut s);
    }

    let mut m = vec![[0u64; B]; rows * cols];
    // M[0]
    for col in 0..cols {
        m[cols - 1 - col].copy_from_slice(&s[..B]);
        round(&mut s);
    }
    // M[1]
    for col in 0..cols {
        let p = m[col];
        for i in 0..B {
            s[i] ^= p[i];
        }
        round(&mut s);
        let q = &mut m[cols + cols - 1 - col];
        for i in 0..B {
            q[i] = p[i] ^ s[i];
        }
    }
    // Setup
    let (mut rowa, mut prev, mut step, mut window, mut gap) = (0i64, 1usize, 1i64, 2i64, 1i64);
    for row in 2..rows {
        for col in 0..cols {
            let p = m[prev * cols + col];
            let a = m[rowa as usize * cols + col];
            for i in 0..B {
                s[i] ^= p[i].wrapping_add(a[i]);
            }
            round(&mut s);
            let q = &mut m[row * cols + cols - 1 - col];
            for i in 0..B {
                q[i] = p[i] ^ s[i];
            }
            let a = &mut m[rowa as usize * cols + col];
            for i in 0..B {
                a[i] ^= s[(i + B - 1) % B];
            }
        }
        rowa = (rowa + step) & (window - 1);
        prev = row;
        if rowa == 0 {
            step = window + gap;
            window *= 2;
            gap = -gap;
        }
    }
    // Wandering
    let mask = r - 1;
    let mut row = 0usize;
    let mut inst: u64 = 0;
    for tau in 1..=t {
        let step = if tau % 2 == 0 { -1i64 } else { (r / 2) as i64 - 1 };
        loop {
            rowa = if modified {
                inst = s[(inst & 15) as usize];
                (s[(inst & 15) as usize] & mask) as i64
            } else {
                (s[0] & mask) as i64
            };
            for col in 0..cols {
                let p = m[prev * cols + col];
                let a = m[rowa as usize * cols + col];
                for i in 0..B {
                    s[i] ^= p[i].wrapping_add(a[i]);
                }
                round(&mut s);
                let q = &mut m[row * cols + col];
                for i in 0..B {
                    q[i] ^= s[i];
                }
                let a = &mut m[rowa as usize * cols + col];
                for i in 0..B {
                    a[i] ^= s[(i + B - 1) % B];
                }
            }
            prev = row;
            row = ((row as i64 + step) & mask as i64) as usize;
            if row == 0 {
                break;
            }
        }
    }
    // Wrap-up
    let last = m[rowa as usize * cols];
    for i in 0..B {
        s[i] ^= last[i];
    }
    full(&mut s);
    let mut out = Vec::with_capacity(k + 96);
    while out.len() < k {
        for w in &s[..B] {
            out.extend_from_slice(&w.to_le_bytes());
        }
        full(&mut s);
    }
    out.truncate(k);
    out
}

pub fn lyra2(k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Expect {
    if t < 1 || r < 3 {
        return Expect::Refuse;
    }
    if c < 1 || !fits(pwd.len(), salt.len(), r, c) || r > 1 << 22 || c > 1 << 22 || r * c > 1 << 22 || k > 1 << 24 {
        return Expect::Unspecified;
    }
    Expect::Digest(lyra2_core(k as usize, pwd, salt, t, r, c, false))
}

fn cubehash256(data: &[u8]) -> Vec<u8> {
    fn rounds(x: &mut [u32; 32], n: usize) {
        for _ in 0..n {
            for i in 0..16 {
                x[16 + i] = x[16 + i].wrapping_add(x[i]);
            }
            for i in 0..16 {
                x[i] = x[i].rotate_left(7);
            }
            for i in 0..8 {
                x.swap(i, i + 8);
            }
            for i in 0..16 {
                x[i] ^= x[16 + i];
            }
            for i in [16, 17, 20, 21, 24, 25, 28, 29] {
                x.swap(i, i + 2);
            }
            for i in 0..16 {
                x[16 + i] = x[16 + i].wrapping_add(x[i]);
            }
            for i in 0..16 {
                x[i] = x[i].rotate_left(11);
            }
            for i in [0, 1, 2, 3, 8, 9, 10, 11] {
                x.swap(i, i + 4);
            }
            for i in 0..16 {
                x[i] ^= x[16 + i];
            }
            for i in (16..32).step_by(2) {
                x.swap(i, i + 1);
            }
        }
    }
    let mut x = [0u32; 32];
    x[0] = 32;
    x[1] = 32;
    x[2] = 16;
    rounds(&mut x, 160);
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 32 != 0 {
        msg.push(0);
    }
    for blk in msg.chunks(32) {
        for (i, w) in blk.chunks(4).enumerate() {
            x[i] ^= u32::from_le_bytes(w.try_into().unwrap());
        }
        rounds(&mut x, 16);
    }
    x[31] ^= 1;
    rounds(&mut x, 160);
    x[..8].iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn bmw256(data: &[u8]) -> Vec<u8> {
    fn s(k: usize, x: u32) -> u32 {
        match k {
            0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
            1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
            2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
            3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
            4 => (x >> 1) ^ x,
            _ => (x >> 2) ^ x,
        }
    }
    // Signed word selections of the f0 bijection.
    const W: [[(i32, usize); 5]; 16] = [
        [(1, 5), (-1, 7), (1, 10), (1, 13), (1, 14)],
        [(1, 6), (-1, 8), (1, 11), (1, 14), (-1, 15)],
        [(1, 0), (1, 7), (1, 9), (-1, 12), (1, 15)],
        [(1, 0), (-1, 1), (1, 8), (-1, 10), (1, 13)],
        [(1, 1), (1, 2), (1, 9), (-1, 11), (-1, 14)],
        [(1, 3), (-1, 2), (1, 10), (-1, 12), (1, 15)],
        [(1, 4), (-1, 0), (-1, 3), (-1, 11), (1, 13)],
        [(1, 1), (-1, 4), (-1, 5), (-1, 12), (-1, 14)],
        [(1, 2), (-1, 5), (-1, 6), (1, 13), (-1, 15)],
        [(1, 0), (-1, 3), (1, 6), (-1, 7), (1, 14)],
        [(1, 8), (-1, 1), (-1, 4), (-1, 7), (1, 15)],
        [(1, 8), (-1, 0), (-1, 2), (-1, 5), (1, 9)],
        [(1, 1), (1, 3), (-1, 6), (-1, 9), (1, 10)],
        [(1, 2), (1, 4), (1, 7), (1, 10), (1, 11)],
        [(1, 3), (-1, 5), (1, 8), (-1, 11), (-1, 12)],
        [(1, 12), (-1, 4), (-1, 6), (-1, 9), (1, 13)],
    ];
    fn compress(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
        let mut q = [0u32; 32];
        for i in 0..16 {
            let mut w = 0u32;
            for (sg, j) in W[i] {
                let v = m[j] ^ h[j];
                w = if sg > 0 { w.wrapping_add(v) } else { w.wrapping_sub(v) };
            }
            q[i] = s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
        }
        for i in 16..32 {
            let j = i - 16;
            let rot = |x: usize| m[x % 16].rotate_left((x % 16) as u32 + 1);
            let add = rot(j)
                .wrapping_add(rot(j + 3))
                .wrapping_sub(rot(j + 10))
                .wrapping_add((i as u32).wrapping_mul(0x05555555))
                ^ h[(j + 7) % 16];
            let mut a = 0u32;
            if i < 18 {
                for n in 0..16 {
                    a = a.wrapping_add(s((n + 1) % 4, q[j + n]));
                }
            } else {
                const R: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
                for n in 0..7 {
                    a = a.wrapping_add(q[j + 2 * n]);
                    a = a.wrapping_add(q[j + 2 * n + 1].rotate_left(R[n]));
                }
                a = a.wrapping_add(s(4, q[j + 14])).wrapping_add(s(5, q[j + 15]));
            }
            q[i] = a.wrapping_add(add);
        }
        let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
        let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
        let sh = |x: u32, n: i32| if n >= 0 { x << n } else { x >> -n };
        let mut o = [0u32; 16];
        const A: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
        for i in 0..8 {
            o[i] = (sh(xh, A[i].0) ^ sh(q[16 + i], A[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
        }
        const C: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
        for i in 0..8 {
            o[8 + i] = o[(4 + i) % 8]
                .rotate_left(9 + i as u32)
                .wrapping_add(xh ^ q[24 + i] ^ m[8 + i])
                .wrapping_add(sh(xl, C[i]) ^ q[16 + (7 + i) % 8] ^ q[8 + i]);
        }
        o
    }
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
    let mut h = [0u32; 16];
    for i in 0..16u32 {
        h[i as usize] = 0x40414243 + i * 0x04040404;
    }
    for blk in msg.chunks(64) {
        let mut m = [0u32; 16];
        for (i, w) in blk.chunks(4).enumerate() {
            m[i] = u32::from_le_bytes(w.try_into().unwrap());
        }
        h = compress(&h, &m);
    }
    let mut fin = [0u32; 16];
    for i in 0..16u32 {
        fin[i as usize] = 0xaaaaaaa0 + i;
    }
    let h = compress(&fin, &h);
    h[8..].iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn blake256(d: &[u8]) -> Vec<u8> {
    use blake_hash::Digest;
    blake_hash::Blake256::digest(d).to_vec()
}
fn keccak256(d: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    sha3::Keccak256::digest(d).to_vec()
}
fn skein256(d: &[u8]) -> Vec<u8> {
    use blake_hash::Digest;
    skein_hash::Skein512::<digest::generic_array::typenum::U32>::digest(d).to_vec()
}
fn groestl256(d: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    groestl::Groestl256::digest(d).to_vec()
}

/// The one-argument functions: 0 lyra2, 1 lyra2z, 2 lyra2re, 3 lyra2rev2, 4 lyra2rev3.
pub const SUM_NAMES: [&str; 5] = ["lyra2", "lyra2z", "lyra2re", "lyra2rev2", "lyra2rev3"];

pub fn sum(f: u8, d: &[u8]) -> Expect {
    let core = |d: &[u8], t, r, c, md| lyra2_core(32, d, d, t, r, c, md);
    Expect::Digest(match f {
        0 => return lyra2(32, d, d, 1, 4, 4),
        1 => core(&blake256(d), 8, 8, 8, false),
        2 => {
            let h = keccak256(&blake256(d));
            groestl256(&skein256(&core(&h, 1, 8, 8, false)))
        }
        3 => {
            let h = cubehash256(&keccak256(&blake256(d)));
            bmw256(&cubehash256(&skein256(&core(&h, 1, 4, 4, false))))
        }
        _ => {
            let h = cubehash256(&core(&blake256(d), 1, 4, 4, true));
            bmw256(&core(&h, 1, 4, 4, true))
        }
    })
}

/// Known answers, so that a slip in the model is an error of the harness and
/// never a verdict on the library.
pub fn self_test() -> Result<(), String> {
    let hex = |e: Expect| match e {
        Expect::Digest(d) => d.iter().map(|b| format!("{:02x}", b)).collect::<String>(),
        o => format!("{:?}", o),
    };
    let wk = "脇山珠美ちゃんかわいい！".as_bytes();
    let em = "😀😁😂".as_bytes();
    let hdr: Vec<u8> = (0..80).map(|i| u8::from_str_radix(&"700000005d385ba114d079971b29a9418fd0549e7d68a95c7f168621a314201000000000578586d149fd07b22f3a8a347c516de7052f034d2b76ff68e0d6ecff9b77a45489e3fd511732011df0731000"[2 * i..2 * i + 2], 16).unwrap()).collect();
    let kats: Vec<(String, &str)> = vec![
        (hex(sum(0, b"abc")), "8f63758bd178f014ea3fd4df09ff0a61646dc574a0b6bcf2890ec529a6a7360c"),
        (hex(lyra2(48, wk, wk, 1, 3, 4)), "c937cfe0ee21a8e7c1d1871245ea717457edbee2de8bf544e50f807349a3460c52cb6bb10bd0b7328504bc2ad984e1f3"),
        (hex(lyra2(16, em, em, 1, 4, 2)), "372557ef600c8c76bedd91ecd5a01f45"),
        (hex(sum(1, b"abc")), "cf9d13829886efd875cb0d01e44a80288d478346dd721fac0e6e04fe5774879c"),
        (hex(sum(1, wk)), "576aa33e47af09af117373008cfd98b452d605e1eab6f6fe173235a3b454e059"),
        (hex(sum(2, wk)), "8361fd2586e630cf7bc8209fb05d8d24fb549cee19b1c085c2cec79c61c6cc6e"),
        (hex(sum(3, em)), "f88283ab841272a7c3803a380af32a0805448e9ea2e7c3809c4342afeeb040f1"),
        (hex(sum(4, em)), "22cb37cae128d61e3060bf45189ba9b206755728596fc8b054c5712b68c12bcb"),
        (hex(sum(4, &hdr)), "5d7b298258e78881c7831ba1e46751b089efdf1fdb9eb01edd03b8d7ed39eafb"),
    ];
    for (i, (got, want)) in kats.iter().enumerate() {
        if got != want {
            return Err(format!("model known answer {} is wrong: {} != {}", i, got, want));
        }
    }
    Ok(())
}
