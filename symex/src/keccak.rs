const RC: [u64; 24] = [
    0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081,
    0x8000000000008009, 0x8A, 0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B,
    0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800A,
    0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];

fn f(s: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[5 * y + x] ^= d;
            }
        }
        let mut t = s[1];
        for i in 0..24 {
            let j = PIL[i];
            let b = s[j];
            s[j] = t.rotate_left(ROT[i]);
            t = b;
        }
        for y in 0..5 {
            let r: [u64; 5] = s[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 {
                s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        s[0] ^= rc;
    }
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    let mut s = [0u64; 25];
    let mut d = data.to_vec();
    d.push(1);
    while d.len() % 136 != 0 {
        d.push(0);
    }
    *d.last_mut().unwrap() |= 0x80;
    for b in d.chunks(136) {
        for (i, w) in b.chunks(8).enumerate() {
            s[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f(&mut s);
    }
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    o
}

#[test]
fn empty() {
    assert_eq!(keccak256(b"")[..4], [0xc5, 0xd2, 0x46, 0x01]);
}
