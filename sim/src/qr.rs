//! Reads QR codes as printed with half blocks. Strict: every module has to be as the standard (ISO/IEC 18004) has it.

/// Error correction bytes per block, by level (L, M, Q, H) and version
const ECC: [[u8; 40]; 4] = [
    [7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28],
    [13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
];
/// Number of blocks
const BLOCKS: [[u8; 40]; 4] = [
    [1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25],
    [1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49],
    [1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68],
    [1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81],
];

fn align(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut p: Vec<usize> = (0..n - 1).map(|i| 17 + 4 * v - 7 - i * step).collect();
    p.push(6);
    p
}

fn mask(m: u32, x: usize, y: usize) -> bool {
    (match m {
        0 => (x + y) % 2,
        1 => y % 2,
        2 => x % 3,
        3 => (x + y) % 3,
        4 => (x / 3 + y / 2) % 2,
        5 => x * y % 2 + x * y % 3,
        6 => (x * y % 2 + x * y % 3) % 2,
        _ => ((x + y) % 2 + x * y % 3) % 2,
    }) == 0
}

fn mul(a: u8, b: u8) -> u8 {
    let mut z = 0u8;
    for i in (0..8).rev() {
        z = z << 1 ^ (z >> 7) * 0x1d;
        z ^= (b >> i & 1) * a;
    }
    z
}

/// Whether the Reed-Solomon code word is valid: it vanishes at the first n powers of 2
fn valid(word: &[u8], n: usize) -> bool {
    let mut root = 1u8;
    for _ in 0..n {
        if word.iter().fold(0u8, |s, b| mul(s, root) ^ b) != 0 {
            return false;
        }
        root = mul(root, 2);
    }
    true
}

pub fn decode(text: &str) -> Result<String, String> {
    let rows: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
    let n = rows.first().map_or(0, |r| r.len());
    if n < 21 || n > 177 || n % 4 != 1 || rows.len() != (n + 1) / 2 || rows.iter().any(|r| r.len() != n) {
        return Err(format!("no QR code: {} lines, the first {} wide", rows.len(), n));
    }
    let v = (n - 17) / 4;
    let mut m = vec![vec![false; n]; n + 1];
    for (i, r) in rows.iter().enumerate() {
        for (x, c) in r.iter().enumerate() {
            let b = match c {
                ' ' => 0,
                '\u{2580}' => 1,
                '\u{2584}' => 2,
                '\u{2588}' => 3,
                _ => return Err(format!("QR code contains {:?}", c)),
            };
            m[2 * i][x] = b & 1 == 1;
            m[2 * i + 1][x] = b & 2 == 2;
        }
    }
    if m[n].iter().any(|b| *b) {
        return Err("QR code has too many rows".into());
    }
    // fixed patterns
    let mut fun = vec![vec![false; n]; n];
    let mut fixed: Vec<(usize, usize, bool)> = vec![];
    for i in 0..n {
        fixed.push((i, 6, i % 2 == 0));
        fixed.push((6, i, i % 2 == 0));
    }
    for (cx, cy) in [(3i32, 3i32), (n as i32 - 4, 3), (3, n as i32 - 4)] {
        for dy in -4..=4i32 {
            for dx in -4..=4i32 {
                let (x, y) = (cx + dx, cy + dy);
                if x >= 0 && y >= 0 && x < n as i32 && y < n as i32 {
                    let d = dx.abs().max(dy.abs());
                    fixed.retain(|f| (f.0, f.1) != (x as usize, y as usize));
                    fixed.push((x as usize, y as usize, d != 2 && d != 4));
                }
            }
        }
    }
    let al = align(v);
    let last = al.first().copied().unwrap_or(0);
    for &cx in &al {
        for &cy in &al {
            if (cx, cy) == (6, 6) || (cx, cy) == (6, last) || (cx, cy) == (last, 6) {
                continue;
            }
            for dy in 0..5 {
                for dx in 0..5 {
                    let (x, y) = (cx + dx - 2, cy + dy - 2);
                    fixed.retain(|f| (f.0, f.1) != (x, y));
                    fixed.push((x, y, (dx as i32 - 2).abs().max((dy as i32 - 2).abs()) != 1));
                }
            }
        }
    }
    fixed.push((8, n - 8, true));
    // format
    let mut places = [vec![], vec![]];
    for i in 0..15usize {
        places[0].push(match i {
            0..=5 => (8, i),
            6 => (8, 7),
            7 => (8, 8),
            8 => (7, 8),
            _ => (14 - i, 8),
        });
        places[1].push(if i < 8 { (n - 1 - i, 8) } else { (8, n - 15 + i) });
    }
    let read: Vec<u32> = places.iter().map(|p| p.iter().enumerate().map(|(i, (x, y))| (m[*y][*x] as u32) << i).sum()).collect();
    let format = (0..32u32).find(|d| {
        let mut rem = *d;
        for _ in 0..10 {
            rem = rem << 1 ^ (rem >> 9) * 0x537;
        }
        (d << 10 | rem) ^ 0x5412 == read[0]
    });
    let Some(format) = format.filter(|_| read[0] == read[1]) else { return Err("QR code with broken format bits".into()) };
    for (x, y) in places.iter().flatten() {
        fun[*y][*x] = true;
    }
    let level = [1, 0, 3, 2][(format >> 3) as usize];
    if v >= 7 {
        let mut rem = v as u32;
        for _ in 0..12 {
            rem = rem << 1 ^ (rem >> 11) * 0x1f25;
        }
        let bits = (v as u32) << 12 | rem;
        for i in 0..18 {
            let b = bits >> i & 1 == 1;
            fixed.push((n - 11 + i % 3, i / 3, b));
            fixed.push((i / 3, n - 11 + i % 3, b));
        }
    }
    for (x, y, b) in fixed {
        fun[y][x] = true;
        if m[y][x] != b {
            return Err(format!("QR code with a wrong module at {} {}", x, y));
        }
    }
    // code words
    let mut bits = vec![];
    let mut right = n as i32 - 1;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for k in 0..n {
            for j in 0..2 {
                let x = (right - j) as usize;
                let y = if (right + 1) & 2 == 0 { n - 1 - k } else { k };
                if !fun[y][x] {
                    bits.push(m[y][x] ^ mask(format & 7, x, y));
                }
            }
        }
        right -= 2;
    }
    let raw: Vec<u8> = bits.chunks_exact(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    let (nb, ne) = (BLOCKS[level][v - 1] as usize, ECC[level][v - 1] as usize);
    let short = raw.len() / nb;
    let nshort = nb - raw.len() % nb;
    let mut blocks: Vec<Vec<u8>> = vec![vec![]; nb];
    let mut it = raw.iter();
    for i in 0..=short {
        for (j, b) in blocks.iter_mut().enumerate() {
            // the short ones lack the last byte of data
            if i == short - ne && j < nshort {
                continue;
            }
            if let Some(c) = it.next() {
                b.push(*c);
            }
        }
    }
    let mut data = vec![];
    for b in &blocks {
        if !valid(b, ne) {
            return Err("QR code with wrong error correction".into());
        }
        data.extend_from_slice(&b[..b.len() - ne]);
    }
    // segments
    let mut at = 0;
    let total = data.len() * 8;
    let take = |at: &mut usize, k: usize| -> Option<u32> {
        if *at + k > total {
            return None;
        }
        let mut r = 0;
        for _ in 0..k {
            r = r << 1 | (data[*at / 8] >> (7 - *at % 8) & 1) as u32;
            *at += 1;
        }
        Some(r)
    };
    let mut out: Vec<u8> = vec![];
    let short = |e: &str| Err(format!("QR code ends in the middle of {}", e));
    loop {
        let mode = match take(&mut at, 4) {
            None | Some(0) => break,
            Some(x) => x,
        };
        let w = if v < 10 { 0 } else if v < 27 { 1 } else { 2 };
        match mode {
            1 => {
                let Some(mut c) = take(&mut at, [10, 12, 14][w]) else { return short("a length") };
                while c > 0 {
                    let k = c.min(3);
                    let Some(x) = take(&mut at, [0, 4, 7, 10][k as usize]) else { return short("digits") };
                    out.extend(format!("{:0w$}", x, w = k as usize).bytes());
                    c -= k;
                }
            }
            2 => {
                const A: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
                let Some(mut c) = take(&mut at, [9, 11, 13][w]) else { return short("a length") };
                while c > 0 {
                    let k = c.min(2);
                    let Some(x) = take(&mut at, if k == 2 { 11 } else { 6 }) else { return short("letters") };
                    if k == 2 {
                        out.push(*A.get(x as usize / 45).ok_or("bad letter")?);
                    }
                    out.push(A[x as usize % 45]);
                    c -= k;
                }
            }
            4 => {
                let Some(c) = take(&mut at, [8, 16, 16][w]) else { return short("a length") };
                for _ in 0..c {
                    let Some(x) = take(&mut at, 8) else { return short("bytes") };
                    out.push(x as u8);
                }
            }
            _ => return Err(format!("QR code with a segment of mode {}", mode)),
        }
    }
    String::from_utf8(out).map_err(|_| "QR code of something that is not UTF-8".into())
}

#[cfg(test)]
mod tests {
    #[test]
    fn sample() {
        // from the tests of the program
        let t = "\
█▀▀▀▀▀█ █  ▄  █▀▀▀▀▀█
█ ███ █ ▀▄▄▀▀ █ ███ █
█ ▀▀▀ █ ▄▀█ █ █ ▀▀▀ █
▀▀▀▀▀▀▀ █▄█ █ ▀▀▀▀▀▀▀
  ███▄▀ ▀ ▄ ████  ███
 ▄▀▄ ▄▀▀▀▀▀▀▄▄ ▄██▄█ 
▀   ▀ ▀▀█ ▄ ▀▄▀ ▀▄▄ ▄
█▀▀▀▀▀█   ▀▀▀ █▀ ▄█▀ 
█ ███ █ ███▄  ▀█ ▄▄▀ 
█ ▀▀▀ █ ▀▀▄ █▄█▄█ ▄  
▀▀▀▀▀▀▀     ▀ ▀ ▀ ▀▀ 
";
        println!("{:?}", super::decode(t));
        assert!(super::decode(t).is_ok());
        let mut bad = t.to_string();
        bad = bad.replacen("▄▀▄ ▄▀", "▄▀▄  ▀", 1);
        assert!(super::decode(&bad).is_err());
    }
}

const CAPACITY: usize = 23648;
/// The number of bits a text would need in the largest code, if that is more than it has.
pub fn excess(text: &str) -> Option<String> {
    const ALNUM: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
    let n = text.len();
    let bits = if text.bytes().all(|c| c.is_ascii_digit()) {
        4 + 14 + n / 3 * 10 + [0, 4, 7][n % 3]
    } else if text.chars().all(|c| ALNUM.contains(c)) {
        4 + 13 + n / 2 * 11 + n % 2 * 6
    } else {
        4 + 16 + n * 8
    };
    if bits > CAPACITY { Some(format!("Data length = {} bits, Max capacity = {} bits", bits, CAPACITY)) } else { None }
}
