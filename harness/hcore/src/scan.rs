//! C03: the vectorised scanners equal a byte-at-a-time reference and never touch a byte outside the slice.
use oak_core::{
    lexer::{
        scan_number::{count_ascii_digit_prefix, count_ascii_hexdigit_prefix},
        scan_string::find_first_of_4,
        scan_white_space::count_space_tab_prefix,
    },
    source::SimdScanner,
};
use vcommon::*;

#[cfg(not(miri))]
mod guarded {
    unsafe extern "C" {
        fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(a: *mut u8, l: usize, prot: i32) -> i32;
    }
    /// One readable page between two inaccessible pages.
    pub struct Page(*mut u8);
    pub const SIZE: usize = 4096;
    impl Page {
        pub fn new() -> Page {
            unsafe {
                let p = mmap(std::ptr::null_mut(), 3 * SIZE, 0, 0x22, -1, 0);
                assert!(p as isize > 0, "mmap");
                assert_eq!(mprotect(p.add(SIZE), SIZE, 3), 0);
                Page(p.add(SIZE))
            }
        }
        /// Copies `b` so that it ends exactly at the guard page.
        pub fn at_end(&mut self, b: &[u8]) -> &[u8] {
            unsafe {
                let d = self.0.add(SIZE - b.len());
                std::ptr::copy_nonoverlapping(b.as_ptr(), d, b.len());
                std::slice::from_raw_parts(d, b.len())
            }
        }
        /// Copies `b` so that it starts `off` bytes after the leading guard page.
        pub fn at_start(&mut self, b: &[u8], off: usize) -> &[u8] {
            unsafe {
                let d = self.0.add(off);
                std::ptr::copy_nonoverlapping(b.as_ptr(), d, b.len());
                std::slice::from_raw_parts(d, b.len())
            }
        }
    }
}
#[cfg(miri)]
mod guarded {
    pub struct Page(Vec<u8>);
    impl Page {
        pub fn new() -> Page {
            Page(vec![])
        }
        pub fn at_end(&mut self, b: &[u8]) -> &[u8] {
            self.0 = b.to_vec();
            &self.0
        }
        pub fn at_start(&mut self, b: &[u8], off: usize) -> &[u8] {
            self.0 = vec![0; off];
            self.0.extend_from_slice(b);
            self.0.shrink_to_fit();
            &self.0[off..]
        }
    }
}

fn compare(t: &[u8], x: u8, y: u8, z: u8, w: u8, n: &mut u64) -> Check {
    let pre = |f: &dyn Fn(u8) -> bool| t.iter().take_while(|&&b| f(b)).count();
    let find = |f: &dyn Fn(u8) -> bool| t.iter().position(|&b| f(b));
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {{
            *n += 1;
            let (g, w) = ($got, $want);
            ensure!(g == w, $what, "got {:?}, byte-at-a-time {:?}; len {} bytes {:02x?} args {x:#x} {y:#x} {z:#x} {w:#x?}", g, w, t.len(), &t[..t.len().min(160)]);
        }};
    }
    eq!("find_byte", SimdScanner::find_byte(t, x), find(&|b| b == x));
    eq!("skip_byte", SimdScanner::skip_byte(t, x), pre(&|b| b == x));
    eq!("skip_two_bytes", SimdScanner::skip_two_bytes(t, x, y), pre(&|b| b == x || b == y));
    eq!("skip_ascii_whitespace", SimdScanner::skip_ascii_whitespace(t), pre(&|b| b" \t\n\r".contains(&b)));
    eq!("skip_ascii_digits", SimdScanner::skip_ascii_digits(t), pre(&|b| (b'0'..=b'9').contains(&b)));
    eq!("skip_ascii_ident_continue", SimdScanner::skip_ascii_ident_continue(t), pre(&|b| b == b'_' || b.is_ascii_alphanumeric()));
    eq!("skip_ascii_hexdigits", SimdScanner::skip_ascii_hexdigits(t), pre(&|b| b.is_ascii_hexdigit()));
    eq!("find_first_of_4", SimdScanner::find_first_of_4(t, x, y, z, w), find(&|b| b == x || b == y || b == z || b == w));
    eq!("skip_until", SimdScanner::skip_until(t, x), pre(&|b| b != x));
    eq!("count_ascii_digit_prefix", count_ascii_digit_prefix(t), pre(&|b| b.is_ascii_digit()));
    eq!("count_ascii_hexdigit_prefix", count_ascii_hexdigit_prefix(t), pre(&|b| b.is_ascii_hexdigit()));
    eq!("count_space_tab_prefix", count_space_tab_prefix(t), pre(&|b| b == b' ' || b == b'\t'));
    eq!("find_first_of_4 (helper)", find_first_of_4(t, x, y, z, w), find(&|b| b == x || b == y || b == z || b == w));
    Ok(())
}

const CLASSES: [&[u8]; 7] = [b" \t\n\r", b"0123456789", b"abcxyzABCXYZ0189_", b"0123456789abcdefABCDEF", b"aaaa", b" \t", b"qz"];

pub fn scanners(r: &mut Run) {
    let mut page = guarded::Page::new();
    // run of one class of length `k`, then each possible byte value as the stopper, at every length and position
    let maxlen = if cfg!(miri) { 5 } else { 130 };
    r.family_exact("every-length-and-stop-position", 7 * (maxlen + 1), |c| {
        let class = CLASSES[(c.index % 7) as usize];
        let len = (c.index / 7) as usize;
        c.input(format!("class {:?} length {len}", String::from_utf8_lossy(class)));
        let mut n = 0;
        for stop in 0..=len {
            let fills = if c.thorough { 8 } else { 2 };
            for _ in 0..fills {
                let mut t: Vec<u8> = (0..len).map(|_| *c.rng.pick(class)).collect();
                if stop < len {
                    t[stop] = c.rng.below(256) as u8;
                    // sometimes a second match right after, or in the next block
                    if c.rng.chance(1, 2) {
                        let j = c.rng.range(stop, len - 1);
                        t[j] = c.rng.below(256) as u8;
                    }
                }
                let x = if c.rng.chance(1, 2) && stop < len { t[stop] } else { *c.rng.pick(class) };
                let (y, z, w) = (*c.rng.pick(class), c.rng.below(256) as u8, b'~');
                compare(page.at_end(&t), x, y, z, w, &mut n)?;
                let off = c.rng.below(64);
                compare(page.at_start(&t, off), x, y, z, w, &mut n)?;
                compare(&t, b'~', x, w, z, &mut n)?;
            }
        }
        c.seen("scanner calls compared", n);
        c.distinct(&(class, len));
        Ok(())
    });
    // every byte value is classified correctly in the vector part and in the tail
    let n = if cfg!(miri) { 8 } else { 256 };
    r.family_exact("every-byte-value", n, |c| {
        let v = if cfg!(miri) { c.rng.below(256) as u8 } else { c.index as u8 };
        c.input(format!("byte {v:#x}"));
        let mut n = 0;
        for class in CLASSES {
            for pos in [0usize, 1, 15, 16, 30, 31, 32, 33, 40, 63, 64, 70] {
                for len in [pos + 1, 32.max(pos + 1), 64.max(pos + 1), 71.max(pos + 1), 96] {
                    let mut t = vec![class[0]; len];
                    t[pos] = v;
                    compare(page.at_end(&t), v, class[0], b'~', 0xff, &mut n)?;
                    compare(&t, class[0], v, 0, 0x80, &mut n)?;
                    compare(&t, b'~', 0xfe, 0x7f, v, &mut n)?;
                    compare(&t, b'~', 0xfe, v, 0x7f, &mut n)?;
                    if cfg!(miri) {
                        break;
                    }
                }
            }
            if cfg!(miri) {
                break;
            }
        }
        c.seen("scanner calls compared", n);
        c.distinct(&v);
        Ok(())
    });
    let (q, th) = if cfg!(miri) { (30, 200) } else { (4000, 200_000) };
    r.family("random-bytes", q, th, |c| {
        let len = if c.rng.chance(1, 50) { c.rng.below(3000) } else { c.rng.below(200) };
        let extra = c.rng.range(1, 4);
        let mix: Vec<u8> = (0..extra).map(|_| c.rng.below(256) as u8).collect::<Vec<u8>>().into_iter().chain(c.rng.pick(&CLASSES).iter().copied()).collect();
        let rare = c.rng.chance(1, 2);
        let mut t: Vec<u8> = Vec::with_capacity(len);
        for _ in 0..len {
            let common = rare && !c.rng.chance(1, 60);
            t.push(if common { mix[mix.len() - 1] } else { *c.rng.pick(&mix) });
        }
        let a: Vec<u8> = (0..4).map(|_| *c.rng.pick(&mix)).collect();
        c.input(format!("{:02x?} args {a:02x?}", &t));
        let mut n = 0;
        compare(page.at_end(&t), a[0], a[1], a[2], a[3], &mut n)?;
        compare(page.at_start(&t, 1), a[0], a[1], a[2], a[3], &mut n)?;
        c.seen("scanner calls compared", n);
        c.distinct(&t);
        Ok(())
    });
}
