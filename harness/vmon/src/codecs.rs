//! The runtime's public building blocks, used directly.
use crate::glue::errk;
use crate::*;
use bp3d_proto::codec::{ArrayCodec, BitCodec, BitCodecBE, BitCodecLE, ByteCodec, ByteCodecBE, ByteCodecLE};
use bp3d_proto::message::util::{Buffer, NullTerminatedString, Optional, ValueBE, ValueLE, VarcharString};
use bp3d_proto::message::util::array::Array;
use bp3d_proto::util::FixedSize;
use bp3d_proto::message::{FromSlice, WriteTo};
use vir::refm::{get_bits, num, put, set_bits};
use vir::mask;

macro_rules! bits {
    ($c: expr; $($o: literal $n: literal $t: ty),*) => { $( {
        let c: &mut Ctx = $c;
        let len = ($o + $n + 7) / 8;
        for big in [false, true] {
            let b = c.rng.bytes(len).into_boxed_slice();
            let want = get_bits(&b, $o, $n, big);
            let got = guard(|| if big { BitCodecBE::read::<$t, $o, $n>(&b) } else { BitCodecLE::read::<$t, $o, $n>(&b) } as u64);
            c.check(got.as_ref() == Ok(&want), || format!("bits {}+{} (big: {}) of {} read {:?} instead of {:#x}", $o, $n, big, hex(&b), got, want));
            let v = c.rng.next() & mask(<$t>::BITS);
            let mut y = b.to_vec();
            set_bits(&mut y, $o, $n, big, v);
            let mut x = b.clone();
            let r = guard(|| if big { BitCodecBE::write::<$t, $o, $n>(&mut x, v as $t) } else { BitCodecLE::write::<$t, $o, $n>(&mut x, v as $t) });
            c.check(r.is_ok() && x[..] == y[..], || format!("bits {}+{} (big: {}) of {} set to {:#x} give {} instead of {}", $o, $n, big, hex(&b), v, hex(&x), hex(&y)));
            c.see_u(&[$o, $n, big as u64]);
            c.add("codec_accesses", 2);
        }
    } )* };
}

fn bit_codecs(c: &mut Ctx) {
    let n = if c.rounds > 0 { c.rounds } else { 50 };
    for _ in 0..n {
        bits!(c; 0 1 u8, 3 1 u8, 7 1 u8, 0 3 u8, 2 5 u8, 1 7 u8, 0 8 u8, 4 8 u8, 7 2 u8, 5 8 u8,
            0 9 u16, 1 9 u16, 7 10 u16, 3 13 u16, 0 16 u16, 4 16 u16, 7 16 u16, 0 12 u16,
            0 17 u32, 5 19 u32, 3 24 u32, 0 24 u32, 7 25 u32, 0 32 u32, 1 32 u32, 7 31 u32, 6 26 u32,
            0 33 u64, 3 37 u64, 0 40 u64, 0 48 u64, 0 56 u64, 7 57 u64, 1 63 u64, 0 64 u64, 3 64 u64, 7 64 u64, 5 59 u64);
    }
}

/// Buffers of any size: no matter what, nothing outside of them may be touched.
fn sizes(c: &mut Ctx) {
    for len in 0..20usize {
        let mut b = c.rng.bytes(len).into_boxed_slice();
        macro_rules! go {
            ($($t: ty),*) => { $(
                let _ = guard(|| ByteCodecLE::read::<$t>(&b));
                let _ = guard(|| ByteCodecBE::read::<$t>(&b));
                let _ = guard(|| ByteCodecLE::write::<$t>(&mut b, 1 as $t));
                let _ = guard(|| ByteCodecBE::write::<$t>(&mut b, 1 as $t));
                let _ = guard(|| ArrayCodec::<&[u8], $t, ByteCodecBE, 24>::new(&b).iter_raw().count());
                let _ = guard(|| ArrayCodec::<&[u8], $t, ByteCodecLE, 40>::new(&b).get_raw(len / 5));
                let _ = guard(|| { ArrayCodec::<&mut [u8], $t, ByteCodecLE, 16>::new(&mut b).set_raw(len / 2, 1 as $t); });
                let _ = guard(|| ValueLE::<$t>::from_slice(&b).is_ok());
                let _ = guard(|| ValueBE::<$t>::from_slice(&b).is_ok());
                c.add("codec_accesses", 9);
            )* };
        }
        go!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
        macro_rules! bit {
            ($($t: ty)*) => { $(
                let _ = guard(|| BitCodecLE::read::<$t, 3, 5>(&b));
                let _ = guard(|| BitCodecBE::read::<$t, 3, 5>(&b));
                let _ = guard(|| BitCodecLE::write::<$t, 3, 5>(&mut b, 1));
                let _ = guard(|| BitCodecBE::write::<$t, 3, 5>(&mut b, 1));
                let _ = guard(|| BitCodecBE::write::<$t, 0, 8>(&mut b, 1));
                c.add("codec_accesses", 5);
            )* };
        }
        bit!(u8 u16 u32 u64);
        c.see_u(&[len as u64, 1]);
    }
}

/// Strings and numbers with every length prefix.
fn strings(c: &mut Ctx) {
    let n = if c.rounds > 0 { c.rounds } else { 300 };
    for k in 0..n {
        macro_rules! go {
            ($($p: ty, $size: literal, $big: literal);*) => { $( {
                let body = c.rng.idx(12);
                let mut b = Vec::new();
                let len = match c.rng.below(4) {
                    0 => c.rng.bits($size * 8),
                    1 => mask($size * 8) - c.rng.below(12),
                    _ => c.rng.idx(body + 3) as u64,
                };
                put(&mut b, len, $size, $big);
                let ascii = c.rng.chance(2, 3);
                for _ in 0..body {
                    b.push(if ascii { b'a' } else { c.rng.next() as u8 });
                }
                let cut = if c.rng.chance(1, 5) { c.rng.idx(b.len() + 1) } else { b.len() };
                let b = b[..cut].to_vec().into_boxed_slice();
                let want = if b.len() < $size { Err(ErrK::Truncated) } else {
                    let n = num(&b, $size, $big) as usize;
                    match n.checked_add($size).and_then(|e| b.get($size..e)) {
                        None => Err(ErrK::Truncated),
                        Some(s) => std::str::from_utf8(s).map(|s| (s.len() + $size, s)).map_err(|_| ErrK::Utf8),
                    }
                };
                let got = guard(|| VarcharString::<$p>::from_slice(&b).map(|m| (m.size(), m.into_inner())).map_err(errk));
                c.check(got.as_ref() == Ok(&want), || format!("string with {}-byte prefix {} reads {:?} instead of {:?}", $size, hex(&b), got, want));
                let mut o = vec![1u8];
                o.extend(&b[..]);
                let wanto = want.map(|(n, s)| (n + 1, Some(s)));
                let got = guard(|| Optional::<VarcharString::<$p>>::from_slice(&o).map(|m| (m.size(), m.into_inner())).map_err(errk));
                c.check(got.as_ref() == Ok(&wanto), || format!("optional string {} reads {:?} instead of {:?}", hex(&o), got, wanto));
                c.see_u(&[$size, $big as u64, wanto.is_ok() as u64, (k % 4) as u64]);
                c.add("strings", 2);
            } )* };
        }
        go!(ValueLE<u8>, 1, false; ValueBE<u8>, 1, true; ValueLE<u16>, 2, false; ValueBE<u16>, 2, true; ValueLE<u32>, 4, false; ValueBE<u32>, 4, true; ValueLE<u64>, 8, false; ValueBE<u64>, 8, true);
        let m = c.rng.idx(10);
        let b: Box<[u8]> = (0..m).map(|_| *c.rng.pick(&[0u8, b'a', b'z', 0xC3, 0xA9, 0xFF])).collect();
        let want = match b.iter().position(|v| *v == 0) {
            None => Err(ErrK::Truncated),
            Some(n) => std::str::from_utf8(&b[..n]).map(|s| (n + 1, s)).map_err(|_| ErrK::Utf8),
        };
        let got = guard(|| NullTerminatedString::from_slice(&b).map(|m| (m.size(), m.into_inner())).map_err(errk));
        c.check(got.as_ref() == Ok(&want), || format!("string {} reads {:?} instead of {:?}", hex(&b), got, want));
        let got = guard(|| Buffer::from_slice(&b).map(|m| (m.size(), m.into_inner())).map_err(errk));
        c.check(got == Ok(Ok((b.len(), &b[..]))), || format!("buffer {} reads {:?}", hex(&b), got));
        c.add("strings", 2);
        if c.full() {
            return;
        }
    }
}

struct One;

impl FixedSize for One {
    const SIZE: usize = 1;
}

/// Counts what is written and looks at nothing.
struct Count(usize);

impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Writing strings whose length no prefix expresses.
fn refusals(c: &mut Ctx) {
    macro_rules! go {
        ($($p: ty, $size: literal);*) => { $(
            for len in [0usize, 1, 254, 255, 256, 257, 65535, 65536, 65537, 131072] {
                let s = "x".repeat(len);
                let mut o = Vec::new();
                let got = guard(|| VarcharString::<$p>::write_to(&s, &mut o).map_err(errk));
                let fits = len as u64 <= mask($size * 8);
                c.check(matches!(&got, Ok(r) if r.is_ok() == fits), || format!("{} bytes with a {}-byte prefix: {:?}", len, $size, got));
                if fits {
                    let back = guard(|| VarcharString::<$p>::from_slice(&o).map(|m| m.into_inner().len()).map_err(errk));
                    c.check(back == Ok(Ok(len)), || format!("{} bytes with a {}-byte prefix read back: {:?}", len, $size, back));
                }
                c.see_u(&[len as u64, $size, 7]);
                c.add("refusals", 1);
            }
        )* };
    }
    go!(ValueLE<u8>, 1; ValueBE<u8>, 1; ValueLE<u16>, 2; ValueBE<u16>, 2; ValueLE<u32>, 4; ValueBE<u64>, 8);
    // Lengths no 32-bit prefix expresses: memory that is never touched.
    if !c.miri && usize::BITS == 64 {
        for extra in [0usize, 1, 5, 255, 256, 65536] {
            let len = (1usize << 32) + extra;
            let mut zeros: Vec<u8> = Vec::new();
            if zeros.try_reserve_exact(len).is_err() {
                break;
            }
            drop(zeros);
            let zeros = vec![0u8; len];
            // All zeros: valid UTF-8.
            let s = unsafe { std::str::from_utf8_unchecked(&zeros) };
            macro_rules! huge {
                ($($p: ty, $size: literal);*) => { $(
                    let mut o = Count(0);
                    let got = guard(|| VarcharString::<$p>::write_to(s, &mut o).map_err(errk));
                    let fits = $size == 8;
                    c.check(matches!(&got, Ok(r) if r.is_ok() == fits), || format!("a string of {} bytes with a {}-byte prefix: {:?} after {} bytes", len, $size, got, o.0));
                    c.check(!fits || o.0 == len + 8, || format!("a string of {} bytes with a {}-byte prefix: {} bytes came out", len, $size, o.0));
                    let l = Array::<&[u8], $p, One>::from_parts(&zeros[..], len);
                    c.check(l.is_some(), || format!("an array of {} bytes is not accepted", len));
                    if let Some(l) = l {
                        let mut o = Count(0);
                        let got = guard(|| Array::<&[u8], $p, One>::write_to(&l, &mut o).map_err(errk));
                        c.check(matches!(&got, Ok(r) if r.is_ok() == fits), || format!("an array of {} bytes with a {}-byte prefix: {:?} after {} bytes", len, $size, got, o.0));
                    }
                    c.see_u(&[len as u64, $size, 8]);
                    c.add("huge_refusals", 2);
                )* };
            }
            huge!(ValueLE<u8>, 1; ValueBE<u16>, 2; ValueLE<u32>, 4; ValueBE<u32>, 4; ValueLE<u64>, 8);
        }
    }
    for s in ["\0", "a\0", "\0a", "a\0b"] {
        let mut o = Vec::new();
        let got = guard(|| NullTerminatedString::write_to(s, &mut o).map_err(errk));
        c.check(matches!(&got, Ok(Err(_))), || format!("{:?} as a NUL-terminated string: {:?}", s, got));
        let mut o = Vec::new();
        let got = guard(|| Optional::<NullTerminatedString>::write_ref(Some(s), &mut o).map_err(errk));
        c.check(matches!(&got, Ok(Err(_))), || format!("{:?} as an optional NUL-terminated string: {:?}", s, got));
        c.add("refusals", 2);
    }
}

pub fn run(c: &mut Ctx, prop: &str) {
    c.what = "runtime".into();
    match prop {
        "C01" | "C02" => bit_codecs(c),
        "C10" => strings(c),
        "C17" => refusals(c),
        "C18" => {
            sizes(c);
            bit_codecs(c);
            strings(c);
        }
        _ => (),
    }
}
